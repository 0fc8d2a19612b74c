"""Summaries of library functions outside the repository (fixed dependencies)."""

from . import terms as T
from . import arrays as A
from .arrays import PyError
from .prims import arr


def cholesky_from_params(ip, f, args, kw):
    x = arr(args[0] if args else kw["params"])
    shp = A.shape_of(x)
    if len(shp) != 1 or not isinstance(shp[0], int):
        raise T.Undecided("get_cholesky_from_params of an array of unknown length")
    m = shp[0]
    n = 0
    while n * (n + 1) // 2 < m:
        n += 1
    if n * (n + 1) // 2 != m:
        raise PyError("ValueError", "get_cholesky_from_params: %d values do not fill a triangle" % m)

    def el(idx):
        i, j = idx
        if i == j:
            return x.get([i])
        if j < i:
            return x.get([n + i * (i - 1) // 2 + j])
        return T.ZERO

    return A.build((n, n), el, "f", True)


SUMMARIES = {"diffmah.utils.get_cholesky_from_params": cholesky_from_params}
