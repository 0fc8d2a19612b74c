"""Reference definitions for the halo-population model."""

import jax.numpy as jnp
from jax import nn

PIVOT = 12.5
MS = ("ulgm", "ulgy", "ul", "uh")
Q = ("uqt", "uqs", "udrop", "urej")
ROLLING = ("ulgm", "ulgy", "uqt")


def sig(x, x0, k, lo, hi):
    return lo + (hi - lo) * nn.sigmoid(k * (x - x0))


def clipped_line(x, x0, y0, m, y_lo, y_hi):
    """straight line through (x0, y0); turns flat one percent short of each limit"""
    y = y0 + m * (x - x0)
    lo = y_lo + (y0 - y_lo) / 100
    hi = y_hi - (y_hi - y0) / 100
    k = 2000 / (y0 - y_lo)
    below = lo + (y - lo) * nn.sigmoid(k * (y - lo))
    return below + (hi - below) * nn.sigmoid(k * (y - hi))


def rolling(x, xtp, ytp, lo, hi):
    return ytp + sig(x, xtp, 3.0, lo, hi) * (x - xtp)


def mean(p, x, tag, seq, limits):
    """mean of one unbounded parameter; seq is '_mseq', '_qseq' or '' for the quenching block"""
    g = lambda s: getattr(p, "mean_" + tag + seq + s)
    if tag in ROLLING:
        return rolling(x, g("_xtp"), g("_ytp"), g("_lo"), g("_hi"))
    lo, hi = limits
    return clipped_line(x, PIVOT, g("_int"), g("_slp"), lo, hi)


def delta_uqt(p, x, tpeak):
    return (
        sig(tpeak, p.delta_uqt_x0, p.delta_uqt_k, p.delta_uqt_ylo, p.delta_uqt_yhi)
        + (x - PIVOT) * p.delta_uqt_slope
    )


def std(p, x, tag, seq, limits):
    g = lambda s: getattr(p, "std_" + tag + seq + s)
    lo, hi = limits
    return clipped_line(x, PIVOT, g("_int"), g("_slp"), lo, hi)


def frac(p, x, tpeak, kind):
    g = lambda s: getattr(p, "frac_quench_" + kind + s)
    x0 = sig(tpeak, g("_x0_tpeak"), g("_k_tpeak"), g("_x0_ylotpeak"), g("_x0_yhitpeak"))
    lo = sig(tpeak, g("_x0_tpeak"), g("_k_tpeak"), g("_ylo_ylotpeak"), g("_ylo_yhitpeak"))
    return sig(x, x0, g("_k"), lo, g("_yhi"))


def sat_boost(p, mu, mh, gyr):
    lo = sig(mu, p.qphi_lgmu_crit, 2.0, p.lgmu_lo_mh_lo, p.lgmu_hi_mh_lo)
    hi = sig(mu, p.qphi_lgmu_crit, 2.0, p.lgmu_lo_mh_hi, p.lgmu_hi_mh_hi)
    top = sig(mh, p.qp_lgmh_crit, 5.0, lo, hi)
    delay = sig(mh, p.td_lgmhc, 5.0, p.td_mlo, p.td_mhi)
    return sig(gyr, delay, 5.0, 0.0, top)


def frac_sat(p, x, tpeak, mu, mh, gyr):
    base = frac(p, x, tpeak, "sat")
    return base + sat_boost(p, mu, mh, gyr) * (1 - base)


def tw_cuml(z):
    """integral of the triweight density of unit width up to z"""
    s = z / 3
    body = 1 / 2 + (35 * s - 35 * s**3 + 21 * s**5 - 5 * s**7) / 32
    return jnp.where(z <= -3, 0.0, jnp.where(z >= 3, 1.0, body))


def tw_bin(x, sig, lo, hi):
    return tw_cuml((x - lo) / sig) - tw_cuml((x - hi) / sig)


def ndhist(x, sig, y, lo, hi):
    """sum over points of y times the product over dimensions of the bin weights; one number per bin"""
    w = tw_bin(x[None, :, :], sig[None, :, :], lo[:, None, :], hi[:, None, :])
    return jnp.sum(jnp.prod(w, axis=2) * y[None, :], axis=1)


def weighted_mean(x, sig, y, edges):
    w = tw_bin(x[None, :], sig[None, :], edges[:-1, None], edges[1:, None])
    return jnp.sum(w * y[None, :], axis=1) / jnp.sum(w, axis=1)
