"""Reference definitions of the galaxy model (read by the analyser, never executed)."""

from diffmah.diffmah_kernels import _log_mah_kern
from jax import numpy as jnp

SFR_MIN = 1e-14
T_BIRTH = 0.001
MS_K = 9.0


def expit(x):
    return 1 / (1 + jnp.exp(-x))


def ms_sfr(t, mah_params, p, logt0, fb):
    lgm = _log_mah_kern(mah_params, t, logt0)
    w = expit(MS_K * (lgm - p.lgmcrit))
    slope = (1 - w) * p.indx_lo + w * p.indx_hi
    return fb * 10**lgm * 10 ** (p.lgy_at_mcrit + slope * (lgm - p.lgmcrit))


def tw(y):
    v = -5 * y**7 / 69984 + 7 * y**5 / 2592 - 35 * y**3 / 864 + 35 * y / 96 + 0.5
    return jnp.where(y < -3, 0.0, jnp.where(y > 3, 1.0, v))


def lg_quench(lgt, lg_qt, duration, drop, rejuv):
    """log10 of the suppression: 0 -> drop over the first half of the event, drop -> rejuv after"""
    h = duration / 12
    y = (lgt - lg_qt) / h
    return jnp.where(y < 0, drop * tw(y + 3), drop + (rejuv - drop) * tw(y - 3))


def quench(t, p):
    return 10 ** lg_quench(jnp.log10(t), p.lg_qt, 10**p.qlglgdt, p.lg_drop, p.lg_rejuv)


def sfr_raw(t, mah_params, p, logt0, fb):
    return quench(t, p) * ms_sfr(t, mah_params, p, logt0, fb)


def sfr(t, mah_params, p, logt0, fb):
    return jnp.maximum(SFR_MIN, sfr_raw(t, mah_params, p, logt0, fb))


def mass_formed(t, sfr):
    """trapezoidal integral (Msun) of sfr (Msun/yr) over t (Gyr), begun at the birth time with the floor"""
    tp = jnp.concatenate((jnp.array([T_BIRTH]), t[:-1]))
    sp = jnp.concatenate((jnp.array([SFR_MIN]), sfr[:-1]))
    return 1e9 * jnp.cumsum(0.5 * (t - tp) * (sfr + sp))


def trapz(x, y):
    d = jnp.concatenate((jnp.zeros(1), 0.5 * jnp.diff(x) * (y[1:] + y[:-1])))
    return jnp.cumsum(d)


def dt_array(t):
    """distance between the midpoints on either side; the ends mirror their neighbour interval"""
    mid = 0.5 * (t[1:] + t[:-1])
    first = t[0] - 0.5 * (t[1] - t[0])
    edges = jnp.concatenate((jnp.array([first]), mid))
    last = t[-1] + 0.5 * (edges[-1] - edges[-2])
    return jnp.diff(jnp.concatenate((edges, jnp.array([last]))))


def fstar(t, mass, window):
    before = jnp.interp(t - window, t, mass)
    return jnp.maximum(0.0, (mass - before) / (window * 1e9))


def root(x):
    return jnp.sqrt(x)
