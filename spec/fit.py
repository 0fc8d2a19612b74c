"""References for the fitters: trajectory of gradient descent with Adam; targets, weights, start and misfit."""

import jax.numpy as jnp
from jax import value_and_grad
from jax.example_libraries import optimizers

from .model import SFR_MIN, fstar, mass_formed


def trajectory(loss, start, data, n_step, step_size):
    init, update, get = optimizers.adam(step_size)
    state = init(start)
    out = []
    for i in range(n_step):
        p = get(state)
        val, grad = value_and_grad(loss)(p, data)
        out.append((p, val))
        state = update(i, grad, state)
    return out


# ---------------------------------------------------------------- fit of one history
def targets(t, sfh, delay, floor):
    """(rate, mass, averaged rate) targets: the averaged rate is floored by the specific rate, then at a thousandth
    of its peak"""
    rate = jnp.maximum(sfh, SFR_MIN)
    mass = mass_formed(t, sfh)
    avg = mass * jnp.maximum(fstar(t, mass, delay) / mass, floor)
    avg = jnp.maximum(avg, jnp.max(avg) / 1000.0)
    return rate, mass, avg


def weights(t, logm, logf, delay, dlogm_cut, t_min, mass_min):
    """inverse weights: 1, one half within a tenth of a dex of the final mass (peak averaged rate), and 1e10 (no
    weight) elsewhere before t_min, below the mass cuts, or where the window reaches before the start"""
    last = logm[-1]
    keep = (logm > last - dlogm_cut) & (logm > jnp.minimum(last - 0.5, mass_min)) & (t >= t_min)
    base = jnp.where(keep, 1.0, 1e10)
    wm = jnp.where(last - logm < 0.1, 0.5, base)
    wf = jnp.where(jnp.max(logf) - logf < 0.1, 0.5, base)
    return wm, jnp.where(t < delay + 0.01, 1e10, wf)


def guess(logmp, default):
    """mass-dependent starting point, other parameters at their defaults"""
    x = logmp - 11.0
    return default._replace(
        lgmcrit=jnp.clip(11.4 + 0.3 * x, 11.0, 13.0),
        lgy_at_mcrit=jnp.clip(-9.7 + 0.2 * x, -10.5, -9.2),
        indx_lo=jnp.clip(-0.3 + 0.7 * x, 0.2, 3.0),
        lg_qt=jnp.clip(1.5 - 0.5 * x, 0.7, 1.5),
        lg_drop=-2.0,
    )


def residuals(params, t, rate, mass, sfh, delay, floor, dlogm_cut, t_min, mass_min):
    """differences between a model with the given rates and masses at the times t, and the history sfh: log mass, log
    averaged rate and rate in units of their weights, final log averaged rate, and log quenching time past the peak"""
    rate0, mass0, avg0 = targets(t, sfh, delay, floor)
    logm0, logf0 = jnp.log10(mass0), jnp.log10(avg0)
    wm, wf = weights(t, logm0, logf0, delay, dlogm_cut, t_min, mass_min)
    low = mass * floor / 10
    logf = jnp.log10(jnp.maximum(fstar(t, mass, delay), low))
    dr = jnp.clip(1e8 * (jnp.maximum(rate, low) - rate0) / mass0, -1.0, 1.0)
    t_peak = jnp.log10(t)[jnp.argmax(logf0)]
    return (jnp.log10(mass) - logm0) / wm, (logf - logf0) / wf, dr / wm, logf[-1] - logf0[-1], params.lg_qt - t_peak


def terms(dm, df, dr, dlast, late):
    return (
        30 * jnp.mean(dm**2),
        jnp.mean(df**2),
        jnp.mean(dr**2),
        0.5 * dlast**2,
        100.0 / (1 + jnp.exp(50.0 * late)),
    )
