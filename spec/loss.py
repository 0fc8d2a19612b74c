"""Reference predictions of the population losses, one target epoch at a time."""

import jax.numpy as jnp
from jax import value_and_grad, vmap
from diffstar.diffstarpop.mc_diffstarpop_mgash import mc_diffstar_sfh_galpop

from .model import mass_formed
from .pop import ndhist

N_TIMES = 20


def galaxies(params, halo, tobs, lgt0, fb):
    """(log mass, log specific rate floored at 1e-12/yr, weight) at tobs: unquenched galaxies, then quenched"""
    mah, logmp0, upid, mu, mhost, gyr, key = halo
    t = 10 ** jnp.linspace(-1, jnp.log10(tobs), N_TIMES)
    mc = mc_diffstar_sfh_galpop(params, mah, logmp0, upid, mu, mhost, gyr, key, t, lgt0=lgt0, fb=fb)
    x, s = [], []
    for sfh in (mc.sfh_ms, mc.sfh_q):
        mass = jnp.log10(vmap(lambda y: mass_formed(t, y)[-1])(sfh))
        x.append(mass)
        s.append(jnp.maximum(jnp.log10(sfh[:, -1]) - mass, -12.0))
    w = [1 - mc.frac_q, mc.frac_q]
    return jnp.concatenate(x), jnp.concatenate(s), jnp.concatenate(w)


def width(bins):
    return jnp.mean(jnp.diff(bins))


def mstar_pdf(params, halo, tobs, lgt0, fb, bins):
    x, s, w = galaxies(params, halo, tobs, lgt0, fb)
    sig = jnp.zeros((x.shape[0], 1)) + width(bins)
    h = ndhist(x[:, None], sig, w, bins[:-1, None], bins[1:, None])
    return h / jnp.sum(h)


def mstar_ssfr_pdf(params, halo, tobs, lgt0, fb, lo, hi, mbins, sbins):
    x, s, w = galaxies(params, halo, tobs, lgt0, fb)
    z = jnp.zeros(x.shape[0])
    h = ndhist(jnp.stack((x, s), axis=1), jnp.stack((z + width(mbins), z + width(sbins)), axis=1), w, lo, hi)
    return h / jnp.sum(h)


def prediction(params, data):
    """mean over halo masses of the epochs' PDFs, and the distribution of specific rate at the target masses"""
    halo, tobs, lgt0, fb = data[:7], data[7], data[8], data[9]
    lo, hi, mbins, sbins, nmh, indx, ids = data[10:17]
    pdf = vmap(lambda h, t: mstar_ssfr_pdf(params, h, t, lgt0, fb, lo, hi, mbins, sbins))(halo, tobs)
    pdf = pdf.reshape((pdf.shape[0], len(mbins) - 1, len(sbins) - 1))
    mean = jnp.sum(pdf[indx] * nmh[:, :, None, None], axis=1)[:, ids]
    return mean / jnp.sum(mean, axis=2, keepdims=True)


def mstar_prediction(params, data):
    halo, tobs, lgt0, fb, bins = data[:7], data[7], data[8], data[9], data[10]
    return vmap(lambda h, t: mstar_pdf(params, h, t, lgt0, fb, bins))(halo, tobs)


def mse(pred, target):
    return jnp.mean((pred - target) ** 2)


def value_and_gradient(loss, make, flat, data):
    """value of loss at the parameters made from flat, and its derivative with respect to each entry of flat"""
    val, g = value_and_grad(lambda x: loss(make(x), *data))(flat)
    return val, g
