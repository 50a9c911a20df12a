"""Shared fixtures for the property harnesses (public API of fmmax only)."""

import itertools

import jax
import jax.numpy as jnp
import numpy as onp

from symfm.harness import C, Case, K, Pos, R, StaticFail, eq, ge, true  # noqa: F401

from fmmax import (  # noqa: F401
    basis,
    beams,
    farfield,
    fft,
    fields,
    fmm,
    fmm_matrices,
    pml,
    scattering,
    sources,
    utils,
    vector,
)


def E(*pairs):
    return basis.Expansion(onp.array(pairs, dtype=int).reshape((-1, 2)))


E1 = E((0, 0))
E2 = E((0, 0), (1, 0))
E3 = E((0, 0), (1, 0), (-1, 0))
E3Y = E((0, 0), (0, 1), (0, -1))
E5 = E((0, 0), (1, 0), (-1, 0), (0, 1), (0, -1))
EA = E((0, 0), (1, 2), (-1, 0), (2, -1))  # deliberately irregular
E9 = E(*[(0, 0)] + [p for p in itertools.product((-1, 0, 1), repeat=2) if p != (0, 0)])


def LV(u, v):
    return basis.LatticeVectors(u=u, v=v)


def dot(a, b):
    return jnp.sum(a * b, axis=-1)


def cross(a, b):
    return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]


def expect_raises(label, fn, exc=(ValueError,)):
    """A goal: calling fn raises one of `exc`."""
    try:
        fn()
    except exc:
        return true(label, jnp.asarray(True))
    except Exception as e:  # noqa: BLE001
        if "Tracer" in type(e).__name__ or "Concretization" in type(e).__name__:
            raise
        return true(label, jnp.asarray(True))
    return true(label, jnp.asarray(False))


def by_tier(tier, cases):
    return [c for c in cases if tier == "thorough" or c.tier == "quick"]


ONE = K(1)


def phase(i, frac):
    """exp(2 pi j frac) as a traced expression (kept exact by the encoder); needs input `one`."""
    return jnp.exp(2j * jnp.pi * jnp.asarray(frac) * i["one"])


def dft_coeff(i, x, ex, axes):
    """Reference Fourier coefficients of x over `axes` (explicit sum), on a trailing axis."""
    xm = jnp.moveaxis(x, axes, (-2, -1))
    n, m = xm.shape[-2:]
    out = []
    for a, b in ex.basis_coefficients:
        fr = -(int(a) * onp.arange(n)[:, None] / n + int(b) * onp.arange(m)[None, :] / m)
        out.append(jnp.sum(xm * phase(i, fr), axis=(-2, -1)) / (n * m))
    return jnp.stack(out, axis=-1)


def fourier_series(i, y, ex, shape, axis):
    """Reference Fourier series on the grid (explicit sum); grid axes trail."""
    ym = jnp.moveaxis(y, axis, -1)
    n, m = shape
    tot = 0
    for t, (a, b) in enumerate(ex.basis_coefficients):
        fr = int(a) * onp.arange(n)[:, None] / n + int(b) * onp.arange(m)[None, :] / m
        tot = tot + ym[..., t, None, None] * phase(i, fr)
    return tot
