"""Helpers to build layer solve results from symbolic parts (public dataclass of fmmax)."""
from .common import *  # noqa: F403
from symfm.harness import Spec  # noqa: F401


def rnum(seed, *shape, cplx=True, scale=4):
    """A reproducible small-rational constant array."""
    rng = onp.random.default_rng(seed)
    a = rng.integers(-scale, scale + 1, size=shape) / 2.0
    if cplx:
        a = a + 1j * rng.integers(-scale, scale + 1, size=shape) / 2.0
    return a


def dom(seed, n, batch=(), cplx=True):
    """A reproducible diagonally dominant (hence invertible) rational matrix."""
    rng = onp.random.default_rng(seed)
    a = rng.integers(-1, 2, size=batch + (n, n)) / 4.0
    if cplx:
        a = a + 1j * rng.integers(-1, 2, size=batch + (n, n)) / 4.0
    return a + onp.eye(n) * (2 + rng.integers(0, 3, size=batch + (n,))[..., None, :] / 2)


PARTS = ("q", "phi", "ez", "iez", "mz", "imz", "mt")


def lspec(tag, n, batch=(), sym=(), seed=0, mu=False):
    """Input specs for one layer; parts named in `sym` are symbolic, others fixed rationals."""
    sh = {"q": batch + (2 * n,), "phi": batch + (2 * n, 2 * n), "ez": batch + (n, n), "iez": batch + (n, n),
          "mz": batch + (n, n), "imz": batch + (n, n), "mt": batch + (2 * n, 2 * n)}
    out = {}
    s = seed * 100 + sum(ord(c) for c in tag)
    for k, p in enumerate(PARTS):
        if p in sym:
            out[f"{tag}_{p}"] = C(*sh[p])
        elif p == "q":
            out[f"{tag}_{p}"] = K(onp.array(onp.abs(rnum(s + k, *sh[p], cplx=False)) + 1.0 + 0.25j))
        elif p == "phi":
            out[f"{tag}_{p}"] = K(dom(s + k, 2 * n, batch))
        elif p in ("ez", "iez"):
            out[f"{tag}_{p}"] = K(dom(s + k, n, batch))
        elif p in ("mz", "imz"):
            out[f"{tag}_{p}"] = K(dom(s + k, n, batch) if mu else onp.broadcast_to(onp.eye(n), sh[p]).copy())
        else:
            out[f"{tag}_{p}"] = K(dom(s + k, 2 * n, batch) if mu else onp.broadcast_to(onp.eye(2 * n), sh[p]).copy())
    return out


def gspec(batch=(), sym=(), lam=None):
    """Wavelength, in-plane wavevector and lattice; the wavelength is 2*pi*w so that omega = 1/w."""
    b = (1,) * len(batch) if lam is None else batch
    out = {"w": Pos(*b) if "w" in sym else K(onp.full(b, 0.75))}
    out["k"] = R(*b, 2) if "k" in sym else K(onp.broadcast_to(onp.array([0.25, -0.5]), b + (2,)).copy())
    out["u"] = R(*b, 2) if "u" in sym else K(onp.broadcast_to(onp.array([2.0, 0.5]), b + (2,)).copy())
    out["v"] = R(*b, 2) if "v" in sym else K(onp.broadcast_to(onp.array([0.0, 1.5]), b + (2,)).copy())
    return out


def build(i, tag, ex, tangent=None):
    """Wavevectors are scaled by pi so that everything stays rational: see omega = 1 / w."""
    g = {p: i[f"{tag}_{p}"] for p in PARTS}
    return fmm.LayerSolveResult(
        wavelength=2 * jnp.pi * i["w"],
        in_plane_wavevector=i["k"],
        primitive_lattice_vectors=LV(2 * jnp.pi * i["u"], 2 * jnp.pi * i["v"]),
        expansion=ex,
        eigenvalues=g["q"] + 0j,
        eigenvectors=g["phi"] + 0j,
        z_permittivity_matrix=g["ez"] + 0j,
        inverse_z_permittivity_matrix=g["iez"] + 0j,
        z_permeability_matrix=g["mz"] + 0j,
        inverse_z_permeability_matrix=g["imz"] + 0j,
        transverse_permeability_matrix=g["mt"] + 0j,
        tangent_vector_field=tangent,
    )


def nz(*xs):
    return [jnp.abs(x) > 0 for x in xs]


def tangential(f):
    (ex, ey, _), (hx, hy, _) = f
    return jnp.concatenate([ex, ey, hx, hy], axis=-2)


def fields_at(a, b, z, lsr, d):
    return fields.fields_from_wave_amplitudes(*fields.colocate_amplitudes(a, b, z, lsr, d), lsr)


def apply(s, a0, bn):
    return s.s11 @ a0 + s.s12 @ bn, s.s21 @ a0 + s.s22 @ bn


def blocks(s):
    return jnp.stack([s.s11, s.s12, s.s21, s.s22])


FFT = fmm.Formulation.FFT
SQ = (onp.array([1.0, 0.0]), onp.array([0.0, 1.0]))


def uniform(i, w, k, eps, ex=E1, u=None, v=None, formulation=FFT):
    """Uniform isotropic layer from the real eigensolve: wavelength 2 pi w, lattice 2 pi (u, v)."""
    u = jnp.asarray(SQ[0]) if u is None else u
    v = jnp.asarray(SQ[1]) if v is None else v
    return fmm.eigensolve_isotropic_media(2 * jnp.pi * w, k, LV(2 * jnp.pi * u, 2 * jnp.pi * v), eps, ex, formulation)


def dspec(n, sym):
    """Layer thicknesses: all symbolic ("d"), the named ones (others zero), or fixed."""
    if "d" in sym:
        return R(n, lo=0.1, hi=1.0)
    if "dz" in sym:
        return K(onp.zeros(n))
    mask = onp.array([f"d{k}" in sym for k in range(n)])
    if not mask.any():
        return K(onp.full(n, 0.5))
    return R(n, lo=0.1, hi=1.0, mask=mask, value=onp.zeros(n))
