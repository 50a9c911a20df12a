"""Reference: Maxwell's equations in the truncated plane-wave basis, for the modes of a layer.

With fields exp(i(k.r + q z)): omega mu h = k x e, omega eps e = -k x h.
"""
from .layers import *  # noqa: F403
from .P18 import orders


def conv(x, ex):
    """Reference convolution matrix by an explicit transform (entry (i, j) is coefficient i - j)."""
    c = onp.asarray(ex.basis_coefficients)
    n = len(c)
    nx, ny = x.shape[-2:]
    f = jnp.fft.fft2(x, norm="forward")
    d = c[:, None, :] - c[None, :, :]
    return f[..., d[..., 0] % nx, d[..., 1] % ny].reshape(x.shape[:-2] + (n, n))


def modes(L):
    """Fields (amplitude axis = mode index) of every forward and every backward mode with unit amplitude."""
    m = L.eigenvalues.shape[-1]
    eye = jnp.broadcast_to(jnp.eye(m, dtype=complex), L.batch_shape + (m, m))
    z = jnp.zeros_like(eye)
    return fields.fields_from_wave_amplitudes(eye, z, L), fields.fields_from_wave_amplitudes(z, eye, L)


def curl(f, kx, ky, q):
    x, y, z = f
    return ky * z - q * y, q * x - kx * z, kx * y - ky * x


def mul(m, *v):
    """2x2 block tensor operator applied to (x, y)."""
    (xx, xy), (yx, yy) = m
    x, y = v
    return xx @ x + xy @ y, yx @ x + yy @ y


def ident(i, ex):
    e = jnp.eye(ex.num_terms)
    return ((e, 0 * e), (0 * e, e))


def maxwell(i, ex, L, eps, eps_z, mu=None, mu_z=None, uniform=True, which=(0, 1), cols=None):
    """Goals: every mode satisfies Maxwell's equations with the operators eps = ((xx, xy), (yx, yy)), eps_z, ...

    For patterned layers, the normal fields inside the tangential equations are those
    eliminated with the inverse of eps_z and mu_z.
    """
    n = ex.num_terms
    mu = ident(i, ex) if mu is None else mu
    mu_z = jnp.eye(n) if mu_z is None else mu_z
    w = 1.0 / i["w"][..., None, None]
    kt = orders(i, ex, i["k"])
    kx, ky = kt[..., 0, None], kt[..., 1, None]
    g = []
    for nm, sgn, (e, h) in [("forward", 1, 0), ("backward", -1, 1)][: len(which)] and [(("forward", "backward")[t], (1, -1)[t], modes(L)[t]) for t in which]:
        q = sgn * L.eigenvalues[..., None, :]
        if cols is not None:
            q, e, h = q[..., cols], tuple(x[..., cols] for x in e), tuple(x[..., cols] for x in h)
        if uniform:
            ez, hz = e[2], h[2]
        else:
            ez = -jnp.linalg.solve(eps_z + 0j, (kx * h[1] - ky * h[0]) / w)
            hz = jnp.linalg.solve(mu_z + 0j, (kx * e[1] - ky * e[0]) / w)
        ce, ch = curl((e[0], e[1], ez), kx, ky, q), curl((h[0], h[1], hz), kx, ky, q)
        bx, by = mul(mu, h[0], h[1])
        dx, dy = mul(eps, e[0], e[1])
        g += [eq(f"{nm}: curl E = i w mu H, x", ce[0], w * bx), eq(f"{nm}: curl E = i w mu H, y", ce[1], w * by),
              eq(f"{nm}: curl H = -i w eps E, x", ch[0], -w * dx), eq(f"{nm}: curl H = -i w eps E, y", ch[1], -w * dy)]
        if uniform:
            g += [eq(f"{nm}: curl E, z", ce[2], w * (mu_z @ h[2])), eq(f"{nm}: curl H, z", ch[2], -w * (eps_z @ e[2]))]
    return g


def scal(c, n):
    """Constant tensor element as an operator: c has shape (..., 1, 1)."""
    return c * jnp.eye(n)
