"""P22: gradients through the eigendecomposition are those of first-order perturbation theory."""
from .common import *  # noqa: F403

FN = ("utils.eig", "utils._eig_fwd", "utils._eig_bwd")


def lor(w, eps_rel):
    """Lorentzian-broadened 1 / (w_i - w_j) documented for the rule (zero on the diagonal)."""
    d = w[..., None, :] - w[..., :, None]
    a2 = jnp.abs(d) ** 2
    eps = jnp.maximum(eps_rel * jnp.amax(a2, axis=(-2, -1), keepdims=True), 1e-24)
    f = jnp.conj(d) / (a2 + eps)
    n = w.shape[-1]
    return jnp.where(jnp.eye(n, dtype=bool), 0.0, f)


def values(n, batch=()):
    """d w_k = (V^-1 dA V)_kk: no broadening, every matrix, every direction."""
    def body(i):
        (w, v), pull = jax.vjp(utils.eig, i["A"])
        (ct,) = pull((i["gw"] + 0j, jnp.zeros_like(v)))
        # ct_ij = sum_k gw_k (V^-1)_ki V_jk, multiplied by V: sum_i ct_ij V_ik = gw_k V_jk
        lhs = jnp.einsum("...ij,...ik->...jk", ct, v)
        rhs = v * i["gw"][..., None, :]
        return [eq("eigenvalue gradient", lhs, rhs)]
    return Case("P22", f"eigenvalues_{n}_{batch}", {"A": C(*batch, n, n), "gw": C(*batch, n)}, body, validate=False,
                bounds=f"all {n}x{n} matrices, batch {batch}; eigenvector matrix invertible", functions=FN)


def trace_(n):
    """Sum of eigenvalues has gradient identity."""
    def body(i):
        (w, v), pull = jax.vjp(utils.eig, i["A"])
        (ct,) = pull((jnp.ones_like(w), jnp.zeros_like(v)))
        return [eq("grad tr A = I", ct, jnp.eye(n))]
    return Case("P22", f"trace_{n}", {"A": C(n, n)}, body, bounds=f"all {n}x{n} matrices", functions=FN)


def vectors(n, batch=(), eps=None):
    """Norm-preserving first-order perturbation of the eigenvectors, tested against every direction."""
    def body(i):
        (w, v), pull = jax.vjp(lambda a: utils.eig(a) if eps is None else utils.eig(a, eps), i["A"])
        (ct,) = pull((i["gw"] + 0j, i["gv"] + 0j))
        # every direction dA is V X V^-1 for some X
        X = i["X"]
        dw = jnp.diagonal(X, axis1=-2, axis2=-1)
        f = lor(w, 1e-12 if eps is None else eps)
        u = v @ (f * X)
        dv = u - v * jnp.real(jnp.sum(jnp.conj(v) * u, axis=-2, keepdims=True))
        lhs = jnp.real(jnp.sum(i["gw"] * dw, axis=-1) + jnp.sum(i["gv"] * dv, axis=(-2, -1)))
        vi = jnp.linalg.inv(v)
        dA = v @ X @ vi
        rhs = jnp.real(jnp.sum(ct * dA, axis=(-2, -1)))
        return [eq("adjoint of first-order perturbation", rhs, lhs)]
    return Case("P22", f"eigenvectors_{n}_{batch}" + ("" if eps is None else f"_eps{eps}"), {"A": C(*batch, n, n), "gw": C(*batch, n), "gv": C(*batch, n, n), "X": C(*batch, n, n)}, body,
                validate=False, samples=4, bounds=f"all {n}x{n} matrices with distinct eigenvalues, batch {batch}, all cotangents and directions", functions=FN,
                reduce_to=("gv",), tol=1e-5)


def broaden():
    """A degenerate pair yields a finite gradient (broadening), here for every scale and cotangent."""
    def body(i):
        A = i["s"] * jnp.eye(2) + 0j
        (w, v), pull = jax.vjp(utils.eig, A)
        (ct,) = pull((i["gw"] + 0j, i["gv"] + 0j))
        return [true("finite", jnp.isfinite(ct))]
    return Case("P22", "degenerate_finite", {"s": Pos(), "gw": C(2), "gv": C(2, 2)}, body, bounds="all multiples of the 2x2 identity", functions=FN)


def cases(tier):
    c = [values(1), values(2), values(2, (2,)), values(3), trace_(2), trace_(3), values(3, (2,)), vectors(1), vectors(2), vectors(2, (2,)), broaden(),
         *[vectors(2, b, e) for b in ((), (2,), (2, 1)) for e in (0.25, 1.0)]]
    return by_tier(tier, c)
