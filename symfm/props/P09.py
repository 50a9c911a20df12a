"""P09: forward modes decay (or propagate) forward: the branch of every eigenvalue."""
from .maxwell import *  # noqa: F403
from .P07 import T, gsp, geo

FN = ("fmm._select_eigenvalues_sign", "fmm.eigensolve_isotropic_media", "fmm.eigensolve_anisotropic_media", "fmm.eigensolve_general_anisotropic_media", "fmm._numerical_eigensolve")


def branch(q):
    q = q.reshape(-1)
    g = []
    for t in range(q.shape[0]):
        re, im = jnp.real(q[t]), jnp.imag(q[t])
        g += [ge(f"does not grow {t}", im, 0.0), true(f"lossless modes run forward {t}", (im > 0) | (re >= 0))]
    return g


def uniform_iso(en, ex, batch, kind):
    """kind: any complex medium, passive media, or lossless dielectrics and metals."""
    def body(i):
        eps = i["e"] if kind == "any" else (i["e"] + 1j * i["l"] if kind == "passive" else i["e"] + 0j)
        j = {**i, "eps": eps}
        L = fmm.eigensolve_isotropic_media(*geo(i), eps, ex, FFT)
        q = L.eigenvalues
        g = branch(q)
        n = ex.num_terms
        d2 = eps[..., 0] / i["w"][..., None] ** 2 - jnp.sum(orders(i, ex, i["k"]) ** 2, axis=-1)
        d2 = jnp.concatenate([d2, d2], axis=-1).reshape(-1)
        q = q.reshape(-1)
        for t in range(d2.shape[0]):
            re, im, z = jnp.real(q[t]), jnp.imag(q[t]), jnp.real(d2[t])
            if kind == "passive":
                g += [ge(f"forward phase {t}", re, 0.0), true(f"strictly damped {t}", (i["l"].reshape(-1)[t // (2 * n) if batch else 0] <= 0) | (im > 0))]
            if kind == "lossless":
                g += [true(f"propagating is real and forward {t}", (z <= 0) | ((im == 0) & (re > 0))), true(f"evanescent is imaginary and decays {t}", (z >= 0) | ((re == 0) & (im > 0)))]
        return g
    inp = {**gsp((), (), (), ("w", "k") if kind != "any" or ex.num_terms == 1 else ("k",)), "e": C(*batch, 1, 1) if kind == "any" else R(*batch, 1, 1)}
    if kind == "passive":
        inp["l"] = Pos(*batch, 1, 1)
    return Case("P09", f"uniform_iso_{en}_{batch}_{kind}", inp, body, budget_s=40.0,
                bounds=f"{en}, permittivity batch {batch}, {kind} media; all wavelengths and wavevectors, a fixed oblique lattice", functions=FN[:2])


def by_eig(kind, en, ex, shape):
    """For any eigendecomposition, the selected square roots are on the forward branch."""
    def body(i):
        if kind == "iso":
            L = fmm.eigensolve_isotropic_media(*geo(i), i["p"], ex, FFT)
        elif kind == "aniso":
            L = fmm.eigensolve_anisotropic_media(*geo(i), *(i[k] for k in T), ex, FFT)
        else:
            L = fmm.eigensolve_general_anisotropic_media(*geo(i), *(i[k] for k in T), *(i[k] for k in ("exx", "exy", "eyx", "eyy", "ezz")), ex, FFT)
        full = {"exx": i["p"], "eyy": i["p"], "exy": 0 * i["p"], "eyx": 0 * i["p"]} if kind == "iso" else i
        c = {k: conv(full[k], ex) for k in T[:4]}
        e = jnp.block([[c["eyy"], -c["eyx"]], [-c["exy"], c["exx"]]])
        m = e @ L.omega_script_k_matrix - fmm_matrices.k_matrix_patterned(L.z_permeability_matrix, orders(i, ex, i["k"])) @ L.transverse_permeability_matrix
        return branch(L.eigenvalues) + [eq("the square is the modal eigenvalue", m @ L.eigenvectors, L.eigenvectors * L.eigenvalues**2)]
    inp = gsp((), (), (), ())
    rng = onp.random.default_rng(3)
    for k in ("p",) if kind == "iso" else T:
        z = 2.0 if k[1:2] == k[2:3] else 0.25
        inp[k] = K(onp.array(z + rng.integers(0, 4, size=shape) / 4.0 + 0.25j * rng.integers(-1, 2, size=shape)))
    return Case("P09", f"eig_{kind}_{en}_{shape}", inp, body, validate=ex.num_terms > 1, bounds=f"{kind}, {en}, grid {shape}; any eigenvalues", functions=FN)


def cases(tier):
    c = [uniform_iso("E1", E1, (), "any"), uniform_iso("E1", E1, (2,), "any"), uniform_iso("E3", E3, (), "any"), uniform_iso("E1", E1, (), "passive"), uniform_iso("E1", E1, (2,), "passive"), uniform_iso("E2", E2, (), "passive"),
         uniform_iso("E1", E1, (), "lossless"), uniform_iso("E3", E3, (), "lossless"), uniform_iso("EA", EA, (), "lossless"), by_eig("iso", "E1", E1, (2, 2)), by_eig("iso", "E2", E2, (3, 1)), by_eig("aniso", "E1", E1, (1, 1)), by_eig("aniso", "E1", E1, (2, 1)), by_eig("aniso", "E2", E2, (3, 1)), by_eig("general", "E1", E1, (1, 1)), by_eig("general", "E2", E2, (3, 1))]
    c += [uniform_iso("E9", E9, (), "lossless"), uniform_iso("E5", E5, (2,), "lossless"), by_eig("iso", "E3", E3, (5, 2))]
    if tier == "thorough":
        c += [uniform_iso("E9", E9, (), "any"), uniform_iso("E5", E5, (2,), "any"), uniform_iso("E5", E5, (2,), "passive"), by_eig("aniso", "E3", E3, (4, 3)), by_eig("general", "E3", E3, (4, 2)), by_eig("iso", "E5", E5, (4, 4))]
    return by_tier(tier, c)
