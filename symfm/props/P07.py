"""P07: every mode returned by an eigensolve satisfies Maxwell's equations in the plane-wave basis."""
from .maxwell import *  # noqa: F403

FN = ("fmm.eigensolve_isotropic_media", "fmm.eigensolve_anisotropic_media", "fmm.eigensolve_general_anisotropic_media", "fmm._numerical_eigensolve", "fmm_matrices.omega_script_k_matrix_patterned",
      "fmm_matrices.k_matrix_patterned", "fields.field_conversion_matrix", "fields.fields_from_wave_amplitudes")


def geo(i):
    return 2 * jnp.pi * i["w"], i["k"], LV(2 * jnp.pi * i["u"], 2 * jnp.pi * i["v"])


def gsp(wb, kb, lb, sym):
    g = {"w": Pos(*wb) if "w" in sym else K(onp.full(wb, 0.75)), "k": R(*kb, 2) if "k" in sym else K(onp.broadcast_to(onp.array([0.25, -0.5]), kb + (2,)).copy())}
    g["u"] = R(*lb, 2) if "u" in sym else K(onp.broadcast_to(onp.array([2.0, 0.5]), lb + (2,)).copy())
    g["v"] = R(*lb, 2) if "v" in sym else K(onp.broadcast_to(onp.array([0.0, 1.5]), lb + (2,)).copy())
    return g


def same(L, i, ex, batch):
    """Shapes and the recorded geometry."""
    n = ex.num_terms
    if L.eigenvalues.shape != batch + (2 * n,) or L.eigenvectors.shape != batch + (2 * n, 2 * n) or L.batch_shape != batch:
        raise StaticFail(f"eigenvalue shape {L.eigenvalues.shape}, expected {batch + (2 * n,)}")


def align(i, L):
    nb = len(L.batch_shape)
    up = lambda x, t: x.reshape((1,) * (nb + t - x.ndim) + x.shape)  # noqa: E731
    return {**i, "w": up(i["w"], 0), "k": up(i["k"], 1), "u": up(i["u"], 1), "v": up(i["v"], 1)}


def assume_ok(i):
    a = [jnp.abs(cross(i["u"], i["v"])) > 0.05]
    return a + [jnp.abs(i[k]) > 0 for k in ("eps", "ezz", "mzz") if k in i]


def uniform_iso(en, ex, wb=(), kb=(), lb=(), pb=(), sym=("w", "k", "u", "v"), real=False):
    def body(i):
        L = fmm.eigensolve_isotropic_media(*geo(i), i["eps"], ex, FFT)
        batch = onp.broadcast_shapes(wb, kb, lb, pb)
        same(L, i, ex, batch)
        e = scal(i["eps"], ex.num_terms)
        g = maxwell(align(i, L), ex, L, ((e, 0 * e), (0 * e, e)), e)
        j = align(i, L)
        k2 = jnp.sum(orders(j, ex, j["k"]) ** 2, axis=-1)
        g.append(eq("dispersion", L.eigenvalues**2, jnp.broadcast_to(jnp.concatenate([i["eps"][..., 0] / j["w"][..., None] ** 2 - k2] * 2, axis=-1), L.eigenvalues.shape)))
        return g
    return Case("P07", f"uniform_iso_{en}_{wb}_{kb}_{lb}_{pb}", {**gsp(wb, kb, lb, sym), "eps": C(*pb, 1, 1)}, body, assume=assume_ok, budget_s=60.0,
                bounds=f"{en}; batches: wavelength {wb}, wavevector {kb}, lattice {lb}, permittivity {pb}; all complex permittivities and {', '.join(sym)}", functions=(FN[0],) + FN[6:])


T = ("exx", "exy", "eyx", "eyy", "ezz")
M = ("mxx", "mxy", "myx", "myy", "mzz")


def tens(i, names, n):
    xx, xy, yx, yy, zz = (scal(i[k], n) for k in names)
    return ((xx, xy), (yx, yy)), zz


def uniform_aniso(en, ex, general, psym, sym=("w", "k"), wb=(), kb=(), lb=(), pb=(), which=(0, 1)):
    n = ex.num_terms

    def body(i):
        e = tuple(i[k] for k in T)
        if general:
            L = fmm.eigensolve_general_anisotropic_media(*geo(i), *e, *(i[k] for k in M), ex, FFT, i["ezz"])
        else:
            L = fmm.eigensolve_anisotropic_media(*geo(i), *e, ex, FFT)
        same(L, i, ex, onp.broadcast_shapes(wb, kb, lb, pb))
        eps, ez = tens(i, T, n)
        mu, mz = tens(i, M, n) if general else (None, None)
        return maxwell(align(i, L), ex, L, eps, ez, mu, mz, which=which)
    val = {"exx": 2.0 + 0.5j, "exy": 0.5j, "eyx": 0.25, "eyy": 3.0 - 0.25j, "ezz": 1.5 + 0.5j, "mxx": 1.25, "mxy": 0.25j, "myx": -0.5, "myy": 0.75 + 0.25j, "mzz": 1.5}
    inp = gsp(wb, kb, lb, sym)
    for k in T + (M if general else ()):
        inp[k] = C(*pb, 1, 1) if k in psym else K(onp.full(pb + (1, 1), val[k]))
    return Case("P07", f"uniform_{'general' if general else 'aniso'}_{en}_{'-'.join(psym)}_{'-'.join(sym)}_{wb}_{kb}_{lb}_{pb}", inp, body, assume=assume_ok, budget_s=60.0,
                bounds=f"{en}; batches: wavelength {wb}, wavevector {kb}, lattice {lb}, permittivity {pb}; symbolic: {', '.join(psym)}, {', '.join(sym)}; any eigendecomposition", functions=FN[1:])


def patterned_iso(en, ex, shape, sym=(), wb=(), kb=(), lb=(), pb=(), cols=None, which=(0, 1), full=True):
    def body(i):
        L = fmm.eigensolve_isotropic_media(*geo(i), i["p"], ex, FFT)
        same(L, i, ex, onp.broadcast_shapes(wb, kb, lb, pb))
        e = conv(i["p"], ex)
        g = maxwell(align(i, L), ex, L, ((e, 0 * e), (0 * e, e)), e, uniform=False, cols=cols, which=which)
        return g + [eq("inverse z", L.inverse_z_permittivity_matrix, conv(1 / i["p"], ex)), eq("z", L.z_permittivity_matrix, e)]
    s = pb + shape
    rng = onp.random.default_rng(5)
    spec = C(*s) if full is True else K(onp.array(2.0 + rng.integers(0, 8, size=s) / 4.0 + 0.25j * rng.integers(0, 3, size=s))) if not full else None
    inp = {**gsp(wb, kb, lb, sym), "p": spec}
    return Case("P07", f"patterned_iso_{en}_{shape}_{'-'.join(sym)}_{wb}_{kb}_{lb}_{pb}_{cols}{'' if full else '_fixed'}", inp, body, assume=lambda i: [jnp.abs(i["p"]) > 0], budget_s=60.0, validate=ex.num_terms > 1,
                bounds=f"{en}, grid {shape}; batches: wavelength {wb}, wavevector {kb}, lattice {lb}, permittivity {pb}; {'all complex permittivity arrays' if full else 'one permittivity array'}, {', '.join(sym)}; any eigendecomposition", functions=FN[:1] + FN[3:])


def patterned_general(en, ex, shape, general, psym, sym=(), wb=(), kb=(), lb=(), pb=(), cols=None, which=(0,)):
    def body(i):
        e = tuple(i[k] for k in T)
        if general:
            L = fmm.eigensolve_general_anisotropic_media(*geo(i), *e, *(i[k] for k in M), ex, FFT, i["ezz"])
        else:
            L = fmm.eigensolve_anisotropic_media(*geo(i), *e, ex, FFT)
        same(L, i, ex, onp.broadcast_shapes(wb, kb, lb, pb))
        c = [conv(i[k], ex) for k in T]
        mu = mz = None
        g = [eq("inverse z permittivity", L.inverse_z_permittivity_matrix, conv(1 / i["ezz"], ex)), eq("z permittivity", L.z_permittivity_matrix, c[4])]
        if general:
            m = [conv(i[k], ex) for k in M]
            mu, mz = ((m[0], m[1]), (m[2], m[3])), m[4]
            g += [eq("inverse z permeability", L.inverse_z_permeability_matrix, conv(1 / i["mzz"], ex)), eq("z permeability", L.z_permeability_matrix, m[4])]
        return g + maxwell(align(i, L), ex, L, ((c[0], c[1]), (c[2], c[3])), c[4], mu, mz, uniform=False, cols=cols, which=which)
    inp = gsp(wb, kb, lb, sym)
    rng = onp.random.default_rng(9)
    for t, k in enumerate(T + (M if general else ())):
        diag = 2.0 if k[1] == k[2] else 0.0
        inp[k] = C(*pb, *shape) if k in psym else K(onp.array(diag + rng.integers(0, 4, size=pb + shape) / 4.0 + 0.25j * rng.integers(0, 2, size=pb + shape)))
    return Case("P07", f"patterned_{'general' if general else 'aniso'}_{en}_{shape}_{'-'.join(psym)}_{'-'.join(sym)}_{wb}_{kb}_{lb}_{pb}_{cols}", inp, body, assume=lambda i: [jnp.abs(i[k]) > 0 for k in ("ezz", "mzz") if k in i], budget_s=60.0,
                bounds=f"{en}, grid {shape}; batches: wavelength {wb}, wavevector {kb}, lattice {lb}, permittivity {pb}; symbolic: {', '.join(psym)} {', '.join(sym)}; any eigendecomposition", functions=FN[1:])


def cases(tier):
    c = [uniform_iso("E1", E1), uniform_iso("EA", EA), uniform_iso("E3", E3, (2,), (), (), (), ("w", "k")), uniform_iso("E1", E1, (), (2,), (), ()), uniform_iso("E2", E2, (), (), (2,), ()), uniform_iso("E1", E1, (2, 1), (2, 3), (), ()), uniform_iso("E1", E1, (), (), (), (2,)), uniform_iso("E1", E1, (2, 1, 1), (1, 3, 1), (2,), (), ("w", "k"))]
    c += [uniform_aniso("E1", E1, False, T), uniform_aniso("E2", E2, False, ("exy", "eyx"), ("k",)), uniform_aniso("E1", E1, False, ("exx",), ("w",), (2,), (2, 1), (), ()), uniform_aniso("E1", E1, False, (), (), (), (), (2,), ()), uniform_aniso("E1", E1, False, ("ezz",), (), (), (), (), (2,)),
          uniform_aniso("E1", E1, True, M), uniform_aniso("E1", E1, True, T + M, ("k",), which=(0,)), uniform_aniso("E2", E2, True, ("mxy", "mzz"), (), which=(0,)), uniform_aniso("E1", E1, True, (), (), (2,), (), (2, 1), ())]
    c += [patterned_iso("E1", E1, (2, 2), ("w", "k")), patterned_iso("E2", E2, (3, 1)), patterned_iso("E3", E3, (5, 1), (), cols=(0,), full=False), patterned_iso("E2", E2, (3, 1), (), (2,), (2, 1), (), (), None, (0,), False), patterned_iso("E2", E2, (3, 1), (), (), (), (2,), (), (1,), (0,), False), patterned_iso("E2", E2, (3, 1), (), (), (), (), (2,), (1,), (0,))]
    c += [patterned_general("E1", E1, (2, 1), False, T, ("k",)), patterned_general("E1", E1, (2, 1), True, T + M), patterned_general("E2", E2, (3, 1), False, ("exy", "eyx"), (), cols=(0,)), patterned_general("E2", E2, (3, 1), False, ("exx", "eyy"), (), cols=(1,)), patterned_general("E2", E2, (3, 1), True, ("mxy",), (), cols=(0,)),
          patterned_general("E2", E2, (3, 1), True, (), (), (2,), (2, 1), (), (), (0,)), patterned_general("E1", E1, (2, 1), True, (), (), (), (), (2,), ())]
    if tier == "thorough":
        c += [uniform_iso("E5", E5, (), (), (2,), (2, 1)), patterned_iso("E3", E3, (5, 1)), patterned_iso("E2", E2, (3, 2), ("w", "k")), patterned_general("E2", E2, (3, 1), True, T, (), cols=(0,)), patterned_general("E2", E2, (3, 1), True, M, (), cols=(0,))]
    return by_tier(tier, c)
