"""P10: the specialised eigensolves agree with the general ones wherever both apply."""
from .maxwell import *  # noqa: F403
from .P07 import M, T, align, geo, gsp

FN = ("fmm.eigensolve_isotropic_media", "fmm.eigensolve_anisotropic_media", "fmm.eigensolve_general_anisotropic_media", "fmm._eigensolve_uniform_isotropic_media", "fmm._eigensolve_uniform_general_anisotropic_media",
      "fmm.fourier_matrices_patterned_isotropic_media", "fmm.fourier_matrices_patterned_anisotropic_media")
ZP = ("z_permittivity_matrix", "inverse_z_permittivity_matrix", "z_permeability_matrix", "inverse_z_permeability_matrix", "transverse_permeability_matrix", "omega_script_k_matrix")


def vec(pv, tr):
    """A custom tangent field for the vector formulation: constant along (3, 4) / 5."""
    def f(permittivity, expansion, primitive_lattice_vectors):
        o = jnp.ones(permittivity.shape, dtype=complex)
        return 0.6 * o, 0.8 * o
    return f


def tfield(x, y):
    def f(permittivity, expansion, primitive_lattice_vectors):
        o = jnp.ones(permittivity.shape, dtype=complex)
        return x * o, y * o
    return f


def same_material(a, b):
    return [eq(nm, getattr(a, nm), getattr(b, nm)) for nm in ZP]


def up(i, shape):
    return jnp.broadcast_to(i, i.shape[:-2] + shape)


def routes(en, ex, shape, batch, route, form, sym=("k",), sv=True):
    """Isotropic medium (uniform or patterned) through three entry points."""
    n = ex.num_terms

    def body(i):
        p = i["p"]
        o, z = jnp.ones_like(p), jnp.zeros_like(p)
        args = geo(i)
        f = form
        A = fmm.eigensolve_isotropic_media(*args, p, ex, f)
        if route == "aniso":
            B = fmm.eigensolve_anisotropic_media(*args, p, z, z, p, p, ex, f)
        else:
            B = fmm.eigensolve_general_anisotropic_media(*args, p, z, z, p, p, o, z, z, o, o, ex, f, p)
        if A.batch_shape != B.batch_shape or A.eigenvalues.shape != B.eigenvalues.shape:
            raise StaticFail("batch shapes")
        e = conv(p, ex) if p.shape[-2:] != (1, 1) else scal(p, n)
        g = same_material(A, B)
        if f is FFT:
            g += maxwell(align(i, B), ex, B, ((e, 0 * e), (0 * e, e)), e, uniform=p.shape[-2:] == (1, 1), which=(0,))
        if p.shape[-2:] == (1, 1):
            q0, qb, v = A.eigenvalues, B.eigenvalues, B.eigenvectors
            g.append(eq("eigenvalues are the analytic ones", v * qb[..., None, :] ** 2, v * q0[..., :, None] ** 2))
        return g
    s = batch + shape
    rng = onp.random.default_rng(2)
    spec = C(*s) if sv else K(onp.array(2.0 + rng.integers(0, 8, size=s) / 4.0))
    return Case("P10", f"{route}_{en}_{shape}_{batch}_{'FFT' if form is FFT else 'custom'}_{'-'.join(sym)}{'' if sv else '_fixed'}", {**gsp((), (), (), sym), "p": spec}, body, assume=lambda i: [jnp.abs(i["p"]) > 0], validate=False, budget_s=60.0,
                bounds=f"isotropic medium through the {route} eigensolve, {en}, grid {shape}, batch {batch}; symbolic: {'all permittivities' if sv else ''} {', '.join(sym)}; any eigendecomposition", functions=FN)


def constant(en, ex, shape, kind, form, fname, sv=True, sym=()):
    """A pattern that happens to be constant is the uniform layer."""
    n = ex.num_terms

    def body(i):
        args = geo(i)
        src = i["src"] if "src" in i else None
        if kind == "iso":
            e = {k: i["e"] for k in ("exx", "eyy", "ezz")}
            e.update({k: 0 * i["e"] for k in ("exy", "eyx")})
            A = fmm.eigensolve_isotropic_media(*args, i["e"], ex, FFT)
            B = fmm.eigensolve_isotropic_media(*args, up(i["e"], shape), ex, form)
        else:
            e = {k: i[k] for k in T + (M if kind == "general" else ())}
            if kind == "aniso":
                A = fmm.eigensolve_anisotropic_media(*args, *(i[k] for k in T), ex, FFT)
                B = fmm.eigensolve_anisotropic_media(*args, *(up(i[k], shape) for k in T), ex, form)
            else:
                A = fmm.eigensolve_general_anisotropic_media(*args, *(i[k] for k in T + M), ex, FFT)
                B = fmm.eigensolve_general_anisotropic_media(*args, *(up(i[k], shape) for k in T + M), ex, form, src)
        eps = ((scal(e["exx"], n), scal(e["exy"], n)), (scal(e["eyx"], n), scal(e["eyy"], n)))
        mu = mz = None
        if kind == "general":
            mu, mz = ((scal(e["mxx"], n), scal(e["mxy"], n)), (scal(e["myx"], n), scal(e["myy"], n))), scal(e["mzz"], n)
        if A.batch_shape != B.batch_shape:
            raise StaticFail("batch shapes")
        return same_material(A, B) + maxwell(align(i, B), ex, B, eps, scal(e["ezz"], n), mu, mz, uniform=True, which=(0,))
    val = {"e": 2.0 + 0.5j, "exx": 2.0 + 0.5j, "exy": 0.5j, "eyx": 0.25, "eyy": 3.0 - 0.25j, "ezz": 1.5 + 0.5j, "mxx": 1.25, "mxy": 0.25j, "myx": -0.5, "myy": 0.75 + 0.25j, "mzz": 1.5}
    inp = gsp((), (), (), sym)
    for k in ("e",) if kind == "iso" else T + (M if kind == "general" else ()):
        inp[k] = C(1, 1) if sv is True or (sv and k in sv) else K(onp.full((1, 1), val[k]))
    if kind == "general":
        inp["src"] = R(*shape)
    return Case("P10", f"constant_{kind}_{en}_{shape}_{fname}_{sv if sv in (True, False) else '-'.join(sv)}_{'-'.join(sym)}", inp, body, assume=lambda i: [jnp.abs(i[k]) > 0 for k in ("e", "exx", "eyy", "ezz", "mzz") if k in i], validate=False, budget_s=60.0,
                bounds=f"{kind}, {en}, constant arrays on grid {shape}, formulation {fname}; all tensor values (or {sv}); any eigendecomposition", functions=FN)


def cases(tier):
    V = tfield(0.6, 0.8)
    c = [routes("E1", E1, (1, 1), (), r, FFT, ("w", "k", "u", "v")) for r in ("aniso", "general")] + [routes("E2", E2, (1, 1), (2,), "aniso", FFT), routes("E3", E3, (1, 1), (), "general", FFT)]
    c += [routes("E2", E2, (3, 1), (), r, FFT) for r in ("aniso", "general")] + [routes("E2", E2, (3, 2), (2,), "aniso", FFT, (), False), routes("E2", E2, (3, 1), (), "aniso", V, (), True), routes("E2", E2, (3, 1), (), "general", V, (), True)]
    c += [constant("E1", E1, (2, 2), "iso", FFT, "FFT", True, ("w", "k")), constant("E2", E2, (3, 1), "iso", FFT, "FFT"), constant("E2", E2, (3, 2), "iso", V, "custom"), constant("E3", E3, (5, 1), "iso", FFT, "FFT", True), constant("E1", E1, (2, 1), "aniso", FFT, "FFT"), constant("E2", E2, (3, 1), "aniso", FFT, "FFT", ("exy", "eyx")),
          constant("E2", E2, (3, 1), "aniso", V, "custom", ("exx", "ezz")), constant("E1", E1, (2, 1), "general", FFT, "FFT"), constant("E2", E2, (3, 1), "general", FFT, "FFT", ("mxy", "mzz")), constant("E2", E2, (3, 1), "general", V, "custom", ("exy",)), constant("E2", E2, (3, 1), "general", V, "custom", ("myx",))]
    if tier == "thorough":
        c += [routes("E5", E5, (1, 1), (), "general", FFT), constant("E3", E3, (5, 1), "general", FFT, "FFT", False), constant("E3", E3, (5, 3), "iso", V, "custom", False)]
    return by_tier(tier, c)
