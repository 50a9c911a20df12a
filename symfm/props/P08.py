"""P08: material operators of patterned layers follow the stated factorization rules."""
from .maxwell import *  # noqa: F403
from fmmax.fmm import Formulation

FN = ("fmm.fourier_matrices_patterned_isotropic_media", "fmm.fourier_matrices_patterned_anisotropic_media", "fmm_matrices.transverse_permittivity_fft", "fmm_matrices.transverse_permittivity_vector", "fmm_matrices.transverse_permittivity_fft_anisotropic",
      "fmm_matrices.transverse_permeability_fft_anisotropic", "fmm_matrices.transverse_permittivity_vector_anisotropic", "fmm_matrices.transverse_permeability_vector_anisotropic", "fmm_matrices._tangent_terms", "fmm_matrices._rotation_matrices")
FFT = Formulation.FFT
LAT = LV(onp.array([2.0, 0.5]), onp.array([0.0, 1.5]))
T = ("exx", "exy", "eyx", "eyy", "ezz")
M = ("mxx", "mxy", "myx", "myy", "mzz")


def blocks(a, b, c, d):
    return jnp.concatenate([jnp.concatenate([a, b], -1), jnp.concatenate([c, d], -1)], -2)


def split(m):
    n = m.shape[-1] // 2
    return m[..., :n, :n], m[..., :n, n:], m[..., n:, :n], m[..., n:, n:]


class Field:
    """A custom tangent field that records what it was called with."""

    def __init__(self, tx, ty):
        self.t, self.calls = (tx, ty), []

    def __call__(self, permittivity, expansion, primitive_lattice_vectors):
        self.calls.append((permittivity, expansion, primitive_lattice_vectors))
        return self.t

    def called(self, src, ex, lat):
        if len(self.calls) != 1:
            raise StaticFail(f"tangent field function called {len(self.calls)} times")
        p, e, l = self.calls[0]
        if e is not ex and not onp.array_equal(e.basis_coefficients, ex.basis_coefficients):
            raise StaticFail("tangent field function got another expansion")
        return [eq("vector field source", jnp.broadcast_to(p, src.shape), src), eq("lattice u", l.u, lat.u), eq("lattice v", l.v, lat.v)]


def tin(shape, kind):
    """Specification of the tangent field inputs."""
    if kind == "complex":
        return {"tx": C(*shape), "ty": C(*shape)}
    if kind == "real":
        return {"tx": R(*shape), "ty": R(*shape)}
    if kind == "realx":
        return {"tx": R(*shape), "ty": K(onp.arange(1.0, 1.0 + onp.prod(shape)).reshape(shape) / 4.0)}
    rng = onp.random.default_rng(5)
    z = lambda: rng.integers(1, 5, size=shape) / 4.0 + 1j * rng.integers(-3, 4, size=shape) / 4.0  # noqa: E731
    t = {"tx": z(), "ty": z()}
    if kind == "holes":  # exactly zero at one pixel
        for a in t.values():
            a[..., 0, 0] = 0
    return {k: K(a) for k, a in t.items()}


def isotropic(en, ex, shape, kind, psym=True, tier="quick"):
    """kind: FFT, or the tangent field (complex, real, fixed, holes)."""
    def body(i):
        p = i["p"]
        f = FFT if kind == "FFT" else Field(i["tx"], i["ty"])
        iz, z, e, t = fmm.fourier_matrices_patterned_isotropic_media(LAT, p, ex, f)
        ce, cz = conv(p, ex), conv(1 / p, ex)
        g = [eq("z permittivity", z, ce), eq("inverse z permittivity", iz, cz)]
        if kind == "FFT":
            if t is not None:
                raise StaticFail("tangent field for the FFT formulation")
            return g + [eq("Laurent's rule", e, blocks(ce, 0 * ce, 0 * ce, ce))]
        g += f.called(p, ex, LAT) + [eq("tangent field x", t[0], i["tx"]), eq("tangent field y", t[1], i["ty"])]
        tx, ty = i["tx"], i["ty"]
        d = jnp.real(tx * jnp.conj(tx) + ty * jnp.conj(ty))
        if kind == "holes":
            d = jnp.where(d == 0, 1.0, d)
        c = lambda x: conv(x, ex)  # noqa: E731
        pm = blocks(c(tx * jnp.conj(tx) / d), c(jnp.conj(tx) * ty / d), c(tx * jnp.conj(ty) / d), c(ty * jnp.conj(ty) / d))
        # (eps - E) = delta P with delta = conv(eps) - conv(1/eps)^-1, cleared of the inverse.
        lhs, full = blocks(ce, 0 * ce, 0 * ce, ce) - e, blocks(cz, 0 * cz, 0 * cz, cz)
        one = jnp.eye(2 * ex.num_terms)
        return g + [eq("tangential Laurent, normal inverse rule", full @ lhs, (full @ blocks(ce, 0 * ce, 0 * ce, ce) - one) @ pm)]
    inp = {"p": C(*shape) if psym else K(onp.array(2.0 + onp.random.default_rng(2).integers(0, 8, size=shape) / 4.0 + 0.25j))}
    if kind != "FFT":
        inp.update(tin(shape, kind))
    return Case("P08", f"isotropic_{en}_{shape}_{kind}_{psym}", inp, body, budget_s=60.0, tier=tier,
                assume=lambda i: [jnp.abs(i["p"]) > 0] + ([jnp.abs(i["tx"]) ** 2 + jnp.abs(i["ty"]) ** 2 > 0.01] if kind in ("complex", "real", "realx") else []),
                bounds=f"{en}, grid {shape}; {'all permittivities' if psym else 'a fixed permittivity'}, tangent field {kind}", functions=FN)


def anisotropic(en, ex, shape, kind, sym, batch=(), tier="quick"):
    def body(i):
        eps, mu = tuple(i[k] for k in T), tuple(i[k] for k in M)
        f = FFT if kind == "FFT" else Field(i["tx"], i["ty"])
        src = i["src"]
        iz, z, e, im, zm, m, t = fmm.fourier_matrices_patterned_anisotropic_media(LAT, eps, mu, ex, f, src)
        c = lambda x: conv(x, ex)  # noqa: E731
        g = [eq("z permittivity", z, c(i["ezz"])), eq("inverse z permittivity", iz, c(1 / i["ezz"])), eq("z permeability", zm, c(i["mzz"])), eq("inverse z permeability", im, c(1 / i["mzz"]))]
        exx, exy, eyx, eyy = (i[k] for k in T[:4])
        mxx, mxy, myx, myy = (i[k] for k in M[:4])
        if kind == "FFT":
            if t is not None:
                raise StaticFail("tangent field for the FFT formulation")
            return g + [eq("permittivity: (-Dy, Dx) from (-Ey, Ex)", e, blocks(c(eyy), -c(eyx), -c(exy), c(exx))), eq("permeability: (Bx, By) from (Hx, Hy)", m, blocks(c(mxx), c(mxy), c(myx), c(myy)))]
        g += f.called(src, ex, LAT) + [eq("tangent field x", t[0], i["tx"]), eq("tangent field y", t[1], i["ty"])]
        tx, ty = i["tx"], i["ty"]
        cj = jnp.conj
        d = jnp.real(tx * cj(tx) + ty * cj(ty))
        # Unit tangent (tx, ty) and normal (-ty*, tx*): components of a field F are F_t = t*.F / d, F_n = (-ty Fx + tx Fy) / d.
        # The tensor between (t, n) components; both media use the same physical frame up to the sign of the normal.
        for nm, (xx, xy, yx, yy), got, rot in (("permittivity", (exx, exy, eyx, eyy), e, True), ("permeability", (mxx, mxy, myx, myy), m, False)):
            s = -1 if rot else 1
            tv, nv = (tx, ty), (-s * cj(ty), s * cj(tx))  # frame vectors (x, y)
            ap = lambda v: (xx * v[0] + xy * v[1], yx * v[0] + yy * v[1])  # noqa: E731
            tc = lambda v: (cj(tx) * v[0] + cj(ty) * v[1]) / d  # noqa: E731
            nc = lambda v: s * (-ty * v[0] + tx * v[1]) / d  # noqa: E731
            tt, tn, nt, nn = tc(ap(tv)), tc(ap(nv)), nc(ap(tv)), nc(ap(nv))
            inner = blocks(c(tt), c(tn), c(nt), jnp.linalg.inv(c(1 / nn)))
            if rot:  # in the basis (-y, x): with field = Et t + En n up to an overall sign
                to = blocks(c(ty), c(nv[1]), c(-tx), c(-nv[0]))
                back = blocks(c(cj(ty) / d), c(-cj(tx) / d), c(s * tx / d), c(s * ty / d))
            else:
                to = blocks(c(tx), c(nv[0]), c(ty), c(nv[1]))
                back = blocks(c(cj(tx) / d), c(cj(ty) / d), c(-s * ty / d), c(s * tx / d))
            g.append(eq(nm, got, to @ inner @ back))
        return g
    rng = onp.random.default_rng(7)
    full = batch + shape
    inp = {}
    for k in T + M:
        v = (1.5 + rng.integers(0, 5, size=full) / 4.0 if k[1] == k[2] else rng.integers(-2, 3, size=full) / 8.0) + 1j * rng.integers(0, 3, size=full) / 4.0
        inp[k] = C(*full) if k in sym else K(onp.asarray(v))
    inp["src"] = R(*full)
    if kind != "FFT":
        inp.update(tin(full if kind == "fixed" else shape, kind))
    nzk = [k for k in sym if k in ("ezz", "mzz")]
    return Case("P08", f"anisotropic_{en}_{shape}_{kind}_{'-'.join(sym)}_{batch}", inp, body, budget_s=60.0, tier=tier,
                assume=lambda i: [jnp.abs(i[k]) > 0 for k in nzk] + ([jnp.abs(i["tx"]) ** 2 + jnp.abs(i["ty"]) ** 2 > 0.01] if kind in ("complex", "real", "realx") else []),
                bounds=f"{en}, grid {shape}, batch {batch}; tensor elements {', '.join(sym) or 'fixed'} symbolic, tangent field {kind}", functions=FN)


def gauge(en, ex, shape, aniso, tier="quick"):
    """The length and phase of the tangent field do not matter."""
    def body(i):
        p = i["p"]
        c = i["c"]
        fs = [Field(i["tx"], i["ty"]), Field(c * i["tx"], c * i["ty"])]
        if aniso:
            o, z = jnp.ones_like(p), jnp.zeros_like(p)
            r = [fmm.fourier_matrices_patterned_anisotropic_media(LAT, (p, i["q"], i["q"], 2 * p, p), (o, z, z, p, o), ex, f, p) for f in fs]
            return [eq("permittivity", r[0][2], r[1][2]), eq("permeability", r[0][5], r[1][5])]
        r = [fmm.fourier_matrices_patterned_isotropic_media(LAT, p, ex, f) for f in fs]
        return [eq("permittivity", r[0][2], r[1][2])]
    rng = onp.random.default_rng(2)
    inp = {"p": K(onp.array(2.0 + rng.integers(0, 8, size=shape) / 4.0 + 0.25j)), "q": K(rng.integers(-2, 3, size=shape) / 4.0), "c": C(), **tin(shape, "fixed" if aniso else "complex")}
    return Case("P08", f"gauge_{en}_{shape}_{aniso}", inp, body, budget_s=60.0, tier=tier,
                assume=lambda i: [jnp.abs(i["c"]) > 0.5] + ([] if aniso else [jnp.abs(i["tx"]) ** 2 + jnp.abs(i["ty"]) ** 2 > 0.01]), bounds=f"{en}, grid {shape}; all complex scale factors{'' if aniso else ' and tangent fields'}", functions=FN)


def schemes(en, ex, shape, aniso):
    """Every named formulation uses the vector field scheme of its name (schemes replaced by recorders)."""
    def body(i):
        p = i["p"]
        g = []
        saved = dict(vector.VECTOR_FIELD_SCHEMES)
        names = sorted(saved)
        if sorted(f.value for f in Formulation if f is not FFT) != names:
            raise StaticFail("formulations and schemes do not match")
        fakes = {nm: Field(i["tx"] * (1 + t), i["ty"]) for t, nm in enumerate(names)}
        try:
            vector.VECTOR_FIELD_SCHEMES.update(fakes)
            for f in Formulation:
                if f is FFT:
                    continue
                if aniso:
                    o, z = jnp.ones_like(p), jnp.zeros_like(p)
                    t = fmm.fourier_matrices_patterned_anisotropic_media(LAT, (p, z, z, p, p), (o, z, z, o, o), ex, f, i["s"])[-1]
                else:
                    t = fmm.fourier_matrices_patterned_isotropic_media(LAT, p, ex, f)[-1]
                k = names.index(f.name.lower())
                g += fakes[names[k]].called(i["s"] if aniso else p, ex, LAT) + [eq(f"{f.name} tx", t[0], i["tx"] * (1 + k)), eq(f"{f.name} ty", t[1], i["ty"])]
        finally:
            vector.VECTOR_FIELD_SCHEMES.update(saved)
        return g
    return Case("P08", f"schemes_{en}_{shape}_{aniso}", {"p": K(onp.array([[1.0, 3.0], [4.0, 1.0], [2.0, 5.0]])), "s": R(*shape), "tx": R(*shape), "ty": R(*shape)}, body,
                assume=lambda i: [i["tx"] > 0.1], bounds="one fixed pattern, all tangent fields and source arrays; every formulation", functions=FN)


def source(en, ex, shape, route, batch=()):
    """The tangent field of a layer is that of the documented source array, and its operators are the layer's."""
    def body(i):
        f = Field(i["tx"], i["ty"])
        args = (i["w"], i["k"], LAT)
        if route == "iso":
            src = i["exx"]
            L = fmm.eigensolve_isotropic_media(*args, src, ex, f)
        else:
            eps, mu = [i[k] for k in T], [i[k] for k in M]
            if route == "aniso":
                src = (i["exx"] + i["eyy"]) / 2
                L = fmm.eigensolve_anisotropic_media(*args, *eps, ex, f)
            else:
                src = i["src"] if route == "given" else (i["exx"] + i["eyy"]) / 2
                L = fmm.eigensolve_general_anisotropic_media(*args, *eps, *mu, ex, f, **({"vector_field_source": src} if route == "given" else {}))
        g = f.called(src, ex, LV(*(a.reshape((1,) * len(batch) + (2,)) for a in (LAT.u, LAT.v))))
        if L.tangent_vector_field is None:
            raise StaticFail("no tangent field recorded")
        g += [eq("recorded x", L.tangent_vector_field[0], i["tx"]), eq("recorded y", L.tangent_vector_field[1], i["ty"])]
        c = lambda x: conv(x, ex)  # noqa: E731
        z = "exx" if route == "iso" else "ezz"
        g += [eq("z permittivity", L.z_permittivity_matrix, c(i[z])), eq("inverse z permittivity", L.inverse_z_permittivity_matrix, c(1 / i[z]))]
        if route in ("given", "general"):
            g += [eq("z permeability", L.z_permeability_matrix, c(i["mzz"])), eq("inverse z permeability", L.inverse_z_permeability_matrix, c(1 / i["mzz"]))]
        return g
    rng = onp.random.default_rng(7)
    full = batch + shape
    inp = {"w": K(onp.full(batch, 1.25)), "k": K(onp.broadcast_to(onp.array([0.25, -0.5]), batch + (2,)).copy()), **tin(full, "fixed")}
    for k in T + M:
        v = (1.5 + rng.integers(0, 5, size=full) / 4.0 if k[1] == k[2] else rng.integers(-2, 3, size=full) / 8.0)
        inp[k] = C(*full) if k in ("ezz", "mzz") else K(onp.asarray(v))
    inp["src"] = R(*full)
    return Case("P08", f"source_{route}_{en}_{shape}_{batch}", inp, body, validate=False, budget_s=40.0, assume=lambda i: [jnp.abs(i["ezz"]) > 0, jnp.abs(i["mzz"]) > 0],
                bounds=f"{en}, grid {shape}, batch {batch}; all z tensor elements and source arrays", functions=FN + ("fmm.eigensolve_isotropic_media", "fmm.eigensolve_anisotropic_media", "fmm.eigensolve_general_anisotropic_media"))


def cases(tier):
    c = [isotropic("E2", E2, (3, 1), "FFT"), isotropic("EA", EA, (8, 10), "FFT"), isotropic("E5", E5, (5, 6), "FFT"),
         isotropic("E1", E1, (2, 2), "complex"), isotropic("E2", E2, (3, 1), "complex"), isotropic("E2", E2, (3, 2), "real", False), isotropic("E2", E2, (4, 1), "fixed"), isotropic("E3", E3, (5, 1), "complex", False), isotropic("E2", E2, (3, 2), "holes"), isotropic("E5", E5, (5, 5), "fixed", False),
         anisotropic("E2", E2, (3, 2), "FFT", T + M), anisotropic("E5", E5, (5, 5), "FFT", T + M), anisotropic("E2", E2, (3, 1), "FFT", T + M, (2,)),
         anisotropic("E1", E1, (2, 1), "complex", ()), anisotropic("E2", E2, (3, 1), "fixed", ("exy",)), anisotropic("E2", E2, (3, 1), "fixed", ("eyx",)), anisotropic("E2", E2, (3, 1), "fixed", ("exx",)), anisotropic("E2", E2, (3, 1), "fixed", ("eyy", "ezz")),
         anisotropic("E2", E2, (3, 1), "fixed", ("mxy",)), anisotropic("E2", E2, (3, 1), "fixed", ("myx",)), anisotropic("E2", E2, (3, 1), "fixed", ("mxx",)), anisotropic("E2", E2, (3, 1), "fixed", ("myy", "mzz")),
         anisotropic("E2", E2, (3, 1), "realx", ()), anisotropic("E3", E3, (5, 1), "fixed", ()), anisotropic("E2", E2, (3, 2), "fixed", ("exy",), (2,)),
         gauge("E2", E2, (3, 1), False), gauge("E2", E2, (3, 1), True)]
    c += [source("E2", E2, (3, 1), r) for r in ("iso", "aniso", "general", "given")] + [source("E2", E2, (3, 2), "given", (2,)), schemes("E3", E3, (3, 2), False), schemes("E3", E3, (3, 2), True)]
    if tier == "thorough":
        c += [anisotropic("E2", E2, (3, 1), "real", ()), anisotropic("E3", E3, (5, 1), "fixed", ("exy", "myx")), anisotropic("E2", E2, (3, 1), "complex", ()), anisotropic("E5", E5, (5, 5), "fixed", ("exy",)), isotropic("E3", E3, (5, 1), "complex")]
    return by_tier(tier, c)
