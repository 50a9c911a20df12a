"""P13: energy conservation and reciprocity of modes, interfaces and stacks."""
from .maxwell import *  # noqa: F403
from .P07 import M, T, geo, gsp
from .P10 import tfield

FN = ("fmm.eigensolve_isotropic_media", "fmm.eigensolve_general_anisotropic_media", "fields.fields_from_wave_amplitudes", "scattering.stack_s_matrix", "fields.amplitude_poynting_flux", "fields.directional_poynting_flux")


def zform(e, h):
    """z component of sum over orders of e x h for all pairs of columns."""
    t = lambda a, b: jnp.swapaxes(a, -1, -2) @ b  # noqa: E731
    return t(e[0], h[1]) - t(e[1], h[0])


def conj(f):
    return tuple(jnp.conj(x) for x in f)


def material(i, shape, kind, general):
    """Lossless (Hermitian) or reciprocal (symmetric) tensors from the independent inputs."""
    e, m = [i[k] + 0j for k in T], [i[k] + 0j for k in M]
    for t in (e, m):
        if kind == "lossless":
            for j in (0, 3, 4):
                t[j] = jnp.real(t[j]) + 0j
            t[2] = jnp.conj(t[1])
        else:
            t[2] = t[1]
    return e, (m if general else None)


def solve(i, k, ex, shape, mat):
    a = (2 * jnp.pi * i["w"], k, LV(2 * jnp.pi * i["u"], 2 * jnp.pi * i["v"]))
    if isinstance(mat, tuple) and mat[1] is not None:
        return fmm.eigensolve_general_anisotropic_media(*a, *mat[0], *mat[1], ex, FFT)
    if isinstance(mat, tuple):
        return fmm.eigensolve_anisotropic_media(*a, *mat[0], ex, FFT)
    return fmm.eigensolve_isotropic_media(*a, mat, ex, i["form"] if "form" in i else FFT)


def minput(shape, general, psym, kind):
    rng = onp.random.default_rng(11)
    inp = {}
    for k in T + (M if general else ()):
        diag = k[1] == k[2]
        real = kind == "lossless" and diag
        if k in psym:
            inp[k] = R(*shape) if real else C(*shape)
        else:
            v = (1.5 if diag else 0.0) + rng.integers(0, 4, size=shape) / 4.0
            inp[k] = K(v if real else v + 0.25j * rng.integers(-1, 2, size=shape))
    if not general:
        inp.update({k: K(onp.full(shape, 1.0 if k[1] == k[2] else 0.0)) for k in M})
    return inp


def orthogonal(en, ex, shape, route, psym, sym=(), pairs=None, custom=False):
    """Lossless layer: z flux between different modes vanishes unless their wavenumbers are conjugate."""
    def body(i):
        if route == "iso":
            mat = i["p"] + 0j
            L = fmm.eigensolve_isotropic_media(*geo(i), mat, ex, tfield(0.6, 0.8) if custom else FFT)
        else:
            L = solve(i, i["k"], ex, shape, material(i, shape, "lossless", route == "general"))
        (e, h), _ = modes(L)
        s = zform(e, conj(h))
        lam = L.eigenvalues**2
        d = (lam[..., :, None] - jnp.conj(lam)[..., None, :]) * s
        if pairs is not None:
            d = jnp.stack([d[p] for p in pairs])
        return [eq("modes exchange no power", d, 0 * d)]
    inp = gsp((), (), (), sym)
    rng = onp.random.default_rng(3)
    if route == "iso":
        inp["p"] = R(*shape) if psym else K(2.0 + rng.integers(0, 8, size=shape) / 4.0)
    else:
        inp.update(minput(shape, route == "general", psym, "lossless"))
    return Case("P13", f"orthogonal_{en}_{shape}_{route}_{psym if route == 'iso' else '-'.join(psym)}_{'-'.join(sym)}{'_custom' if custom else ''}", inp, body, validate=ex.num_terms > 1 or route != "iso", budget_s=60.0,
                assume=lambda i: [jnp.abs(i[k]) > 0 for k in ("p", "ezz", "mzz") if k in i], bounds=f"{en}, grid {shape}, lossless {route} media; symbolic: {psym}, {', '.join(sym)}; any eigendecomposition", functions=FN[:3])


def reciprocal(en, ex, shape, route, psym, sym=("k",), pairs=None):
    """Reciprocal layer: modes at k and at -k are biorthogonal without conjugation (order m pairs with -m)."""
    ex2 = E(*(-onp.asarray(ex.basis_coefficients)).tolist())

    def body(i):
        if route == "iso":
            mat = i["p"] + 0j
        else:
            mat = material(i, shape, "reciprocal", route == "general")
        L, N = solve(i, i["k"], ex, shape, mat), solve(i, -i["k"], ex2, shape, mat)
        (e, h), _ = modes(L)
        (f, g), _ = modes(N)
        d1 = (L.eigenvalues[..., :, None] ** 2 - N.eigenvalues[..., None, :] ** 2) * zform(e, g)
        if pairs is not None:
            d1 = jnp.stack([d1[p] for p in pairs])
        return [eq("modes at k and -k do not couple", d1, 0 * d1)]
    inp = gsp((), (), (), sym)
    rng = onp.random.default_rng(3)
    if route == "iso":
        inp["p"] = C(*shape) if psym else K(2.0 + rng.integers(0, 8, size=shape) / 4.0 + 0.25j * rng.integers(0, 3, size=shape))
    else:
        inp.update(minput(shape, route == "general", psym, "reciprocal"))
    return Case("P13", f"reciprocal_{en}_{shape}_{route}_{psym if route == 'iso' else '-'.join(psym)}_{'-'.join(sym)}", inp, body, validate=ex.num_terms > 1 or route != "iso", budget_s=60.0,
                assume=lambda i: [jnp.abs(i[k]) > 0 for k in ("p", "ezz", "mzz") if k in i], bounds=f"{en}, grid {shape}, reciprocal {route} media; symbolic: {psym}, {', '.join(sym)}; any eigendecomposition", functions=FN[:3])


def stack(i, k, kinds, ex=E1):
    """Uniform layers given by their z wavenumber: propagating (p), evanescent (e), or complex (c)."""
    w = 1 / i["w"]
    kt2 = jnp.sum(k**2)
    out = []
    for n, t in enumerate(kinds):
        q = i[f"q{n}"]
        eps = (kt2 + (q**2 if t in "pc" else -(q**2))) / w**2
        out.append(uniform(i, i["w"], k, eps[None, None] + 0j))
    return out


def qspec(kinds, sym):
    vals = [1.25, 0.75, 1.5, 0.5]
    out = {}
    for n, t in enumerate(kinds):
        if n in sym:
            out[f"q{n}"] = C() if t == "c" else Pos()
        else:
            out[f"q{n}"] = K(onp.array(vals[n] + (0.25j if t == "c" else 0.0)))
    return out


def ends(s, layers, a, b):
    t, r = apply(s, a, b)
    return (a, r, layers[0]), (t, b, layers[-1])


def inputs(kinds, sym, ksym, d):
    """Symbolic: z wavenumbers `sym`, in-plane wavevector components `ksym`, thicknesses if d is None."""
    inp = {**qspec(kinds, sym), "w": K(onp.array(0.75))}
    for n, v in (("kx", 0.5), ("ky", 0.25 if d == 0.0 else 0.0)):  # oblique incidence; TE and TM decouple for ky = 0
        inp[n] = R() if n[1] in ksym else K(onp.array(v))
    if len(kinds) > 2:
        inp["d"] = R(len(kinds) - 2, lo=0.1, hi=1.0) if d is None else K(onp.full(len(kinds) - 2, d))
    return inp


def thick(i, kinds):
    return [jnp.asarray(0.0)] + [i["d"][n] for n in range(len(kinds) - 2)] + [jnp.asarray(0.0)]


def all_amplitudes():
    """Unit amplitudes from both sides: fluxes and reciprocity are (sesqui)linear forms in these columns."""
    e = onp.eye(4) + 0j
    return jnp.asarray(e[:2]), jnp.asarray(e[2:])


def describe(kinds, sym, ksym, d):
    return f"one order, z wavenumbers {sym} symbolic, in-plane wavevector {ksym or 'fixed'} symbolic, {'all thicknesses' if d is None else f'thickness {d}'}, all incident amplitudes (by linearity)"


def energy(kinds, sym, ksym="xy", d=None):
    """Power entering a lossless stack leaves it, for all incident amplitudes."""
    def body(i):
        k = jnp.stack([i["kx"], i["ky"]])
        layers = stack(i, k, kinds)
        s = scattering.stack_s_matrix(layers, thick(i, kinds))
        a, b = all_amplitudes()
        if kinds[-1] == "e":
            a, b = a[:, :2], b[:, :2]
        lo, hi = ends(s, layers, a, b)
        f = []
        for e in (lo, hi):
            x, y = fields.fields_from_wave_amplitudes(*e)
            f.append(zform(x, conj(y)) + jnp.conj(jnp.swapaxes(zform(x, conj(y)), -1, -2)))
        g = [eq("power in = power out", f[0], f[1])]
        if kinds[-1] == "e":
            g.append(eq("total reflection", f[0], 0.0 * f[0]))
        fl = [sum(jnp.sum(x, axis=-2) for x in fields.amplitude_poynting_flux(*e)) for e in (lo, hi)]
        g.append(eq("flux in = flux out", fl[0], fl[1]))
        if kinds[0] == "p" and kinds[-1] == "p":
            (di, do), (ei, eo) = [tuple(jnp.sum(x, axis=-2) for x in fields.directional_poynting_flux(*e)) for e in (lo, hi)]
            g.append(eq("incident = outgoing power", di - eo, ei - do))
        return g
    return Case("P13", f"energy_{kinds}_{''.join(map(str, sym))}_{ksym}_{d}", inputs(kinds, sym, ksym, d), body, budget_s=60.0, assume=lambda i: [i["kx"] ** 2 + i["ky"] ** 2 > 0.01],
                bounds=f"lossless layers {kinds} (p propagating, e evanescent); " + describe(kinds, sym, ksym, d), functions=FN)


def lorentz(kinds, sym, ksym="xy", d=None):
    """Lorentz reciprocity of a stack of any uniform media: form(1, 2) is the same at both ends."""
    def body(i):
        k = jnp.stack([i["kx"], i["ky"]])
        res = []
        for kk in (k, -k):
            layers = stack(i, kk, kinds)
            s = scattering.stack_s_matrix(layers, thick(i, kinds))
            res.append([fields.fields_from_wave_amplitudes(*e) for e in ends(s, layers, *all_amplitudes())])
        f = [zform(x[0], y[1]) - jnp.swapaxes(zform(y[0], x[1]), -1, -2) for x, y in zip(*res)]
        return [eq("reciprocity", f[0], f[1])]
    return Case("P13", f"lorentz_{kinds}_{''.join(map(str, sym))}_{ksym}_{d}", inputs(kinds, sym, ksym, d), body, budget_s=60.0,
                assume=lambda i: [i["kx"] ** 2 + i["ky"] ** 2 > 0.01] + [jnp.abs(i[f"q{n}"]) > 0.05 for n in range(len(kinds))], bounds=f"layers {kinds} (c any complex); " + describe(kinds, sym, ksym, d), functions=FN)


def passive():
    """Waves entering an absorbing medium carry energy into it, for both polarisations."""
    def body(i):
        k = jnp.stack([i["kx"], i["ky"]])
        q = i["x"] + 1j * i["y"]
        eps = (jnp.sum(k**2) + q**2) * i["w"] ** 2
        L = uniform(i, i["w"], k, eps[None, None])
        g = []
        for nm, v in (("s", jnp.stack([i["kx"], i["ky"]])), ("p", jnp.stack([-i["ky"], i["kx"]]))):
            a = jnp.linalg.solve(L.eigenvectors, (v + 0j)[:, None])
            f, b = fields.amplitude_poynting_flux(a, 0 * a, L)
            g.append(ge(f"{nm} wave carries energy forward", jnp.sum(f) + jnp.sum(b)))
        return g
    return Case("P13", "passive", {"x": Pos(), "y": Pos(), "w": K(onp.array(0.75)), "kx": R(), "ky": R()}, body, validate=False,
                assume=lambda i: [i["kx"] ** 2 + i["ky"] ** 2 > 0.01], bounds="one order, all absorbing uniform media and in-plane wavevectors", functions=FN)


def cases(tier):
    c = [orthogonal("E1", E1, (2, 2), "iso", True, ("w", "k")), orthogonal("E2", E2, (3, 1), "iso", True), orthogonal("E2", E2, (3, 1), "iso", False, ("w", "k")), orthogonal("E3", E3, (5, 1), "iso", False, (), [(0, 1), (2, 5)]), orthogonal("E2", E2, (3, 1), "iso", False, ("w",), [(0, 1), (2, 3)], True),
         orthogonal("E2", E2, (3, 1), "aniso", ("exy",), (), [(0, 1), (0, 3)]), orthogonal("E2", E2, (3, 1), "general", ("mxy",), (), [(0, 1), (0, 3)]), orthogonal("E1", E1, (1, 1), "general", ("exx", "exy", "mzz", "mxy")),
         reciprocal("E1", E1, (2, 2), "iso", True, ("w", "k")), reciprocal("E2", E2, (3, 1), "iso", True, ()), reciprocal("E2", E2, (3, 1), "iso", False, ("w", "k")), reciprocal("E3", E3, (5, 1), "iso", False, (), [(0, 1), (2, 5)]),
         reciprocal("E2", E2, (3, 1), "aniso", ("exy",), (), [(0, 1), (0, 3)]), reciprocal("E2", E2, (3, 1), "general", ("mxy",), (), [(0, 1), (0, 3)]), reciprocal("E1", E1, (1, 1), "general", ("exx", "exy", "mzz", "mxy")),
         energy("pp", (0, 1), "x"), energy("pp", (), "xy"), energy("pe", (0, 1)), energy("ppp", (1,), "", None), energy("ppp", (0, 2), "", None), energy("pep", (1,), "", None), energy("pep", (0, 2), "", None), energy("ppe", (2,), "", None), energy("ppe", (1,), "", None), energy("ppp", (), "x", None), energy("pepp", (), "", None),
         lorentz("cc", (0, 1), "x"), lorentz("cc", (), "xy"), lorentz("ccc", (1,), "", None), lorentz("ccc", (), "x", None), lorentz("cpec", (), "", None), passive()]
    if tier == "thorough":
        c += [energy("pp", (0, 1)), energy("ppp", (0, 1), "", None), energy("ppp", (), "xy", 0.0), energy("ppp", (0, 1, 2), "", 0.0), energy("pppp", (1,), "", None), lorentz("cc", (0, 1)), lorentz("ccc", (0, 2), "", None), lorentz("ccc", (), "xy", 0.0), lorentz("ccc", (0, 1, 2), "", 0.0)]
    return by_tier(tier, c)
