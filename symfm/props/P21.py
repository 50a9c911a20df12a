"""P21: tangent vector fields follow the material boundaries, independent of scale, contrast and labelling."""
import functools

from .common import *  # noqa: F403

FN = ("vector.compute_gradient", "vector.normalize", "vector.normalize_elementwise", "vector.normalize_jones")
FT = ("vector.compute_tangent_field", "vector.field_loss_value_jac_and_hessian", "vector.compute_gradient")
E4 = E((0, 0), (1, 0), (0, 1), (-1, 0), (0, -1))
SCH = vector.VECTOR_FIELD_SCHEMES


def area(u, v):
    return jnp.abs(cross(u, v))


def lat(concrete):
    if concrete is None:
        return {"u": R(2), "v": R(2)}, lambda i: [area(i["u"], i["v"]) > 0.05]
    return {"u": K(onp.array(concrete[0])), "v": K(onp.array(concrete[1]))}, None


def gradient(shape, batch=(), lattice=None):
    """Central periodic differences, expressed in cartesian axes, in units of the square root of the cell area."""
    sp, assume = lat(lattice)

    def body(i):
        x, u, v = i["x"], i["u"], i["v"]
        g = vector.compute_gradient(x, LV(u, v))
        if g.shape != x.shape + (2,):
            raise StaticFail(f"shape {g.shape}")
        n, m = shape
        du = (jnp.roll(x, -1, -2) - jnp.roll(x, 1, -2)) / 2 * n
        dv = (jnp.roll(x, -1, -1) - jnp.roll(x, 1, -1)) / 2 * m
        ra = jnp.sqrt(area(u, v))
        s = i["s"]
        return [eq("derivative along u", dot(g, u), ra * du), eq("derivative along v", dot(g, v), ra * dv),
                eq("independent of the size of the cell", vector.compute_gradient(x, LV(s * u, s * v)), g)]
    return Case("P21", f"gradient_{batch}_{shape}_{lattice is None}", {"x": R(*batch, *shape), "s": Pos(), **sp}, body, assume=assume,
                bounds=f"all arrays of shape {batch + shape}, " + ("all lattices" if lattice is None else f"lattice {lattice}, all scales"), functions=FN[:1])


def norms(shape, kind, name):
    """Normalisation functions: target magnitudes, directions kept, zeros kept finite."""
    def body(i):
        f = i["f"]
        m2 = jnp.sum(jnp.abs(f) ** 2, axis=-1)
        n = vector.normalize(f)
        e = vector.normalize_elementwise(f)
        mx = jnp.max(jnp.sum(jnp.abs(n) ** 2, axis=-1), axis=(-2, -1))
        g = [eq("largest magnitude is one", mx, jnp.ones(())), eq("unit magnitude everywhere", jnp.sum(jnp.abs(e) ** 2, axis=-1), jnp.ones(shape)),
             eq("direction kept", cross(e, f), jnp.zeros(shape)), eq("direction kept by the overall normalisation", cross(n, f), jnp.zeros(shape)),
             eq("magnitude of the direction", e * jnp.sqrt(m2)[..., None], f),
             eq("ratios kept", n[0, 0, 0] * f, f[0, 0, 0] * n)]
        return g
    return Case("P21", f"{name}_{shape}_{kind.__name__}", {"f": kind(*shape, 2)}, body, assume=lambda i: [jnp.sum(jnp.abs(i["f"]) ** 2, axis=-1) > 0.01],
                bounds=f"all fields on a grid {shape} with magnitudes above 0.1", functions=FN[1:3])


def zeros():
    def body(i):
        z = jnp.zeros((1, 2, 2)) * i["s"]
        f = jnp.stack([jnp.zeros((2,)), i["s"] * jnp.asarray([0.6, 0.8])])[None]
        return [eq("normalize: a zero field stays zero", vector.normalize(z), z), eq("normalize_elementwise: a zero field stays zero", vector.normalize_elementwise(z), z),
                eq("mixed", vector.normalize_elementwise(f), jnp.asarray([[[0.0, 0.0], [0.6, 0.8]]])), eq("mixed overall", vector.normalize(f), jnp.asarray([[[0.0, 0.0], [0.6, 0.8]]]))]
    return Case("P21", "zero_fields", {"s": Pos()}, body, assume=lambda i: [i["s"] > 0.01], bounds="zero fields and partially zero fields, all scales", functions=FN[1:3])


def jones(kind, d):
    """Jones fields have unit magnitude; they are linear where the tangent is strongest, circular where it vanishes."""
    d = jnp.asarray(d)

    def body(i):
        s = i["s"]
        if kind == "unit":
            f = jnp.stack([i["m"] * d, jnp.asarray([0.0, 1.0])])[None]
        elif kind == "strong":
            f = s * d[None, None]
        else:
            f = s * jnp.stack([jnp.zeros((2,)), d])[None]
        j = vector.normalize_jones(f)
        if j.shape != f.shape:
            raise StaticFail(f"shape {j.shape}")
        g = [eq("unit magnitude", jnp.sum(jnp.abs(j) ** 2, axis=-1), jnp.ones(f.shape[:-1]))]
        if kind == "strong":
            g += [eq("linear", j[..., 0] * jnp.conj(j[..., 1]) - jnp.conj(j[..., 0]) * j[..., 1], jnp.zeros((1, 1))), eq("parallel", cross(j, f), jnp.zeros((1, 1)))]
        if kind == "weak":
            a, b = j[0, 0, 0], j[0, 0, 1]
            g += [eq("circular", a * a + b * b, jnp.zeros(())), eq("strongest point is linear", cross(j, f)[0, 1], jnp.zeros(()))]
        if kind == "unit":
            g += [eq("major axis along the tangent", jnp.real(jnp.conj(jnp.sum(j[0, 0] * d)) * cross(j[0, 0], d)), jnp.zeros(())),
                  eq("as given by Liu et al.", j[0, 0], (d[0] + 1j * d[1]) / jnp.sqrt(dot(d, d)) * (d * jnp.cos(jnp.pi / 8 * (1 + jnp.cos(jnp.pi * i["m"]))) + 1j * jnp.stack([-d[1], d[0]]) * jnp.sin(jnp.pi / 8 * (1 + jnp.cos(jnp.pi * i["m"])))))]
        return g
    return Case("P21", f"jones_{kind}_{d[0]:.1f}_{d[1]:.1f}", {"s": Pos(), "m": Pos(lo=0.1, hi=0.9)}, body, assume=lambda i: [i["s"] > 0.01, i["m"] > 0.01, i["m"] < 1.0],
                bounds=f"direction {d}, all " + ("magnitudes" if kind == "unit" else "scales"), functions=FN[3:])


def loss(en, ex, shape, wf, ws, lattice):
    """The loss is alignment + Fourier + smoothness as documented; one Newton step from anywhere is stationary."""
    sp, assume = lat(lattice)
    n, m = shape
    N = ex.num_terms

    def call(i, f, s=1.0):
        return vector.field_loss_value_jac_and_hessian(f, ex, LV(s * i["u"], s * i["v"]), i["t"], i["w"], wf, ws)

    def body(i):
        f, d, u, v, t, w = i["f"], i["d"], i["u"], i["v"], i["t"], i["w"]
        val, jac, hes = call(i, f)
        val2, jac2, hes2 = call(i, f + d)
        ff = f.reshape((N, 2))
        r = jnp.stack([fourier_series(i, ff[:, k], ex, shape, -1) for k in range(2)], axis=-1)
        ref = jnp.sum(w[..., 0] * jnp.sum(jnp.abs(r - t) ** 2, axis=-1)) / (n * m)
        a = area(u, v)
        if wf:
            gu = 2 * jnp.pi * jnp.stack([v[1], -v[0]]) / cross(u, v)
            gv = 2 * jnp.pi * jnp.stack([-u[1], u[0]]) / cross(u, v)
            c = jnp.asarray(ex.basis_coefficients)
            k = c[:, :1] * gu + c[:, 1:] * gv
            ref = ref + wf * jnp.sum(jnp.abs(ff) ** 2 * jnp.sum(k**2, axis=-1)[:, None] * a)
        if ws:
            du = (jnp.roll(r, -1, 0) - r) * n
            dv = (jnp.roll(r, -1, 1) - r) * m
            # cartesian gradient g with g.u = du, g.v = dv
            gx = (v[1] * du - u[1] * dv) / cross(u, v)
            gy = (-v[0] * du + u[0] * dv) / cross(u, v)
            ref = ref + ws * a * jnp.sum(jnp.abs(gx) ** 2 + jnp.abs(gy) ** 2) / (4 * n * m)
        g = [eq("loss", val, ref), eq("gradient is affine with the Hessian as its slope", jnp.conj(jac2), jnp.conj(jac) + hes @ d),
             eq("Hessian is constant", hes2, hes), eq("expansion of the loss to second order", val2, val + jnp.real(jnp.sum(jac * d)) + jnp.real(jnp.sum(jnp.conj(d) * (hes @ d))) / 2)]
        sv, sj, sh = call(i, f, i["s"])
        g += [eq("loss is independent of the size of the cell", sv, val), eq("gradient is independent of the size of the cell", sj, jac), eq("Hessian is independent of the size of the cell", sh, hes)]
        return g
    return Case("P21", f"loss_{en}_{shape}_{wf}_{ws}_{lattice is None}", {"f": C(2 * N), "d": C(2 * N), "t": C(n, m, 2), "w": Pos(n, m, 1), "s": Pos(), "one": ONE, **sp}, body, assume=assume,
                reduce_to=("f", "t", "u", "v", "s"), bounds=f"all fields of expansion {en}, targets and weights on {shape}, weights {wf}, {ws}", functions=FT[1:2])


def zero_residual(en, ex, shape, wf, ws):
    """The Hessian is that of the quadratic loss also where residuals vanish exactly."""
    n, m = shape
    N = ex.num_terms

    def body(i):
        lv = LV(i["u"], i["v"])
        call = lambda f, t: vector.field_loss_value_jac_and_hessian(f, ex, lv, t, i["w"], wf, ws)  # noqa: E731
        z = 0.0 * i["d"]
        t0 = 0.0 * i["t"]
        dc = i["d"] * (jnp.arange(2 * N) < 2)
        tdc = i["d"][:2] * jnp.ones((n, m, 2))
        g = []
        for nm, f, t in (("zero field and target", z, t0), ("constant field equal to its target", dc, tdc), ("zero field", z, i["t"]), ("constant field", dc, i["t"])):
            _, j0, h0 = call(f, t)
            _, j1, h1 = call(i["d"], t)
            g += [eq(nm + ": gradient is affine with the Hessian as its slope", jnp.conj(j1), jnp.conj(j0) + h0 @ (i["d"] - f))]
        return g
    return Case("P21", f"zero_residual_{en}_{shape}_{wf}_{ws}", {"d": C(2 * N), "t": C(n, m, 2), "w": Pos(n, m, 1), "u": K(onp.array(LAT["ob"][0])), "v": K(onp.array(LAT["ob"][1]))}, body,
                bounds=f"expansion {en}, grid {shape}, weights {wf}, {ws}", functions=FT[1:2])


def one_d(scheme, ex, n, axis, mode, wide=1):
    """An array that varies along one lattice direction only has the other lattice direction as its tangent."""
    shape = (n, 1) if axis == 0 else (1, n)
    spec = {"x": K(onp.array([3.0, 1.0, 1.0, 1.0, 5.0, 2.0])[:n].reshape(shape))}
    if mode == "lattice":
        spec.update({"p": Pos(), "q": R(), "r": Pos()})
    else:
        spec.update({"u": K(onp.array([1.0, 0.5])), "v": K(onp.array([-0.25, 1.5])), "a": Pos(), "c": R()})
        if mode != "array":  # absorbing media: complex contrast
            spec["x"] = K({"metal": onp.array([-3.0 + 4.0j, 0.0, 0.0, 0.0]), "gain": onp.array([-4.0j, 0.0, 0.0, 0.0]), "media": onp.array([5.0 + 12.0j, 0.0, 3.0 + 4.0j, 1.0])}[mode][:n].reshape(shape))

    def body(i):
        x = i["x"]
        if mode == "lattice":
            o = jnp.zeros(())
            rot = jnp.asarray([[0.6, -0.8], [0.8, 0.6]])
            u, v = rot @ jnp.stack([i["p"], o]), rot @ jnp.stack([i["q"], i["r"]])
        else:
            u, v = i["u"], i["v"]
            x = i["a"] * x + i["c"]
        full = (n, wide) if axis == 0 else (wide, n)
        tx, ty = SCH[scheme](jnp.broadcast_to(x, full), ex, LV(u, v))
        if tx.shape != full or ty.shape != full:
            raise StaticFail(f"shapes {tx.shape} {ty.shape}")
        t = jnp.stack([tx, ty], axis=-1)
        return [eq("tangent is along the direction in which nothing changes", cross(t, v if axis == 0 else u), jnp.zeros(full)),
                eq("unit magnitude", jnp.abs(tx) ** 2 + jnp.abs(ty) ** 2, jnp.ones(full))]
    return Case("P21", f"one_d_{scheme}_{shape}_{mode}" + ("" if wide == 1 else f"_wide{wide}"), spec, body, assume=lambda i: [i["a"] > 0.1] if mode != "lattice" else [i["p"] > 0.1, i["r"] > 0.1, i["p"] < 10.0, i["r"] < 10.0, jnp.abs(i["q"]) < 10.0], opaque_max=1,
                bounds=f"array {shape}, all " + (f"contrasts and offsets ({mode})" if mode != "lattice" else "lattices (p, 0), (q, r) turned by atan(4/3)"), functions=FT)


PAT = {"d": onp.array([[4.0, 1.0, 1.0], [1.0, 1.0, 1.0], [1.0, 1.0, 1.0]]), "a": onp.array([[1.0, 1.0, 4.0], [1.0, 2.0, 4.0], [3.0, 1.0, 1.0], [1.0, 1.0, 1.0]]),
       "b": onp.array([[1.0, 2.0, 2.0], [1.0, 5.0, 2.0], [1.0, 1.0, 1.0]]),
       "c": onp.array([[2.0, 2.0, 1.0, 1.0], [2.0, 6.0, 1.0, 3.0], [1.0, 1.0, 1.0, 1.0], [3.0, 1.0, 2.0, 1.0]])}
LAT = {"sq": ((1.0, 0.0), (0.0, 1.0)), "ob": ((1.0, 0.25), (-0.5, 1.5))}


def invariance(scheme, what, pat="d", lt="ob", ex=E4, wf=None, ws=None, steps=1):
    """The whole computation: transformed problem, transformed field."""
    x0 = PAT[pat]
    u0, v0 = (onp.array(a) for a in LAT[lt])
    spec = {"x": K(x0), "u": K(u0), "v": K(v0)}
    if what == "scale":
        spec["s"] = Pos()
    if what in ("contrast", "negative", "complex"):
        spec["a"] = Pos(lo=0.2)
        spec["c"] = R()

    def f(x, e, u, v):
        if scheme in SCH:
            return jnp.stack(SCH[scheme](x, e, LV(u, v)), axis=-1)
        return jnp.stack(vector.compute_tangent_field(x, e, LV(u, v), scheme == "direct", wf, ws, steps), axis=-1)

    def body(i):
        x, u, v = i["x"], i["u"], i["v"]
        t = f(x, ex, u, v)
        if what == "scale":
            return [eq("field", f(x, ex, i["s"] * u, i["s"] * v), t)]
        if what == "contrast":
            return [eq("field", f(i["a"] * x + i["c"], ex, u, v), t)]
        if what in ("negative", "complex"):  # the phase of the contrast is that of the field
            q = f(i["c"] - i["a"] * x if what == "negative" else (1 + 1j) * i["c"] + (-0.6 + 0.8j) * i["a"] * x, ex, u, v)
            return [eq("same line", cross(q, t), jnp.zeros(t.shape[:-1])), eq("same magnitude", jnp.sum(jnp.abs(q) ** 2, -1), jnp.sum(jnp.abs(t) ** 2, -1))]
        if what == "swap":
            e2 = E(*onp.asarray(ex.basis_coefficients)[:, ::-1].tolist())
            return [eq("field of the array with its axes exchanged, up to the orientation of the boundary", jnp.swapaxes(f(x.T, e2, v, u), 0, 1), t)]
        if what == "flip":
            e2 = E(*(onp.asarray(ex.basis_coefficients) * onp.array([-1, 1])).tolist())
            r = lambda a: jnp.roll(jnp.flip(a, 0), 1, 0)  # noqa: E731
            return [eq("field", r(f(r(x), e2, -u, v)), t)]
        if what == "rotate":
            R_ = jnp.asarray([[0.6, -0.8], [0.8, 0.6]])
            ph = 0.6 + 0.8j if scheme.startswith("jones") or scheme == "direct" else 1.0  # a Jones vector also gains the phase of the turn
            return [eq("rotated field", f(x, ex, R_ @ u, R_ @ v), ph * jnp.einsum("ij,...j->...i", R_, t))]
        if what == "batch":
            X = jnp.stack([x, 2.0 * x.T if x.shape[0] == x.shape[1] else x[::-1]])
            U = jnp.stack([u, 2 * u])
            b = f(X, ex, U, v)
            return [eq(f"item {k}", b[k], f(X[k], ex, U[k], v)) for k in range(2)]
        raise AssertionError(what)
    return Case("P21", f"{what}_{scheme}_{pat}_{lt}" + ("" if wf is None else f"_{wf}_{ws}_{steps}"), spec, body, assume=(lambda i: [i["a"] > 0.1, i["a"] < 100.0]) if "a" in spec else None, opaque_solve=3, opaque_max=1, let_terms=3 if scheme in (vector.JONES, vector.JONES_FOURIER) and what not in ('negative', 'rotate') else 0, budget_s=100.0,
                bounds=f"pattern {pat}, lattice {lt}", functions=FT)


def cases(tier):
    cs = [gradient((3, 4)), gradient((1, 3)), gradient((2, 2)), gradient((3, 3), (2,)), gradient((5, 4), (), ((1.0, 0.5), (0.25, -2.0))),
          norms((1, 2), R, "norms"), norms((2, 1), C, "norms"), norms((1, 1), C, "norms"), zeros(), *[jones(k, d) for k in ("unit", "strong", "weak") for d in ((0.6, 0.8), (-0.8, 0.6), (0.0, -1.0))]]
    cs += [one_d(s, E3 if a == 0 else E3Y, 3, a, m) for s in SCH for a in (0, 1) for m in ("lattice", "array", "media") + (("metal", "gain") if a else ())]
    cs += [one_d(s, E3 if a == 0 else E3Y, 3, a, m, 3) for s in (vector.POL, vector.NORMAL_FOURIER, vector.JONES_DIRECT) for a in (0, 1) for m in ("array", "metal", "media")]
    cs += [zero_residual("E2", E2, (3, 2), 0.25, 0.0), zero_residual("E2", E2, (3, 2), 0.0, 0.5), zero_residual("E3Y", E3Y, (1, 3), 0.5, 0.25)]
    cs += [loss("E2", E2, (3, 1), 0.0, 0.0, LAT["ob"]), loss("E2", E2, (3, 2), 0.25, 0.0, None), loss("E2", E2, (3, 2), 0.0, 0.5, None)]
    cs += [invariance(s, w) for s in SCH for w in ("scale", "contrast", "batch", "flip")]
    cs += [invariance(s, w) for s in SCH for w in ("negative", "swap") if s not in (vector.JONES, vector.JONES_FOURIER)]
    cs += [invariance(s, "complex") for s in SCH if "jones" not in s]
    cs += [invariance(s, "rotate") for s in SCH if "jones" not in s]
    return by_tier(tier, cs)
