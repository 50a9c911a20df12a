"""P15: real-space fields are the Bloch series of the Fourier fields, in the plane and along z."""
from .layers import *  # noqa: F403
from .P18 import orders
from symfm.harness import sample_inputs, to_float

FN = ("fields.fields_on_grid", "fields.fields_on_coordinates", "fields.layer_fields_3d", "fields.layer_fields_3d_on_coordinates", "fields.stack_fields_3d", "fields.stack_fields_3d_on_coordinates", "fields.stack_fields_3d_auto_grid")
NAMES = ("ex", "ey", "ez", "hx", "hy", "hz")


def six(i):
    return tuple(i[c] for c in NAMES[:3]), tuple(i[c] for c in NAMES[3:])


def lattice_points(i, shape, cells):
    a, b = onp.meshgrid(onp.arange(shape[0] * cells[0]) / shape[0], onp.arange(shape[1] * cells[1]) / shape[1], indexing="ij")
    a, b = a[..., None], b[..., None]
    r = 2 * jnp.pi * (a * i["u"][..., None, None, :] + b * i["v"][..., None, None, :])
    return r, a[..., 0], b[..., 0]


def grid(en, ex, shape, cells, gb=(), fb=None, na=1, tier="quick"):
    n = ex.num_terms
    fb = gb if fb is None else fb

    def body(i):
        L = build(i, "L", ex)
        e, h, (x, y) = fields.fields_on_grid(*six(i), L, shape, cells)
        r, a, b = lattice_points(i, shape, cells)
        k = i["k"][..., None, None, :]
        bloch = jnp.exp(1j * (k[..., 0] * r[..., 0] + k[..., 1] * r[..., 1]))[..., None]
        full = onp.broadcast_shapes(gb, fb) + (shape[0] * cells[0], shape[1] * cells[1], na)
        g = [eq("x", x, r[..., 0]), eq("y", y, r[..., 1])]
        basis_ = [phase(i, m[0] * a + m[1] * b)[..., None] for m in onp.asarray(ex.basis_coefficients)]
        for nm, f in zip(NAMES, e + h):
            if f.shape != full:
                raise StaticFail(f"{nm} shape {f.shape}, expected {full}")
            ref = sum(i[nm][..., t, None, None, :] * p for t, p in enumerate(basis_)) * bloch
            g.append(eq(nm, f, jnp.broadcast_to(ref, full)))
        return g
    inp = {"one": ONE, **gspec(gb, ("k", "u", "v")), **lspec("L", n, (1,) * len(gb)), **{c: C(*fb, n, na) for c in NAMES}}
    return Case("P15", f"grid_{en}_{shape}_{cells}_{gb}_{fb}_{na}", inp, body, bounds=f"{en}, grid {shape}, {cells} unit cells, wavevector batch {gb}, field batch {fb}, {na} fields; all lattices, wavevectors and Fourier fields", functions=FN[:1], tier=tier)


def coords(en, ex, cs, gb=(), fb=None, na=1):
    n = ex.num_terms
    fb = gb if fb is None else fb

    def body(i):
        L = build(i, "L", ex)
        e, h, (x, y) = fields.fields_on_coordinates(*six(i), L, i["x"], i["y"])
        kt = orders(i, ex, i["k"])
        full = fb + cs + (na,)
        g = [eq("x", x, i["x"]), eq("y", y, i["y"])]
        ph = [jnp.exp(1j * (kt[..., t, 0][(...,) + (None,) * len(cs)] * i["x"] + kt[..., t, 1][(...,) + (None,) * len(cs)] * i["y"]))[..., None] for t in range(n)]
        for nm, f in zip(NAMES, e + h):
            if f.shape != full:
                raise StaticFail(f"{nm} shape {f.shape}, expected {full}")
            ref = sum(i[nm][..., t, :][(...,) + (None,) * len(cs) + (slice(None),)] * ph[t] for t in range(n))
            g.append(eq(nm, f, jnp.broadcast_to(ref, full)))
        return g
    inp = {**gspec(gb, ("k", "u", "v")), **lspec("L", n, (1,) * len(gb)), **{c: C(*fb, n, na) for c in NAMES}, "x": R(*cs), "y": R(*cs)}
    return Case("P15", f"coords_{en}_{cs}_{gb}_{fb}_{na}", inp, body, assume=lambda i: [jnp.abs(cross(i["u"], i["v"])) > 0.01],
                bounds=f"{en}, coordinates of shape {cs}, wavevector batch {gb}, field batch {fb}, {na} fields; all lattices, wavevectors, coordinates and Fourier fields", functions=FN[1:2])


def agree(en, ex, shape, cells, gb=()):
    n = ex.num_terms

    def body(i):
        L = build(i, "L", ex)
        e, h, (x, y) = fields.fields_on_grid(*six(i), L, shape, cells)
        xb, yb = (z[(0,) * len(gb)] for z in (x, y))
        e2, h2, _ = fields.fields_on_coordinates(*six(i), L, xb, yb)
        return [eq(nm, p, q) for nm, p, q in zip(NAMES, e + h, e2 + h2)]
    inp = {**gspec((1,) * len(gb), ("k",)), "k": R(*gb, 2), **lspec("L", n, (1,) * len(gb)), **{c: C(*gb, n, 1) for c in NAMES}}
    return Case("P15", f"agree_{en}_{shape}_{cells}_{gb}", inp, body, bounds=f"{en}, grid {shape}, {cells} cells, batch {gb}; an oblique lattice, all wavevectors and Fourier fields", functions=FN[:2])


def slices(a, b, L, d, zs, where):
    out = []
    for z in zs:
        f = fields_at(a, b, z, L, d)
        e, h, xy = fields.fields_on_grid(*f, L, *where) if isinstance(where[0], tuple) else fields.fields_on_coordinates(*f, L, *where)
        out.append((jnp.stack(e), jnp.stack(h)))
    return [jnp.stack([o[k] for o in out], axis=-2) for k in (0, 1)]


def layer(en, ex, zn, how, batch=(), na=1, sym=("q",), tier="quick"):
    n = ex.num_terms

    def body(i):
        L = build(i, "L", ex)
        a, b, d = i["a"], i["b"], i["d"]
        zs = [d * t / max(zn - 1, 1) for t in range(zn)]
        if how == "grid":
            where = ((3, 2) if n > 1 else (2, 1), (1, 2))
            e, h, (x, y, z) = fields.layer_fields_3d(a, b, L, d, zn, *where)
        else:
            where = (i["x"], i["y"])
            e, h, (x, y, z) = fields.layer_fields_3d_on_coordinates(a, b, L, d, zn, *where)
            if x.shape != i["x"].shape:
                raise StaticFail("coordinate shape")
        re, rh = slices(a, b, L, d, zs, where)
        if e.shape != re.shape or h.shape != rh.shape or z.shape != (zn,):
            raise StaticFail(f"shapes {e.shape} {h.shape} {z.shape}, expected {re.shape}")
        return [eq("z", z, jnp.stack(zs)), eq("electric", e, re), eq("magnetic", h, rh)]
    inp = {**gspec(batch, ("k",)), **lspec("L", n, batch, sym), "a": C(*batch, 2 * n, na), "b": C(*batch, 2 * n, na), "d": Pos()}
    if how != "grid":
        inp.update({"x": K([[0.25, -1.0]]), "y": K([[0.5, 2.0]])})
    return Case("P15", f"layer_{how}_{en}_{zn}_{batch}_{na}", inp, body, assume=lambda i: nz(i["L_q"]), bounds=f"{en}, {zn} z points, batch {batch}, {na} fields; all amplitudes, eigenvalues, thicknesses and wavevectors", functions=FN[2:4], tier=tier)


def stack(en, ex, zn, how, batch=(), na=1):
    n, nl = ex.num_terms, len(zn)

    def body(i):
        Ls = [build(i, f"L{k}", ex) for k in range(nl)]
        ds = [i["d"][k] for k in range(nl)]
        amps = [(i["a"][k], i["b"][k]) for k in range(nl)]
        if how == "grid":
            where = ((3, 2) if n > 1 else (2, 1), (2, 1))
            e, h, (x, y, z) = fields.stack_fields_3d(amps, Ls, ds, zn, *where)
            one = [fields.layer_fields_3d(*amps[k], Ls[k], ds[k], zn[k], *where) for k in range(nl)]
        else:
            where = (i["x"], i["y"])
            e, h, (x, y, z) = fields.stack_fields_3d_on_coordinates(amps, Ls, ds, zn, *where)
            one = [fields.layer_fields_3d_on_coordinates(*amps[k], Ls[k], ds[k], zn[k], *where) for k in range(nl)]
        zz, z0 = [], 0.0
        for k in range(nl):
            zz += [z0 + ds[k] * t / max(zn[k] - 1, 1) for t in range(zn[k])]
            z0 = z0 + ds[k]
        re, rh = (jnp.concatenate([o[k] for o in one], axis=-2) for k in (0, 1))
        if e.shape != re.shape or h.shape != rh.shape or z.shape != (sum(zn),):
            raise StaticFail(f"shapes {e.shape} {h.shape} {z.shape}")
        return [eq("z", z, jnp.stack(zz)), eq("x", x, one[0][2][0]), eq("y", y, one[0][2][1]), eq("electric", e, re), eq("magnetic", h, rh)]
    inp = {**gspec(batch), "d": R(nl, lo=0.1, hi=1.0), "a": C(nl, *batch, 2 * n, na), "b": C(nl, *batch, 2 * n, na)}
    for k in range(nl):
        inp.update(lspec(f"L{k}", n, batch, ("q",), seed=k))
    if how != "grid":
        inp.update({"x": K([0.25, -1.0]), "y": K([0.5, 2.0])})
    return Case("P15", f"stack_{how}_{en}_{zn}_{batch}_{na}", inp, body, assume=lambda i: [jnp.abs(i[k]) > 0 for k in inp if k.endswith("_q")], bounds=f"{nl} layers with {zn} z points, {en}, batch {batch}, {na} fields; all amplitudes, thicknesses and eigenvalues", functions=FN[4:6])


def continuous(how):
    """The fields of a stack, with amplitudes computed by the library, are continuous in z."""
    def body(i):
        Ls = [build(i, f"L{k}", E1) for k in range(3)]
        ds = [i["d"][k] for k in range(3)]
        s = scattering.stack_s_matrices_interior(Ls, ds)
        amps = fields.stack_amplitudes_interior(s, i["a0"], i["bn"])
        zn = (2, 3, 2)
        if how == "grid":
            e, h, (x, y, z) = fields.stack_fields_3d(amps, Ls, ds, zn, (2, 1), (1, 1))
        else:
            e, h, (x, y, z) = fields.stack_fields_3d_on_coordinates(amps, Ls, ds, zn, jnp.asarray([0.25]), jnp.asarray([0.5]))
        g = []
        for p in (1, 4):
            g += [eq(f"z at {p}", z[p], z[p + 1]), eq(f"electric at {p}", e[:2, ..., p, :], e[:2, ..., p + 1, :]), eq(f"magnetic at {p}", h[:2, ..., p, :], h[:2, ..., p + 1, :])]
        return g
    inp = {**gspec(), "d": dspec(3, ("d1",)), "a0": C(2, 1), "bn": C(2, 1)}
    for k in range(3):
        inp.update(lspec(f"L{k}", 1, seed=k))
    return Case("P15", f"continuous_{how}", inp, body, bounds="3 layers, one order; all incident amplitudes, middle thickness", functions=FN[4:6])


def auto(lens, ds, spacing, nx, ny, zn, batch=()):
    def body(i):
        amps = [(i["a"][k], i["b"][k]) for k in range(len(ds))]
        j = {}

        def make(amp):
            lat = [jnp.broadcast_to(jnp.asarray(t) / (2 * onp.pi), lb + (2,)) for t in (u, v)]
            Ls = [build({**j, "u": lat[0], "v": lat[1]}, f"L{k}", E1) for k in range(len(ds))]
            return [(amp[0][k], amp[1][k]) for k in range(len(ds))], Ls, [jnp.asarray(t) for t in ds]

        def run(amp):
            return fields.stack_fields_3d_auto_grid(*make(amp), spacing, (1, 2))
        consts = {nm: sp for nm, sp in inp.items() if sp.kind == "const"}
        zero = tuple(onp.zeros(i["a"].shape, dtype=complex) for _ in "ab")
        with jax.core.eval_context():
            j.update(to_float(consts, sample_inputs(consts, None)))
            (e0, h0, (x, y, z)), lin = jax.linearize(run, zero)
        e, h, _ = lin((i["a"], i["b"]))
        g = [eq("no field without amplitudes", jnp.stack([e0, h0]), 0.0)]
        with jax.core.eval_context():
            (_, _, (rx, ry, rz)), rlin = jax.linearize(lambda amp: fields.stack_fields_3d(*make(amp), zn, (nx, ny), (1, 2)), zero)
        re, rh, _ = rlin((i["a"], i["b"]))
        if e.shape != re.shape or h.shape != rh.shape:
            raise StaticFail(f"shape {e.shape}, expected {re.shape}")
        return g + [eq("x", x, rx), eq("y", y, ry), eq("z", z, rz), eq("electric", e, re), eq("magnetic", h, rh)]
    (u, v) = lens
    bb = (1,) * len(batch)
    lb = batch if batch and batch[0] < 0 else bb
    lb = tuple(abs(t) for t in lb)
    batch = tuple(abs(t) for t in batch)
    inp = {**gspec(bb), "a": C(len(ds), *batch, 2, 1), "b": C(len(ds), *batch, 2, 1)}
    for k in range(len(ds)):
        inp.update(lspec(f"L{k}", 1, batch, seed=k))
    return Case("P15", f"auto_{u}_{v}_{ds}_{spacing}_{lb}", inp, body, bounds=f"lattice {u}, {v}, thicknesses {ds}, spacing {spacing}; all amplitudes (the traced derivative at zero amplitude, as the grid size must be concrete)", functions=FN[6:])


def reject():
    def body(i):
        L = build(i, "L", E1)
        a = i["a"]
        one = jnp.ones(())
        f = (jnp.ones((1, 1)),) * 3
        bad = (jnp.ones((2, 1)),) * 3
        s = lambda am, ls, ds, zn: (lambda: fields.stack_fields_3d(am, ls, ds, zn, (1, 1), (1, 1)))  # noqa: E731
        t = lambda am, ls, ds, zn: (lambda: fields.stack_fields_3d_on_coordinates(am, ls, ds, zn, jnp.zeros(1), jnp.zeros(1)))  # noqa: E731
        X = (Exception,)
        g = []
        for nm, q in (("grid", s), ("coordinates", t)):
            g += [expect_raises(f"amplitudes {nm}", q([(a, a)], [L, L], [one, one], [1, 1]), X), expect_raises(f"layers {nm}", q([(a, a)] * 2, [L], [one, one], [1, 1]), X),
                  expect_raises(f"thicknesses {nm}", q([(a, a)] * 2, [L, L], [one], [1, 1]), X), expect_raises(f"z numbers {nm}", q([(a, a)] * 2, [L, L], [one, one], [1]), X)]
        return g + [expect_raises("orders on the grid", lambda: fields.fields_on_grid(bad, f, L, (1, 1), (1, 1)), X), expect_raises("orders on coordinates", lambda: fields.fields_on_coordinates(bad, f, L, jnp.zeros(1), jnp.zeros(1)), X),
                    expect_raises("rank on the grid", lambda: fields.fields_on_grid((jnp.ones(1),) * 3, f, L, (1, 1), (1, 1)), X)]
    return Case("P15", "reject", {**gspec(), **lspec("L", 1), "a": C(2, 1)}, body, bounds="mismatched lengths and shapes", functions=FN)


def cases(tier):
    c = [grid("E1", E1, (2, 2), (2, 3)), grid("EA", EA, (5, 5), (1, 1)), grid("E3", E3, (3, 2), (2, 1), (2,), (2,), 2), grid("E2", E2, (3, 1), (1, 2), (1,), (3,)), grid("E5", E5, (3, 3), (1, 1)), grid("E1", E1, (1, 2), (1, 1), (2, 1), (2, 3), 2)]
    c += [coords("E1", E1, (3,)), coords("EA", EA, (2,), (), (), 2), coords("E3", E3, (2, 1), (2,)), coords("E2", E2, (), (1,), (2,)), coords("E2", E2, (1, 2, 1), (2, 1), (2, 3), 2), coords("E5", E5, (1,))]
    c += [agree("E3", E3, (3, 2), (2, 1)), agree("EA", EA, (5, 5), (1, 1)), agree("E2", E2, (3, 2), (1, 2), (2,))]
    c += [layer("E1", E1, 1, "grid"), layer("E1", E1, 3, "grid", (2,), 2), layer("E1", E1, 4, "coords"), layer("E2", E2, 2, "grid", (), 2), layer("E2", E2, 3, "coords", (), 2), layer("E1", E1, 2, "coords", (2, 1), 1), layer("E1", E1, 5, "grid", (), 3)]
    c += [stack("E1", E1, (2, 3), "grid", (), 2), stack("E1", E1, (1, 2, 3), "coords", (2,)), stack("E1", E1, (3, 1, 0, 2), "grid"), stack("E2", E2, (2, 1), "coords", (), 1), continuous("grid"), continuous("coords")]
    c += [auto(((1.0, 0.0), (0.0, 1.0)), (0.5, 1.0), 0.25, 4, 4, (2, 4)), auto(((1.0, 0.0), (0.75, 1.0)), (0.3, 0.7), 0.25, 4, 5, (1, 3)), auto(((0.0, 2.0), (1.6, 0.0)), (1.0,), 0.6, 3, 3, (2,)), auto(((1.0, 0.0), (0.0, 1.5)), (0.5, 1.0), 0.25, 4, 6, (2, 4), (2,)), auto(((1.0, 0.0), (0.0, 1.5)), (0.5,), 0.25, 4, 6, (2,), (-2,)), reject()]
    if tier == "thorough":
        c += [grid("E9", E9, (3, 4), (2, 2)), grid("E5", E5, (4, 3), (1, 2), (2,)), layer("E3", E3, 3, "grid"), stack("E3", E3, (2, 2), "grid"), stack("E2", E2, (2, 3), "grid", (2,), 2), coords("E9", E9, (2,)), agree("E5", E5, (4, 3), (2, 2))]
    return by_tier(tier, c)
