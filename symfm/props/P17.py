"""P17: amplitudes recovered from real-space fields are the amplitudes that made the fields."""
from .layers import *  # noqa: F403

FN = ("sources.amplitudes_for_fields", "fields.fields_on_grid", "fields.field_conversion_matrix")


def unpack(a, b, L, shape, cells):
    (ex, ey, _), (hx, hy, _), _ = fields.fields_on_grid(*fields.fields_from_wave_amplitudes(a, b, L), L, shape, cells)
    return ex, ey, hx, hy


def roundtrip(en, ex, shape, sym, lb=(), gb=None, ab=None, na=1, mu=False, tier="quick"):
    """Layer batch lb, geometry (wavevector, lattice) batch gb, amplitude batch ab."""
    n = ex.num_terms
    ab = lb if ab is None else ab
    gb = lb if gb is None else gb

    def body(i):
        L = build(i, "L", ex)
        f = unpack(i["a"], i["b"], L, shape, (1, 1))
        a, b = sources.amplitudes_for_fields(*f, L)
        full = onp.broadcast_shapes(lb, ab) + (2 * n, na)
        if a.shape != full or b.shape != full:
            raise StaticFail(f"shapes {a.shape} {b.shape}, expected {full}")
        return [eq("forward", a, i["a"]), eq("backward", b, i["b"])]
    g = tuple(s for s in sym if s in ("w", "k"))
    inp = {**gspec(gb, g), **lspec("L", n, lb, sym, mu=mu), "a": C(*ab, 2 * n, na), "b": C(*ab, 2 * n, na)}
    return Case("P17", f"roundtrip_{en}_{shape}_{'-'.join(sym)}_{lb}_{gb}_{ab}_{na}{'_mu' if mu else ''}", inp, body, assume=lambda i: nz(i["L_q"]), budget_s=60.0,
                bounds=f"{en}, grid {shape}, layer batch {lb}, wavevector batch {gb}, amplitude batch {ab}; symbolic: all amplitudes, {', '.join(sym) or 'nothing else'}", functions=FN, tier=tier)


def given(en, ex, shape, sym, lb=(), gb=(), fb=(), na=1):
    """Arbitrary real-space fields: the expansion part of the fields of the result is that of the input."""
    n = ex.num_terms

    def body(i):
        L = build(i, "L", ex)
        f = [i[x] for x in ("ex", "ey", "hx", "hy")]
        a, b = sources.amplitudes_for_fields(*f, L)
        full = onp.broadcast_shapes(lb, gb, fb) + (2 * n, na)
        if a.shape != full or b.shape != full:
            raise StaticFail(f"shapes {a.shape} {b.shape}, expected {full}")
        e, h = fields.fields_from_wave_amplitudes(a, b, L)
        x, y = basis.unit_cell_coordinates(L.primitive_lattice_vectors, shape, (1, 1))
        k = i["k"][..., None, None, :]
        ph = jnp.exp(-1j * (k[..., 0] * x + k[..., 1] * y))[..., None]
        g = []
        for nm, got, given_ in zip(("ex", "ey", "hx", "hy"), (e[0], e[1], h[0], h[1]), f):
            want = fft.fft(given_ * ph, ex, axes=(-3, -2))
            g.append(eq(nm, got, jnp.broadcast_to(want, got.shape)))
        return g
    s = fb + shape + (na,)
    inp = {**gspec(gb, tuple(t for t in sym if t in ("w", "k"))), **lspec("L", n, lb, sym), **{x: C(*s) for x in ("ex", "ey", "hx", "hy")}}
    return Case("P17", f"given_{en}_{shape}_{'-'.join(sym)}_{lb}_{gb}_{fb}_{na}", inp, body, assume=lambda i: nz(i["L_q"]), budget_s=60.0,
                bounds=f"{en}, grid {shape}, layer batch {lb}, wavevector batch {gb}, field batch {fb}; all real-space fields", functions=FN)


def supercell(en, ex, shape, nb, lead=(), tail=(), axes=None, na=1, lv="oblique", fb="keep", tier="quick"):
    """Fields averaged over the Brillouin zone come from the amplitudes of each grid point."""
    n = ex.num_terms
    batch = lead + nb + tail
    axes = tuple(range(len(lead), len(lead) + 2)) if axes is None else axes
    U = {"square": ([1.0, 0.0], [0.0, 1.0]), "oblique": ([2.0, 0.5], [0.0, 1.5])}[lv]
    red = (len(lead), len(lead) + 1)

    def body(i):
        k = basis.brillouin_zone_in_plane_wavevector(nb, LV(2 * jnp.pi * jnp.asarray(U[0]), 2 * jnp.pi * jnp.asarray(U[1])))
        j = {**i, "k": k.reshape((1,) * len(lead) + nb + (1,) * len(tail) + (2,)), "u": jnp.broadcast_to(jnp.asarray(U[0]), (1,) * len(batch) + (2,)), "v": jnp.broadcast_to(jnp.asarray(U[1]), (1,) * len(batch) + (2,)), "w": jnp.broadcast_to(i["w"], (1,) * len(batch))}
        L = build(j, "L", ex)
        f = unpack(i["a"], i["b"], L, shape, nb)
        f = [jnp.mean(x, axis=red, keepdims=True) for x in f]
        if fb == "drop":
            f = [x[(0,) * len(batch)] for x in f]
        a, b = sources.amplitudes_for_fields(*f, L, brillouin_grid_axes=axes)
        full = batch + (2 * n, na)
        if a.shape != full or b.shape != full:
            raise StaticFail(f"shapes {a.shape} {b.shape}, expected {full}")
        return [eq("forward", a, i["a"]), eq("backward", b, i["b"])]
    inp = {"w": K(0.75), **lspec("L", n, batch), "a": C(*batch, 2 * n, na), "b": C(*batch, 2 * n, na)}
    return Case("P17", f"supercell_{en}_{shape}_{nb}_{lead}_{tail}_{axes}_{na}_{lv}_{fb}", inp, body, budget_s=60.0,
                bounds=f"{en}, unit cell grid {shape}, Brillouin grid {nb} at axes {axes} of batch {batch}; all amplitudes", functions=FN, tier=tier)


def reject():
    def body(i):
        L = build(i, "L", E1)
        z = i["f"]
        j = {**i, **{k: jnp.broadcast_to(i[k], (2, 2) + i[k].shape) for k in ("k", "u", "v", "w")}}
        j.update({k: jnp.broadcast_to(i[k], (2, 2) + i[k].shape) for k in i if k.startswith("L_")})
        B = build(j, "L", E1)
        r = lambda *f, **k: (lambda: sources.amplitudes_for_fields(*f, **k))  # noqa: E731
        y = jnp.ones((3, 2, 1))
        return [expect_raises("different shapes", r(z, z, z, y, layer_solve_result=L)), expect_raises("rank", r(*[z[0]] * 4, layer_solve_result=L)),
                expect_raises("not divisible", r(*[y] * 4, layer_solve_result=B, brillouin_grid_axes=(0, 1))),
                expect_raises("not divisible y", r(*[jnp.ones((2, 3, 1))] * 4, layer_solve_result=B, brillouin_grid_axes=(0, 1))),
                expect_raises("batch", r(*[jnp.ones((3, 2, 2, 1))] * 4, layer_solve_result=B)), expect_raises("duplicate axes", r(*[jnp.ones((2, 2, 2, 2, 1))] * 4, layer_solve_result=B, brillouin_grid_axes=(0, 0)))]
    return Case("P17", "reject_shapes", {**gspec(), **lspec("L", 1), "f": R(2, 2, 1)}, body, bounds="bad shapes", functions=FN[:1])


def cases(tier):
    c = [roundtrip("E1", E1, (1, 1), ("q", "k", "w")), roundtrip("E1", E1, (2, 3), ("phi",)), roundtrip("E1", E1, (1, 1), ("phi", "q", "ez", "mt", "k", "w")), roundtrip("E2", E2, (3, 1), ("q",)), roundtrip("E3", E3, (3, 2), (), (), (), (), 2, True),
         roundtrip("EA", EA, (5, 5), ()), roundtrip("E1", E1, (2, 2), ("q",), (2,)), roundtrip("E1", E1, (2, 1), (), (2, 1), (1, 3), (2, 3), 2), roundtrip("E1", E1, (2, 2), ("q",), (2,), (1,), (2,)), roundtrip("E2", E2, (3, 2), (), (2,), (1,), (2,)),
         given("E1", E1, (2, 2), ("q",)), given("E3", E3, (3, 3), ()), given("E2", E2, (3, 2), (), (2,), (1,), ()), given("E1", E1, (2, 2), (), (2,), (1,), ()), given("E1", E1, (2, 2), ("phi",), (2,), (2,), (2,)), given("E1", E1, (1, 2), (), (), (), (3,), 2), given("E1", E1, (1, 2), (), (2, 1), (2, 1), (3,), 1)]
    c += [supercell("E1", E1, (1, 1), (2, 2)), supercell("E1", E1, (2, 1), (3, 2)), supercell("E2", E2, (3, 1), (2, 1)), supercell("E3", E3, (3, 2), (1, 3)), supercell("E1", E1, (2, 2), (2, 3), (2,)), supercell("E1", E1, (2, 2), (2, 3), (), (2,)),
          supercell("E1", E1, (1, 2), (2, 3), (), (), (0, 1), 2), supercell("E1", E1, (2, 2), (2, 3), (2,), (2,)), supercell("E2", E2, (3, 2), (4, 2), (), (), None, 1, "square"), supercell("E1", E1, (2, 1), (2, 3), fb="drop"), supercell("E1", E1, (2, 1), (3, 2), (1, 1), fb="drop"), supercell("E1", E1, (2, 1), (2, 1), (1, 1, 1), fb="drop"), supercell("E1", E1, (2, 1), (2, 3), (), (), (-5, -4)), reject()]
    if tier == "thorough":
        c += [roundtrip("E5", E5, (4, 3), (), (2,)), roundtrip("E2", E2, (3, 2), ("phi",)), supercell("E5", E5, (3, 3), (3, 2)), supercell("E3", E3, (3, 2), (4, 3), (2,), (1,), None, 2)]
    return by_tier(tier, c)
