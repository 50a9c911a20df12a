"""P01: reciprocal lattice duality, diffraction-order wavevectors, plane-wave wavevector."""
from .common import *  # noqa: F403

FN = ("basis.LatticeVectors.reciprocal", "basis.transverse_wavevectors", "basis.plane_wave_in_plane_wavevector",
      "basis.unit_cell_coordinates")


def nonsing(i):
    return [jnp.abs(cross(*jnp.broadcast_arrays(i["u"], i["v"]))) > 0.2]


def recip(bu):
    def body(i):
        r = LV(i["u"], i["v"]).reciprocal
        g = [
            eq("u'.u=1", dot(r.u, i["u"]), jnp.ones(bu)),
            eq("u'.v=0", dot(r.u, i["v"]), jnp.zeros(bu)),
            eq("v'.u=0", dot(r.v, i["u"]), jnp.zeros(bu)),
            eq("v'.v=1", dot(r.v, i["v"]), jnp.ones(bu)),
        ]
        rr = r.reciprocal
        g += [eq("involution u", rr.u, i["u"]), eq("involution v", rr.v, i["v"])]
        return g
    return Case("P01", f"reciprocal{bu}", {"u": R(*bu, 2), "v": R(*bu, 2)}, body, nonsing,
                bounds=f"lattice batch {bu}, all non-singular u, v", functions=FN[:1])


def tw(ename, ex, bk, bl, tier="quick"):
    c = ex.basis_coefficients

    def body(i):
        k = basis.transverse_wavevectors(i["k"], LV(i["u"], i["v"]), ex)
        bs = jnp.broadcast_shapes(bk, bl)
        if k.shape != bs + (ex.num_terms, 2):
            raise StaticFail(f"shape {k.shape}, expected {bs + (ex.num_terms, 2)}")
        d = k - i["k"][..., None, :]
        two_pi = 2 * jnp.pi
        return [
            eq("k.u", dot(d, i["u"][..., None, :]), jnp.broadcast_to(two_pi * c[:, 0], bs + (len(c),))),
            eq("k.v", dot(d, i["v"][..., None, :]), jnp.broadcast_to(two_pi * c[:, 1], bs + (len(c),))),
        ]
    return Case("P01", f"orders_{ename}_k{bk}_lat{bl}", {"k": R(*bk, 2), "u": R(*bl, 2), "v": R(*bl, 2)}, body,
                nonsing, tier=tier, bounds=f"expansion {c.tolist()}; k batch {bk}, lattice batch {bl}",
                functions=FN[:2])


def plane(b, cplx):
    def body(i):
        e = i["e"] + 1j * i["x"] if cplx == "absorbing" else i["e"]
        k = basis.plane_wave_in_plane_wavevector(i["w"], i["th"], i["ph"], e)
        n = 2 * jnp.pi / i["w"] * jnp.sqrt(jnp.real(e))
        s, c = jnp.sin(i["th"]), jnp.cos(i["th"])
        return [
            eq("kx", k[..., 0], n * s * jnp.cos(i["ph"])),
            eq("ky", k[..., 1], n * s * jnp.sin(i["ph"])),
            eq("norm", dot(k, k) + (n * c) ** 2, (2 * jnp.pi / i["w"]) ** 2 * jnp.real(e)),
        ]
    return Case("P01", f"planewave{b}{('_' + cplx if cplx == 'absorbing' else 'c') if cplx else ''}",
                {**({"x": R(*b)} if cplx == "absorbing" else {}), "w": Pos(*b), "th": R(*b), "ph": R(*b), "e": Pos(*b, dtype=onp.complex128 if cplx is True else None)},
                body, bounds=f"batch {b}; all wavelengths, angles, positive permittivities", functions=FN[2:3])


def cells(shape, num, bl, tier="quick"):
    def body(i):
        x, y = basis.unit_cell_coordinates(LV(i["u"], i["v"]), shape, num)
        n0, n1 = shape[0] * num[0], shape[1] * num[1]
        if x.shape != bl + (n0, n1) or y.shape != bl + (n0, n1):
            raise StaticFail(f"shapes {x.shape} {y.shape}")
        a, b = onp.meshgrid(onp.arange(n0) / shape[0], onp.arange(n1) / shape[1], indexing="ij")
        u, v = i["u"][..., None, None, :], i["v"][..., None, None, :]
        return [eq("x", x, a * u[..., 0] + b * v[..., 0]), eq("y", y, a * u[..., 1] + b * v[..., 1])]
    return Case("P01", f"cells{shape}{num}{bl}", {"u": R(*bl, 2), "v": R(*bl, 2)}, body, tier=tier,
                bounds=f"grid {shape}, {num} unit cells, lattice batch {bl}", functions=FN[3:])


def cases(tier):
    cs = [recip(b) for b in ((), (1,), (2,), (3,), (2, 1), (1, 2), (2, 2), (2, 3))]
    for en, ex in (("E1", E1), ("E2", E2), ("E3", E3), ("EA", EA), ("E9", E9)):
        for bk, bl in (((), ()), ((2,), ()), ((), (2,)), ((2,), (2,)), ((3, 1), (2,)), ((2, 1), (2, 2)), ((3,), (3,))):
            cs.append(tw(en, ex, bk, bl))
    cs.append(tw("Ebig", E(*itertools.product(range(-3, 4), range(-3, 4))), (2,), ()))
    cs.append(tw("Ehuge", E(*itertools.product(range(-7, 8), range(-7, 8))), (2, 1), (3,), "thorough"))
    cs += [plane((), False), plane((2,), False), plane((), True), plane((2, 3), True), plane((), "absorbing"), plane((2,), "absorbing")]
    for s, n, b in (((1, 1), (1, 1), ()), ((3, 2), (1, 1), ()), ((2, 3), (2, 3), ()), ((2, 2), (1, 2), (2,)), ((3, 1), (2, 1), (2, 1))):
        cs.append(cells(s, n, b))
    cs.append(cells((5, 4), (3, 2), (3,)))
    cs.append(cells((9, 8), (4, 5), (2, 2), "thorough"))
    return by_tier(tier, cs)
