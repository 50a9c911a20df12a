"""P03: Brillouin-zone sampling grid."""
from .common import *  # noqa: F403

FN = ("basis.brillouin_zone_in_plane_wavevector", "basis.reciprocal")


def nonsing(i):
    return [jnp.abs(cross(i["u"], i["v"])) > 0.2]


def grid(shape, tier="quick"):
    def body(i):
        k = basis.brillouin_zone_in_plane_wavevector(shape, LV(i["u"], i["v"]))
        if k.shape != tuple(shape) + (2,):
            raise StaticFail(f"shape {k.shape}")
        n, m = shape
        a = (2 * onp.arange(n) + 1 - n) / n * onp.pi  # 2 pi (cell centres of n cells of (-1/2, 1/2))
        b = (2 * onp.arange(m) + 1 - m) / m * onp.pi
        ku, kv = dot(k, i["u"]), dot(k, i["v"])
        g = [
            eq("k.u are centres of n equal cells", ku, jnp.broadcast_to(a[:, None], (n, m))),
            eq("k.v are centres of m equal cells", kv, jnp.broadcast_to(b[None, :], (n, m))),
            eq("inversion symmetric", k, -k[::-1, ::-1]),
            eq("zero mean", jnp.sum(k, axis=(0, 1)), jnp.zeros(2)),
        ]
        # every point lies strictly inside the zone spanned by the reciprocal vectors
        g += [ge("inside +", jnp.pi - ku), ge("inside -", jnp.pi + ku)]
        g += [ge("inside + v", jnp.pi - kv), ge("inside - v", jnp.pi + kv)]
        return g
    return Case("P03", f"grid{shape}", {"u": R(2), "v": R(2)}, body, nonsing, tier=tier,
                bounds=f"grid shape {shape}, every non-singular lattice", functions=FN)


def refine(n, f):
    """A grid refined by an odd factor contains the original points."""
    def body(i):
        lv = LV(i["u"], i["v"])
        k = basis.brillouin_zone_in_plane_wavevector((n, 1), lv)
        kk = basis.brillouin_zone_in_plane_wavevector((n * f, 1), lv)
        return [eq("refinement", kk[f // 2 :: f], k)]
    return Case("P03", f"refine{n}x{f}", {"u": R(2), "v": R(2)}, body, nonsing, bounds=f"{n} -> {n * f}", functions=FN)


def reject(shape):
    def body(i):
        return [expect_raises(f"grid shape {shape} is rejected",
                              lambda: basis.brillouin_zone_in_plane_wavevector(shape, LV(i["u"], i["v"])))]
    return Case("P03", f"reject{shape}", {"u": R(2), "v": R(2)}, body, nonsing, bounds=f"invalid shape {shape}", functions=FN[:1])


def cases(tier):
    sh = [(a, b) for a in range(1, 6) for b in range(1, 6)]
    cs = [grid(s, "quick") for s in sh]
    cs += [grid(s, "quick") for s in ((7, 1), (1, 8), (9, 2), (10, 3), (6, 7))]
    cs += [grid(s, "quick") for s in [(n, 1) for n in range(10, 30)] + [(1, n) for n in range(10, 30)] + [(12, 12), (15, 9)]]
    cs += [grid(s, "thorough") for s in [(n, 1) for n in range(30, 100)] + [(1, n) for n in range(30, 100)] + [(n, n + d) for n in range(10, 20) for d in (1, 2)]]
    cs += [refine(n, f) for n, f in ((1, 3), (2, 3), (3, 3), (4, 5))]
    cs += [reject(s) for s in ((0, 1), (1, 0), (0, 0), (2, 0), (0, 2), (-1, 2), (2, -1), (3, -3), (1, 1, 1), (2,), ())]
    return by_tier(tier, cs)
