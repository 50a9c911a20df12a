"""P19: far-field unflattening, angles, solid angles and flux integration."""
from .common import *  # noqa: F403

FN = ("farfield.unflatten", "farfield.unflatten_flux", "farfield.unflatten_transverse_wavevectors",
      "farfield.angles_from_unflattened_transverse_wavevectors", "farfield.solid_angle_from_unflattened_transverse_wavevectors",
      "farfield.integrated_flux", "farfield.farfield_profile", "basis.brillouin_zone_in_plane_wavevector")

EI = E((0, 0), (1, 0), (-1, 1))  # irregular: leaves holes


def target(ex, nb):
    """Position of (bz_i, bz_j, order) in the merged grid."""
    c = onp.asarray(ex.basis_coefficients)
    lo = c.min(axis=0)
    shape = tuple(int(n) for n in (c.max(axis=0) - lo + 1) * onp.asarray(nb))
    pos = {}
    for bi in range(nb[0]):
        for bj in range(nb[1]):
            for t in range(len(c)):
                pos[(bi, bj, t)] = (int((c[t, 0] - lo[0]) * nb[0] + bi), int((c[t, 1] - lo[1]) * nb[1] + bj))
    return shape, pos


def unflat(en, ex, nb, batch, tier="quick"):
    def body(i):
        flat = i["x"]
        y = farfield.unflatten(flat, ex)
        shape, pos = target(ex, nb)
        if y.shape != batch + shape:
            raise StaticFail(f"shape {y.shape}, expected {batch + shape}")
        g = [eq(f"element {k}", y[(..., *p)], flat[(..., *k)]) for k, p in pos.items()]
        hole = onp.ones(shape, bool)
        for p in pos.values():
            hole[p] = False
        if len(set(pos.values())) != len(pos):
            raise StaticFail("reference positions collide")
        return g + [true("elements without a source are nan", jnp.isnan(y[..., a, b])) for a, b in onp.argwhere(hole)]
    return Case("P19", f"unflatten_{en}_{nb}_{batch}", {"x": R(*batch, *nb, ex.num_terms)}, body,
                bounds=f"{en}, Brillouin grid {nb}, batch {batch}", functions=FN[:1], tier=tier)


def flux_axes(en, ex, full, axes, tier="quick"):
    """full: shape of the flux without its last two axes; axes: the Brillouin grid axes in it."""
    n = ex.num_terms
    nd = len(full) + 2
    a0, a1 = (a % nd for a in axes)
    nb = (full[a0], full[a1])
    rest = [k for k in range(len(full)) if k not in (a0, a1)]

    def body(i):
        y = farfield.unflatten_flux(i["f"], ex, axes)
        k = farfield.unflatten_transverse_wavevectors(i["k"], ex, axes)
        shape, pos = target(ex, nb)
        batch = tuple(full[r] for r in rest)
        if y.shape != batch + shape + (2, 2) or k.shape != batch + shape + (2,):
            raise StaticFail(f"shapes {y.shape}, {k.shape}")
        f = jnp.transpose(i["f"], rest + [a0, a1, nd - 2, nd - 1])
        kk = jnp.transpose(i["k"], rest + [a0, a1, nd - 2, nd - 1])
        g = []
        for (bi, bj, t), p in pos.items():
            for pol in range(2):
                g.append(eq(f"flux {bi} {bj} {t} pol {pol}", y[(..., *p, pol, slice(None))], f[..., bi, bj, t + n * pol, :]))
            g.append(eq(f"wavevector {bi} {bj} {t}", k[(..., *p, slice(None))], kk[..., bi, bj, t, :]))
        return g
    return Case("P19", f"axes_{en}_{full}_{axes}", {"f": R(*full, 2 * n, 2), "k": R(*full, n, 2)}, body,
                bounds=f"{en}, leading shape {full}, Brillouin axes {axes}", functions=FN[1:3], tier=tier)


def kgrid(en, ex, nb, tier="quick"):
    """The merged wavevectors form one uniform grid spanned by the reciprocal vectors / grid shape."""
    def body(i):
        lv = LV(i["u"], i["v"])
        k0 = basis.brillouin_zone_in_plane_wavevector(nb, lv)
        tw = basis.transverse_wavevectors(k0, lv, ex)
        k = farfield.unflatten_transverse_wavevectors(tw, ex, (0, 1))
        rl = basis.LatticeVectors(*[2 * jnp.pi * x for x in (lambda r: (r.u, r.v))(lv.reciprocal)])
        have = onp.zeros(k.shape[:2], bool)
        for p in target(ex, nb)[1].values():
            have[p] = True
        g = []
        for a in range(have.shape[0]):
            for b in range(have.shape[1]):
                if a + 1 < have.shape[0] and have[a, b] and have[a + 1, b]:
                    g.append(eq(f"step u {a} {b}", (k[a + 1, b] - k[a, b]) * nb[0], rl.u))
                if b + 1 < have.shape[1] and have[a, b] and have[a, b + 1]:
                    g.append(eq(f"step v {a} {b}", (k[a, b + 1] - k[a, b]) * nb[1], rl.v))
        return g
    return Case("P19", f"kgrid_{en}_{nb}", {"u": R(2), "v": R(2)}, body, assume=lambda i: [cross(i["u"], i["v"]) > 0.1],
                bounds=f"{en}, Brillouin grid {nb}, all lattices", functions=(FN[2], FN[7]), tier=tier)


def angles(batch):
    """Directions are given by their angles: k = k0 sin(t) (cos f, sin f), 0 < t < pi/2."""
    def body(i):
        kx, ky, lam = i["kx"], i["ky"], i["lam"]
        k = jnp.stack([kx, ky], axis=-1)
        t, f = farfield.angles_from_unflattened_transverse_wavevectors(k, lam)
        k0 = 2 * jnp.pi / lam[..., None, None]
        if t.shape != kx.shape or f.shape != kx.shape:
            raise StaticFail(f"shapes {t.shape} {f.shape}")
        kt2 = kx**2 + ky**2
        prop = kt2 < k0**2
        return [eq("transverse wavevector (propagating)", jnp.where(prop, (k0 * jnp.sin(t)) ** 2, kt2), kt2),
                true("evanescent is pi/2", jnp.where(kt2 > k0**2, t == jnp.pi / 2, True)),
                eq("azimuth", jnp.cos(f) * jnp.sqrt(kt2), kx), eq("azimuth sine", jnp.sin(f) * jnp.sqrt(kt2), ky)]
    return Case("P19", f"angles_{batch}", {"kx": R(*batch, 1, 2), "ky": R(*batch, 1, 2), "lam": Pos(*batch)}, body,
                assume=lambda i: [i["kx"] ** 2 + i["ky"] ** 2 > 0], bounds=f"batch {batch}, all wavevectors and wavelengths", functions=FN[3:4])


def solid(n, m, batch=()):
    """Interior cells of a uniform grid: solid angle * cos(polar) * k0^2 = cell area."""
    def body(i):
        ia, ib = jnp.meshgrid(jnp.arange(n) - 1.0, jnp.arange(m) - 1.0, indexing="ij")
        k = i["k"] + ia[..., None] * i["a"] + ib[..., None] * i["b"]
        kb = jnp.broadcast_to(k, batch + k.shape)
        lam = jnp.broadcast_to(i["lam"], batch)
        s = farfield.solid_angle_from_unflattened_transverse_wavevectors(kb, lam)
        if s.shape != batch + (n, m):
            raise StaticFail(f"shape {s.shape}")
        k0 = 2 * jnp.pi / i["lam"]
        kz = jnp.sqrt(k0**2 - jnp.sum(k**2, axis=-1))
        area = jnp.abs(cross(i["a"], i["b"]))
        return [eq("interior", (s * k0 * kz)[..., 1:-1, 1:-1], jnp.broadcast_to(area, batch + (n - 2, m - 2)))]
    return Case("P19", f"solid_{n}_{m}_{batch}", {"k": R(2, lo=-0.4, hi=0.4), "a": R(2, lo=-0.3, hi=0.3), "b": R(2, lo=-0.3, hi=0.3), "lam": Pos()}, body,
                assume=lambda i: [(2 * jnp.pi / i["lam"]) ** 2 > 2 * (jnp.sum(i["k"]**2) + 9 * jnp.sum(i["a"]**2) + 9 * jnp.sum(i["b"]**2)) * 3, jnp.abs(cross(i["a"], i["b"])) > 1e-3],
                bounds=f"{n} x {m} uniform grids of propagating waves", functions=FN[4:5], budget_s=25.0)


def integ(en, ex, full, axes, up, tier="quick"):
    n = ex.num_terms
    nd = len(full) + 2
    ax = tuple(a % nd for a in axes)
    nb = (full[ax[0]], full[ax[1]])

    def body(i):
        lv = LV(jnp.asarray([1.0, 0.25]), jnp.asarray([0.0, 1.5]))
        k0 = basis.brillouin_zone_in_plane_wavevector(nb, lv)
        sh = [1] * len(full) + [2]
        sh[ax[0]], sh[ax[1]] = nb
        k0 = (jnp.swapaxes(k0, 0, 1) if ax[0] > ax[1] else k0).reshape(sh)
        lam = jnp.asarray(1.3)

        def run(fn, f=i["f"]):
            return farfield.integrated_flux(f, lam, k0, lv, ex, axes, fn, up)
        everything = run(lambda t, a: jnp.ones_like(t, dtype=bool))
        want = jnp.sum(i["f"], axis=ax + (-2,))
        if everything.shape != want.shape:
            raise StaticFail(f"shape {everything.shape}, expected {want.shape}")
        cone = lambda t, a: t < 0.6  # noqa: E731
        g = [eq("all angles: total flux", everything, want),
             eq("no angles", run(lambda t, a: jnp.zeros_like(t, dtype=bool)), 0 * want),
             eq("cone and complement add up", run(cone) + run(lambda t, a: ~(t < 0.6)), want),
             eq("linear in flux", run(cone, i["s"] * i["f"]), i["s"] * run(cone))]
        if up == 1:
            tw = basis.transverse_wavevectors(k0, lv, ex)
            sel = jnp.sum(tw**2, axis=-1) < (2 * jnp.pi / lam * jnp.sin(0.6)) ** 2
            sel = jnp.concatenate([sel, sel], axis=-1)[..., None]
            g.append(eq("only directions inside the cone", run(cone), jnp.sum(jnp.where(sel, i["f"], 0.0), axis=ax + (-2,))))
        return g
    return Case("P19", f"integrated_{en}_{full}_{axes}_{up}", {"f": R(*full, 2 * n, 2), "s": R()}, body,
                bounds=f"{en}, leading shape {full}, axes {axes}, upsampling {up}; all fluxes (linear), one lattice and wavelength", functions=FN[5:6], tier=tier)


def profile(en, ex, full, axes, tier="quick"):
    n = ex.num_terms
    nd = len(full) + 2
    ax = tuple(a % nd for a in axes)
    nb = (full[ax[0]], full[ax[1]])

    def body(i):
        lv = LV(jnp.asarray([1.0, 0.25]), jnp.asarray([0.0, 1.5]))
        k0 = basis.brillouin_zone_in_plane_wavevector(nb, lv)
        sh = [1] * len(full) + [2]
        sh[ax[0]], sh[ax[1]] = nb
        k0 = (jnp.swapaxes(k0, 0, 1) if ax[0] > ax[1] else k0).reshape(sh)
        lam = jnp.asarray(0.2)
        t, a, s, y = farfield.farfield_profile(i["f"], lam, k0, lv, ex, axes)
        f = farfield.unflatten_flux(i["f"], ex, axes)
        if t.shape[-2:] != f.shape[-4:-2]:
            raise StaticFail("shape")
        p = tuple(target(ex, nb)[1].values())
        return [eq(f"profile times solid angle is the flux {q}", y[(..., *q, slice(None), slice(None))] * s[(..., *q, None, None)], f[(..., *q, slice(None), slice(None))]) for q in p]
    return Case("P19", f"profile_{en}_{full}_{axes}", {"f": R(*full, 2 * n, 2)}, body, bounds=f"{en}, {full}, axes {axes}; all fluxes", functions=FN[6:7], tier=tier)


def cases(tier):
    c = [unflat(en, ex, nb, b) for en, ex in (("E1", E1), ("E3", E3), ("E5", E5), ("EI", EI), ("EA", EA)) for nb in ((1, 1), (2, 3), (3, 1)) for b in ((), (2,))]
    c += [unflat("E9", E9, (4, 3), (), "thorough"), unflat("E9", E9, (2, 2), (2, 2), "thorough")]
    for ex in (("E3", E3), ("EI", EI)):
        for full, axes in (((2, 3), (0, 1)), ((3, 2), (1, 0)), ((2, 3, 2), (0, 1)), ((2, 3, 2), (1, 2)), ((2, 3, 2), (0, 2)), ((2, 3, 2), (2, 0)),
                           ((2, 3, 2), (-3, -5)), ((2, 1, 3), (-4, -3)), ((1, 2, 2, 3), (1, 3)), ((1, 2, 2, 3), (3, 0))):
            c.append(flux_axes(*ex, full, axes))
    for nm, ex in (("E1", E1), ("E3", E3), ("E5", E5), ("E9", E9)):
        for nb in ((1, 1), (2, 3), (3, 2)):
            c.append(kgrid(nm, ex, nb))
    c += [angles(()), angles((2,)), solid(3, 3), solid(3, 4), solid(4, 3, (2,))]
    for full, axes in (((2, 3), (0, 1)), ((3, 2), (1, 0)), ((2, 2, 3), (1, 2)), ((2, 2, 3), (0, 2)), ((2, 3, 2), (-4, -5))):
        for up in (1, 2, 3):
            c.append(integ("E3", E3, full, axes, up))
        c.append(profile("E3", E3, full, axes))
    c += [integ("E9", E9, (2, 2), (0, 1), 2), integ("EI", EI, (2, 3), (0, 1), 1), integ("E9", E9, (3, 3), (0, 1), 4, "thorough"), profile("E9", E9, (2, 3), (0, 1), "thorough")]
    return by_tier(tier, c)
