"""P18: internal sources radiate exactly the field jump that Maxwell's equations demand."""
from .layers import *  # noqa: F403

FN = ("sources.amplitudes_for_source", "sources.polarization_terms", "sources.emission_matrix", "sources.dirac_delta_source", "sources.gaussian_source")


def orders(i, ex, k):
    """Reference wavevectors of the expansion orders for the scaled lattice 2 pi (u, v)."""
    u, v = i["u"], i["v"]
    c = cross(u, v)[..., None]
    bu = jnp.stack([v[..., 1], -v[..., 0]], axis=-1) / c
    bv = jnp.stack([-u[..., 1], u[..., 0]], axis=-1) / c
    m = jnp.asarray(onp.asarray(ex.basis_coefficients), dtype=float)
    return k[..., None, :] + m[:, :1] * bu[..., None, :] + m[:, 1:] * bv[..., None, :]


def jump(i, ex, L, jx, jy, jz):
    """Tangential (ex, ey, hx, hy) after minus before the current sheet."""
    kt = orders(i, ex, i["k"])
    e = L.inverse_z_permittivity_matrix @ jz * i["w"][..., None, None]
    parts = [kt[..., :1] * e, kt[..., 1:] * e, jy, -jx]
    full = onp.broadcast_shapes(*[p.shape for p in parts])
    return jnp.concatenate([jnp.broadcast_to(p, full) for p in parts], axis=-2)


def source(en, ex, n1, n2, sym, batch=(), na=1, jb=None, mu=False, tier="quick"):
    n = ex.num_terms
    jb = batch if jb is None else jb

    def body(i):
        Ls = [build(i, f"L{k}", ex) for k in range(n1 + n2)]
        ds = [i["d"][k] for k in range(n1 + n2)]
        s1, s2 = scattering.stack_s_matrix(Ls[:n1], ds[:n1]), scattering.stack_s_matrix(Ls[n1:], ds[n1:])
        b0, a1, b1, a2, b2, an = sources.amplitudes_for_source(i["jx"], i["jy"], i["jz"], s1, s2)
        full = onp.broadcast_shapes(batch, jb) + (2 * n, na)
        for x in (b0, a1, b1, a2, b2, an):
            if x.shape != full:
                raise StaticFail(f"amplitude shape {x.shape}, expected {full}")
        z = jnp.zeros_like(b1)
        ra1, rb0 = apply(s1, z, b1)
        ran, rb2 = apply(s2, a2, z)
        d1, d2 = ds[n1 - 1], ds[n1]
        before = fields_at(a1, b1, d1, Ls[n1 - 1], d1)
        after = fields_at(a2, b2, 0.0, Ls[n1], d2)
        got = tangential(after) - tangential(before)
        ref = jnp.broadcast_to(jump(i, ex, Ls[n1 - 1], i["jx"], i["jy"], i["jz"]), got.shape)
        return [eq("forward amplitude before the source", a1, ra1), eq("backward amplitude leaving the start", b0, rb0),
                eq("backward amplitude after the source", b2, rb2), eq("forward amplitude leaving the end", an, ran),
                eq("electric jump", got[..., : 2 * n, :], ref[..., : 2 * n, :]), eq("magnetic jump", got[..., 2 * n :, :], ref[..., 2 * n :, :])]
    gs = tuple(s for s in sym if s in ("w", "k"))
    inp = {**gspec(batch, gs), "d": dspec(n1 + n2, sym), "jx": C(*jb, n, na), "jy": C(*jb, n, na), "jz": C(*jb, n, na)}
    for k in range(n1 + n2):
        inp.update(lspec(f"L{k}", n, batch, tuple(s.split(":")[1] for s in sym if s.startswith(f"{k}:")), seed=k, mu=mu))
    return Case("P18", f"source_{en}_{n1}_{n2}_{'-'.join(sym)}_{batch}_{jb}_{na}{'_mu' if mu else ''}", inp, body,
                assume=lambda i: [jnp.abs(i[k]) > 0 for k in inp if k.endswith("_q")], budget_s=60.0,
                bounds=f"{n1} layers before, {n2} after; {en}; batch {batch}, source batch {jb}, {na} sources; symbolic: all dipole amplitudes, {', '.join(sym) or 'nothing else'}", functions=FN[:3], tier=tier)


def pol(en, ex, sym, batch, jb, na):
    """The polarization vector itself, for every batch combination of source and layer."""
    n = ex.num_terms

    def body(i):
        L = build(i, "L", ex)
        p = sources.polarization_terms(i["jx"], i["jy"], i["jz"], L)
        ref = jump(i, ex, L, i["jx"], i["jy"], i["jz"])
        w = i["w"][..., None, None]
        e = jnp.concatenate([-ref[..., n : 2 * n, :] / w, ref[..., :n, :] / w], axis=-2)
        full = onp.broadcast_shapes(batch, jb) + (4 * n, na)
        if p.shape != full:
            raise StaticFail(f"shape {p.shape}, expected {full}")
        return [eq("electric part", p[..., : 2 * n, :], jnp.broadcast_to(e, full[:-2] + (2 * n, na))), eq("magnetic part", p[..., 2 * n :, :], jnp.broadcast_to(jnp.concatenate([i["jy"], -i["jx"]], axis=-2), full[:-2] + (2 * n, na)))]
    inp = {**gspec(batch, ("w", "k", "u", "v")), **lspec("L", n, batch, sym), "jx": C(*jb, n, na), "jy": C(*jb, n, na), "jz": C(*jb, n, na)}
    return Case("P18", f"pol_{en}_{batch}_{jb}_{na}", inp, body, assume=lambda i: [jnp.abs(cross(i["u"], i["v"])) > 0.01], bounds=f"{en}, layer batch {batch}, source batch {jb}; all wavevectors, lattices, wavelengths, currents and z-permittivities", functions=FN[1:2])


def mixed(b1, b2):
    """Substacks whose layers have different (broadcastable) batch shapes."""
    def body(i):
        A = [build(i, "A", E1), build({**i, "k": i["k2"], "w": i["w2"], "u": i["u2"], "v": i["v2"]}, "B", E1)]
        s1, s2 = scattering.stack_s_matrix(A, [i["d"][0], i["d"][1]]), scattering.stack_s_matrix(A[::-1], [i["d"][2], i["d"][3]])
        full = onp.broadcast_shapes(b1, b2)
        z = jnp.zeros(full + (2, 1), dtype=complex)
        b0, a1, bb, aa, b2_, an = sources.amplitudes_for_source(i["jx"], i["jy"], i["jz"], s1, s2)
        up = fields_at(aa, b2_, 0.0, A[1], i["d"][2])
        dn = fields_at(a1, bb, i["d"][1], A[1], i["d"][1])
        got = tangential(up) - tangential(dn)
        k = jnp.broadcast_to(i["k2"], full + (2,))[..., None, :]
        e = A[1].inverse_z_permittivity_matrix @ i["jz"] * i["w2"][..., None, None]
        ref = jnp.concatenate([k[..., :1] * e, k[..., 1:] * e] + [jnp.broadcast_to(x, full + (1, 1)) for x in (i["jy"], -i["jx"])], axis=-2)
        return [eq("jump", got, jnp.broadcast_to(ref, got.shape)), eq("start", b0, apply(s1, z, bb)[1]), eq("end", an, apply(s2, aa, z)[0])]
    g2 = {f"{k}2": v for k, v in gspec(b2).items()}
    inp = {**gspec(b1), **g2, **lspec("A", 1, b1, seed=1), **lspec("B", 1, b2, seed=2), "d": K([0.0, 0.0, 0.0, 0.0]), "jx": C(1, 1), "jy": C(1, 1), "jz": C(1, 1)}
    return Case("P18", f"mixed_batch_{b1}_{b2}", inp, body, bounds=f"outer layers with batch {b1}, layers at the source with batch {b2}; all currents", functions=FN[:3])


def deltas(en, ex, batch, ns, gauss, kb=None):
    """Coefficients of a localized source are those of its Fourier series."""
    kb = batch if kb is None else kb

    def body(i):
        lv = LV(2 * jnp.pi * i["u"], 2 * jnp.pi * i["v"])
        kt = orders(i, ex, i["k"])
        arg = kt[..., :1] * i["r"][:, 0] + kt[..., 1:] * i["r"][:, 1]
        want = jnp.exp(-1j * arg)
        full = onp.broadcast_shapes(batch, kb) + (ex.num_terms, ns)
        d = sources.dirac_delta_source(i["r"], i["k"], lv, ex)
        if d.shape != full:
            raise StaticFail(f"shape {d.shape}, expected {full}")
        g = [eq("dirac", d, jnp.broadcast_to(want, full))]
        if gauss:
            y = sources.gaussian_source(i["f"], i["r"], i["k"], lv, ex)
            if y.shape != full:
                raise StaticFail(f"shape {y.shape}, expected {full}")
            mag = jnp.exp(-(i["f"] ** 2) / (16 * jnp.log(2)) * jnp.sum(kt**2, axis=-1))[..., None]
            g += [eq("gaussian", y, jnp.broadcast_to(mag * want, full)), eq("zero width is a delta", sources.gaussian_source(0.0 * i["f"], i["r"], i["k"], lv, ex), d)]
        return g
    inp = {"k": R(*kb, 2), "u": R(*batch, 2), "v": R(*batch, 2), "r": R(ns, 2), "f": Pos()}
    return Case("P18", f"localized_{en}_{batch}_{kb}_{ns}{'_gauss' if gauss else ''}", inp, body, assume=lambda i: [jnp.abs(cross(i["u"], i["v"])) > 0.01],
                bounds=f"{en}, lattice batch {batch}, wavevector batch {kb}, {ns} sources; all lattices, wavevectors, positions, widths", functions=FN[3:])


def reject():
    def body(i):
        lv = LV(2 * jnp.pi * i["u"], 2 * jnp.pi * i["v"])
        L = build(i, "L", E1)
        z = i["j"]
        fs = [("dirac location rank", lambda: sources.dirac_delta_source(z[0], i["k"], lv, E1)), ("dirac location size", lambda: sources.dirac_delta_source(jnp.ones((1, 3)), i["k"], lv, E1)),
              ("gaussian location rank", lambda: sources.gaussian_source(1.0, z[0], i["k"], lv, E1)), ("wavevector size", lambda: sources.dirac_delta_source(jnp.ones((1, 2)), jnp.ones(3), lv, E1)),
              ("gaussian wavevector size", lambda: sources.gaussian_source(1.0, jnp.ones((1, 2)), jnp.ones(3), lv, E1)),
              ("different dipole shapes", lambda: sources.polarization_terms(z, z, jnp.ones((1, 2)), L)), ("dipole rank", lambda: sources.polarization_terms(z[0], z[0], z[0], L))]
        return [expect_raises(a, b) for a, b in fs]
    return Case("P18", "reject_shapes", {**gspec(), **lspec("L", 1), "j": R(1, 1)}, body, bounds="bad shapes", functions=FN)


def cases(tier):
    c = [source("E1", E1, 1, 1, ()), source("E1", E1, 1, 1, ("d",)), source("E1", E1, 1, 1, ("0:iez", "k", "w")), source("E1", E1, 1, 1, ("0:q",)), source("E1", E1, 1, 1, ("1:q",)), source("E1", E1, 2, 2, ("d1",)),
         source("E1", E1, 2, 1, ("d1",), (), 2), source("E1", E1, 2, 1, ("0:q",)), source("E1", E1, 1, 2, ("2:q",)), source("E1", E1, 1, 1, ("0:phi",)), source("E1", E1, 1, 2, ("d1", "d2"), (), 1, None, True),
         source("E2", E2, 1, 1, ()), source("E2", E2, 2, 1, ("dz",)), source("E3", E3, 2, 2, ("dz",)), source("E2", E2, 1, 1, ("0:iez",), (), 2), source("E3", E3, 1, 1, ()), source("E1", E1, 2, 1, ("dz",), (2,)), source("E1", E1, 1, 1, (), (2, 1), 1, (1, 2)), source("E1", E1, 1, 1, (), (2,), 3, ()), source("E1", E1, 1, 1, (), (), 1, (2,))]
    c += [pol(en, ex, s, b, jb, na) for en, ex, s, b, jb, na in [("E1", E1, ("iez",), (), (), 1), ("E2", E2, ("iez",), (), (), 2), ("E5", E5, (), (), (), 1), ("EA", EA, ("iez",), (), (), 1), ("E2", E2, ("iez",), (2,), (), 1),
                                                                ("E2", E2, ("iez",), (2,), (2,), 1), ("E1", E1, ("iez",), (), (2,), 1), ("E1", E1, ("iez",), (2, 1), (3,), 2), ("E1", E1, ("iez",), (2, 2), (2, 1), 1), ("E1", E1, ("iez",), (2,), (2, 2), 1)]]
    c += [mixed((2,), (1,)), mixed((1,), (2,)), mixed((), (2,)), mixed((2,), ())]
    c += [deltas("E1", E1, (), 1, True), deltas("EA", EA, (), 2, True), deltas("E5", E5, (2,), 1, False), deltas("E2", E2, (), 3, True, (2,)), deltas("E2", E2, (2,), 1, True, ()), deltas("E1", E1, (3, 1), 2, False, (2,)), reject()]
    if tier == "thorough":
        c += [source("E1", E1, 1, 1, ("0:q", "1:q", "d")), source("E1", E1, 2, 2, ("d1", "d2")), source("E1", E1, 2, 2, ("d2",)), source("E2", E2, 2, 2, ()), source("E1", E1, 1, 1, ("0:phi", "0:q")), source("E2", E2, 1, 1, ("0:q",)), source("E3", E3, 2, 2, ()), source("E5", E5, 1, 1, ())]
    return by_tier(tier, c)
