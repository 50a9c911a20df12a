"""P11: a scattering matrix is exactly the tangential-field continuity of its layers."""
from .layers import *  # noqa: F403

FN = ("scattering.stack_s_matrix", "scattering._pair_s_matrix", "scattering._extend_s_matrix", "scattering.append_layer", "scattering.prepend_layer", "fields.field_conversion_matrix")


def inputs(nl, n, sym, batch, na, mu):
    inp = {**gspec(batch), "d": dspec(nl, sym), "a0": C(*batch, 2 * n, na), "bn": C(*batch, 2 * n, na)}
    for k in range(nl):
        inp.update(lspec(f"L{k}", n, batch, tuple(s.split(":")[1] for s in sym if s.startswith(f"{k}:")), seed=k, mu=mu))
    return inp


def amps(i, inp):
    return [jnp.abs(i[k]) > 0 for k in inp if k.endswith("_q")]


def pair(en, ex, sym, batch=(), na=1, mu=False, how="stack", tier="quick"):
    n = ex.num_terms
    inp = inputs(2, n, sym, batch, na, mu)

    def body(i):
        L = [build(i, f"L{k}", ex) for k in range(2)]
        d = [i["d"][0], i["d"][1]]
        if how == "stack":
            s = scattering.stack_s_matrix(L, d)
        elif how == "append":
            s = scattering.append_layer(scattering.stack_s_matrix(L[:1], d[:1]), L[1], d[1])
        else:
            s = scattering.prepend_layer(scattering.stack_s_matrix(L[1:], d[1:]), L[0], d[0])
        a1, b0 = apply(s, i["a0"], i["bn"])
        g = [eq("tangential fields are continuous", tangential(fields_at(i["a0"], b0, d[0], L[0], d[0])), tangential(fields_at(a1, i["bn"], 0.0, L[1], d[1])))]
        for nm, got, want in (("start layer", s.start_layer_solve_result, L[0]), ("end layer", s.end_layer_solve_result, L[1])):
            g.append(eq(f"{nm} eigenvalues", got.eigenvalues, want.eigenvalues))
            g.append(eq(f"{nm} eigenvectors", got.eigenvectors, want.eigenvectors))
        g += [eq("start thickness", s.start_layer_thickness, d[0]), eq("end thickness", s.end_layer_thickness, d[1])]
        return g
    return Case("P11", f"{how}_{en}_{'-'.join(sym)}_{batch}_{na}{'_mu' if mu else ''}", inp, body, assume=lambda i: amps(i, inp), budget_s=90.0,
                bounds=f"two layers, {en}, batch {batch}; symbolic: incident amplitudes, {', '.join(sym)}", functions=FN, tier=tier, reduce_to=("a0", "bn"))


def triple(en, ex, sym, how, na=1, tier="quick"):
    """Three layers, checked through the interior amplitudes implied by the first pair."""
    n = ex.num_terms
    inp = inputs(3, n, sym, (), na, False)

    def body(i):
        L = [build(i, f"L{k}", ex) for k in range(3)]
        d = [i["d"][k] for k in range(3)]
        if how == "stack":
            s = scattering.stack_s_matrix(L, d)
        elif how == "append":
            s = scattering.append_layer(scattering.stack_s_matrix(L[:2], d[:2]), L[2], d[2])
        else:
            s = scattering.prepend_layer(scattering.stack_s_matrix(L[1:], d[1:]), L[0], d[0])
        a2, b0 = apply(s, i["a0"], i["bn"])
        # transfer the fields of layer 0 through layer 1: field conversion is invertible
        f = fields.field_conversion_matrix(L[1]) @ jnp.zeros((4 * n, na))  # noqa: F841  (same API)
        t0 = tangential_raw(fields_at(i["a0"], b0, d[0], L[0], d[0]))
        c = jnp.linalg.solve(fields.field_conversion_matrix(L[1]), t0)
        a1, b1s = c[: 2 * n], c[2 * n:]
        b1 = fields.propagate_amplitude(b1s, -d[1], L[1])
        return [eq("fields carried through the middle layer match the last one", tangential(fields_at(a1, b1, d[1], L[1], d[1])), tangential(fields_at(a2, i["bn"], 0.0, L[2], d[2])))]
    return Case("P11", f"triple_{how}_{en}_{'-'.join(sym)}", inp, body, assume=lambda i: amps(i, inp), budget_s=90.0,
                bounds=f"three layers, {en}; symbolic: incident amplitudes, {', '.join(sym)}", functions=FN, tier=tier, reduce_to=("a0", "bn"))


def tangential_raw(f):
    (ex, ey, _), (hx, hy, _) = f
    return jnp.concatenate([-ey, ex, hx, hy], axis=-2)


def single(en, ex, batch=()):
    n = ex.num_terms

    def body(i):
        L = build(i, "L", ex)
        s = scattering.stack_s_matrix([L], [i["d"]])
        e = jnp.broadcast_to(jnp.eye(2 * n), batch + (2 * n, 2 * n))
        return [eq("s11", s.s11, e), eq("s22", s.s22, e), eq("s12", s.s12, 0 * e), eq("s21", s.s21, 0 * e), eq("thickness", s.start_layer_thickness, i["d"]), eq("end thickness", s.end_layer_thickness, i["d"])]
    return Case("P11", f"single_{en}_{batch}", {**gspec(batch), **lspec("L", n, batch, ("q", "phi")), "d": Pos()}, body, bounds=f"one layer, {en}", functions=FN[:1])


def same(en, ex, sym):
    """An interface between equal layers does nothing but propagate: no reflection."""
    n = ex.num_terms

    def body(i):
        L = build(i, "L", ex)
        s = scattering.stack_s_matrix([L, L, L], [i["d"][k] for k in range(3)])
        ph = lambda t: utils.diag(jnp.exp(1j * i["L_q"] * t))  # noqa: E731
        return [eq("s11", s.s11, ph(i["d"][0] + i["d"][1])), eq("s22", s.s22, ph(i["d"][1] + i["d"][2])), eq("s12", s.s12, 0 * s.s12), eq("s21", s.s21, 0 * s.s21)]
    inp = {**gspec(), **lspec("L", n, (), sym), "d": R(3, lo=0.1, hi=1.0)}
    return Case("P11", f"same_{en}_{'-'.join(sym)}", inp, body, assume=lambda i: nz(i["L_q"]), bounds=f"{en}: three equal layers; symbolic: thicknesses, {', '.join(sym)}", functions=FN)


def fresnel(pol):
    """Two uniform media at oblique incidence (plane of incidence x-z): Fresnel coefficients for E."""
    def body(i):
        w = 1 / i["w"]
        kx, q1, q2 = i["kx"], i["q1"], i["q2"]
        k = jnp.stack([kx, 0 * kx])
        e1, e2 = (kx**2 + q1**2) / w**2, (kx**2 + q2**2) / w**2
        L1, L2 = (uniform(i, i["w"], k, (e + 0j)[None, None]) for e in (e1, e2))
        s = scattering.stack_s_matrix([L1, L2], [jnp.zeros(()), jnp.zeros(())])
        # choose forward amplitudes giving a pure polarization: phi is the H field
        h = jnp.asarray([[0.0], [1.0]]) if pol == "p" else jnp.asarray([[1.0], [0.0]])
        a0 = jnp.linalg.solve(L1.eigenvectors, h + 0j)
        at, br = apply(s, a0, 0 * a0)
        z = jnp.zeros_like(a0)
        (ix, iy, _), _ = fields.fields_from_wave_amplitudes(a0, z, L1)
        (rx, ry, _), _ = fields.fields_from_wave_amplitudes(z, br, L1)
        (tx, ty, _), _ = fields.fields_from_wave_amplitudes(at, z, L2)
        if pol == "s":
            r = (q1 - q2) / (q1 + q2)
            return [eq("reflected", ry, r * iy), eq("transmitted", ty, (1 + r) * iy), eq("no cross polarization", rx, 0 * rx)]
        r = -(e2 * q1 - e1 * q2) / (e2 * q1 + e1 * q2)
        return [eq("reflected", rx, r * ix), eq("transmitted", tx, (1 + r) * ix), eq("no cross polarization", ry, 0 * ry)]
    return Case("P11", f"fresnel_{pol}", {"w": Pos(), "kx": R(), "q1": Pos(), "q2": Pos()}, body, assume=lambda i: [i["kx"] ** 2 > 0.01], bounds=f"{pol} polarization, all lossless media and angles", functions=FN)


def slab():
    """Airy formula for a slab at normal incidence (reflection and transmission)."""
    def body(i):
        k = jnp.zeros(2)
        n = [i["n1"], i["n2"], i["n3"]]
        L = [uniform(i, i["w"], k, (x**2 + 0j)[None, None]) for x in n]
        d = i["d"]
        s = scattering.stack_s_matrix(L, [jnp.zeros(()), d, jnp.zeros(())])
        w = 1 / i["w"]
        r12, r23 = (n[0] - n[1]) / (n[0] + n[1]), (n[1] - n[2]) / (n[1] + n[2])
        ph = jnp.exp(1j * w * n[1] * d)
        r = (r12 + r23 * ph**2) / (1 + r12 * r23 * ph**2)
        t = (1 + r12) * (1 + r23) * ph / (1 + r12 * r23 * ph**2)
        a0 = i["a"]
        z = 0 * a0
        at, br = apply(s, a0, z)
        fi, fr, ft = (fields.fields_from_wave_amplitudes(x, y, l)[0] for x, y, l in ((a0, z, L[0]), (z, br, L[0]), (at, z, L[2])))
        return [eq("Ex reflected", fr[0], r * fi[0]), eq("Ey reflected", fr[1], r * fi[1]), eq("Ex transmitted", ft[0], t * fi[0]), eq("Ey transmitted", ft[1], t * fi[1])]
    return Case("P11", "slab_normal_incidence", {"w": Pos(), "n1": Pos(), "n2": Pos(), "n3": Pos(), "d": Pos(), "a": C(2, 1)}, body, bounds="all slabs at normal incidence", functions=FN)


def cases(tier):
    c = [single("E1", E1), single("E2", E2, (2,)), same("E1", E1, ("q", "phi")), same("E2", E2, ("q",)), same("E1", E1, ("q", "ez", "mt"))]
    c += [pair("E1", E1, ("0:q", "1:q", "d")), pair("E1", E1, ("0:phi", "1:q")), pair("E1", E1, ("1:phi",)), pair("E1", E1, ("0:ez", "1:ez", "0:mt"), mu=True), pair("E1", E1, ("1:mt", "d"), mu=True),
          pair("E1", E1, ("d", "0:q"), (2,), 2), pair("E1", E1, ("d",), (2, 1), 1), pair("E2", E2, ("d",), (), 2), pair("E2", E2, ("0:q",)), pair("E2", E2, ("1:q",), mu=True), pair("E3", E3, ("d0",)), pair("E3", E3, ("d1",))]
    for h in ("append", "prepend"):
        c += [pair("E1", E1, ("0:q", "1:q", "d"), how=h), pair("E1", E1, ("0:phi",), how=h), pair("E2", E2, ("d",), how=h), pair("E1", E1, ("d", "1:mt"), how=h, mu=True)]
    c += [triple("E1", E1, ("d",), h) for h in ("stack", "append", "prepend")] + [triple("E1", E1, ("1:q",), h) for h in ("stack", "append", "prepend")]
    c += [fresnel("s"), fresnel("p"), slab()]
    c += [pair("E1", E1, ("0:q", "1:q", "0:phi", "1:phi"), tier="thorough"), pair("E2", E2, ("0:phi",), tier="thorough"), triple("E2", E2, ("d1",), "stack", tier="thorough"), pair("E5", E5, ("d0",), tier="thorough")]
    return by_tier(tier, c)
