"""P14: amplitudes inside a layer and inside a stack are consistent with propagation and scattering."""
from .layers import *  # noqa: F403

FN = ("fields.propagate_amplitude", "fields.colocate_amplitudes", "fields.amplitudes_interior", "fields.stack_amplitudes_interior", "fields.stack_amplitudes_interior_with_source")


def prop(en, ex, batch=(), na=1):
    n = ex.num_terms

    def body(i):
        L = build(i, "L", ex)
        a, b, x, y, d = i["a"], i["b"], i["x"], i["y"], i["d"]
        p = lambda amp, t: fields.propagate_amplitude(amp, t, L)  # noqa: E731
        ph = jnp.exp(1j * i["L_q"][..., None] * x)
        ca, cb = fields.colocate_amplitudes(a, b, x, L, d)
        if ca.shape != a.shape or cb.shape != b.shape:
            raise StaticFail("shape")
        c0, cd = fields.colocate_amplitudes(a, b, 0.0, L, d), fields.colocate_amplitudes(a, b, d, L, d)
        return [eq("phase", p(a, x), a * ph), eq("additive in distance", p(p(a, x), y), p(a, x + y)), eq("zero distance", p(a, 0.0), a), eq("inverse", p(p(a, x), -x), a),
                eq("colocated forward", ca, p(a, x)), eq("colocated backward", p(cb, x), p(b, d)), eq("forward at the start", c0[0], a), eq("backward at the end", cd[1], b)]
    return Case("P14", f"propagate_{en}_{batch}_{na}", {**gspec(batch), **lspec("L", n, batch, ("q",)), "a": C(*batch, 2 * n, na), "b": C(*batch, 2 * n, na), "x": R(), "y": R(), "d": Pos()}, body,
                bounds=f"{en}, batch {batch}: all eigenvalues, amplitudes, distances", functions=FN[:2])


def smat(i, t, ex):
    n2 = 2 * ex.num_terms
    L = build(i, "L", ex)
    return scattering.ScatteringMatrix(*[i[f"{t}{k}"] for k in ("11", "12", "21", "22")], L, jnp.ones(()), L, jnp.ones(())), n2


def interior(batch=(), sym=("p12", "r21"), na=1, tier="quick"):
    """For arbitrary scattering matrices before and after: interior amplitudes satisfy both of them."""
    def body(i):
        p, _ = smat(i, "p", E1)
        r, _ = smat(i, "r", E1)
        a0, bn = i["a0"], i["bn"]
        ai, bi = fields.amplitudes_interior(p, r, a0, bn)
        if ai.shape != a0.shape or bi.shape != bn.shape:
            raise StaticFail("shape")
        return [eq("forward wave emerges from the part before", ai, p.s11 @ a0 + p.s12 @ bi), eq("backward wave emerges from the part after", bi, r.s21 @ ai + r.s22 @ bn)]
    inp = {**gspec(batch), **lspec("L", 1, batch), "a0": C(*batch, 2, na), "bn": C(*batch, 2, na)}
    for j, t in enumerate("pr"):
        for m, k in enumerate(("11", "12", "21", "22")):
            inp[t + k] = C(*batch, 2, 2) if t + k in sym else K(rnum(7 * j + m, *batch, 2, 2))
    return Case("P14", f"interior_{batch}_{'-'.join(sym)}_{na}", inp, body, bounds=f"batch {batch}, one order; symbolic: amplitudes, {', '.join(sym)}", functions=FN[2:3], tier=tier)


def stack(nl, ex, sym, na=1, tier="quick", en="E1"):
    """Interior amplitudes of a stack: outer amplitudes agree with the stack's scattering matrix and
    tangential fields are continuous at every interior interface."""
    n = ex.num_terms

    def body(i):
        Ls = [build(i, f"L{k}", ex) for k in range(nl)]
        ds = [i["d"][k] for k in range(nl)]
        sm = scattering.stack_s_matrices_interior(Ls, ds)
        amps = fields.stack_amplitudes_interior(sm, i["a0"], i["bn"])
        if len(amps) != nl:
            raise StaticFail(f"{len(amps)} layers returned, expected {nl}")
        an, b0 = apply(scattering.stack_s_matrix(Ls, ds), i["a0"], i["bn"])
        g = [eq("incident forward", amps[0][0], i["a0"]), eq("incident backward", amps[-1][1], i["bn"]), eq("reflected", amps[0][1], b0), eq("transmitted", amps[-1][0], an)]
        for k in range(nl - 1):
            fa = fields_at(*amps[k], ds[k], Ls[k], ds[k])
            fb = fields_at(*amps[k + 1], 0.0, Ls[k + 1], ds[k + 1])
            g.append(eq(f"continuity at interface {k}", tangential(fa), tangential(fb)))
        return g
    inp = {**gspec(), "d": dspec(nl, sym), "a0": C(2 * n, na), "bn": C(2 * n, na)}
    for k in range(nl):
        inp.update(lspec(f"L{k}", n, (), tuple(s.split(":")[1] for s in sym if s.startswith(f"{k}:")), seed=k))
    return Case("P14", f"stack_{nl}_{en}_{'-'.join(sym)}_{na}", inp, body, assume=lambda i: [jnp.abs(i[k]) > 0 for k in inp if k.endswith("_q")],
                bounds=f"{nl} layers, {en}; symbolic: incident amplitudes, {', '.join(sym)}", functions=FN[3:4], tier=tier)


def with_source(n1, n2, sym):
    def body(i):
        L1 = [build(i, f"L{k}", E1) for k in range(n1)]
        L2 = [build(i, f"L{k + n1}", E1) for k in range(n2)]
        d1, d2 = [i["d"][k] for k in range(n1)], [i["d"][n1 + k] for k in range(n2)]
        s1, s2 = scattering.stack_s_matrices_interior(L1, d1), scattering.stack_s_matrices_interior(L2, d2)
        amps = fields.stack_amplitudes_interior_with_source(s1, s2, i["b"], i["a"])
        if len(amps) != n1 + n2:
            raise StaticFail("number of layers")
        z = jnp.zeros_like(i["a"])
        ref = fields.stack_amplitudes_interior(s1, z, i["b"]) + fields.stack_amplitudes_interior(s2, i["a"], z)
        g = [eq("nothing incident from the start", amps[0][0], z), eq("nothing incident from the end", amps[-1][1], z),
             eq("source side before", amps[n1 - 1][1], i["b"]), eq("source side after", amps[n1][0], i["a"])]
        for k in range(n1 + n2):
            g += [eq(f"forward {k}", amps[k][0], ref[k][0]), eq(f"backward {k}", amps[k][1], ref[k][1])]
        return g
    inp = {**gspec(), "d": dspec(n1 + n2, sym), "a": C(2, 2), "b": C(2, 2)}
    for k in range(n1 + n2):
        inp.update(lspec(f"L{k}", 1, (), ("q",) if f"{k}:q" in sym else (), seed=k))
    return Case("P14", f"with_source_{n1}_{n2}_{'-'.join(sym)}", inp, body, assume=lambda i: [jnp.abs(i[k]) > 0 for k in inp if k.endswith("_q")],
                bounds=f"{n1} layers before and {n2} after the source; symbolic: amplitudes, {', '.join(sym)}", functions=FN[4:5])


def cases(tier):
    c = [prop("E1", E1), prop("E1", E1, (2,), 2), prop("E2", E2, (), 2), prop("E3", E3, (2, 1), 1), prop("E5", E5)]
    c += [interior(sym=("p12", "r21")), interior(sym=("p11", "r22", "p12")), interior(sym=("p11", "p12", "p21", "p22")), interior(sym=("r11", "r12", "r21", "r22")), interior((2,), ("p12", "r21"), 2), interior((2, 1), ("p11", "r21"), 2)]
    c += [stack(1, E1, ("0:q",)), stack(2, E1, ("d",), 2), stack(2, E1, ("0:q",)), stack(2, E1, ("1:q", "d")), stack(2, E1, ("0:phi",)), stack(3, E1, ("d",)), stack(3, E1, ("1:q",)), stack(3, E1, ("1:phi",)), stack(4, E1, ("d1",), 1), stack(4, E1, ("d2",), 1), stack(2, E2, ("d",), 1, "quick", "E2"),
          stack(4, E1, ("2:q",), 1, "thorough"), stack(5, E1, ("d2",), 1, "thorough"), stack(3, E2, ("d",), 1, "thorough", "E2")]
    c += [with_source(1, 1, ("0:q",)), with_source(2, 1, ("d",)), with_source(1, 2, ("d",)), with_source(2, 2, ("1:q",))]
    return by_tier(tier, c)
