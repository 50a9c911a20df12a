"""P12: every way of assembling a stack gives the same scattering matrix."""
from .layers import *  # noqa: F403

FN = ("scattering.stack_s_matrix", "scattering.stack_s_matrix_scan", "scattering.stack_s_matrices_interior", "scattering.redheffer_star_product", "scattering.append_layer",
      "scattering.prepend_layer", "scattering.set_end_layer_thickness", "scattering.set_start_layer_thickness", "scattering.solve")


def inputs(nl, n, sym, batch=()):
    """"simple" in sym: decoupled polarizations (diagonal eigenvectors, no y wavevector), for longer stacks."""
    inp = {**gspec(batch), "d": dspec(nl, sym)}
    simple = "simple" in sym
    if simple:
        inp["k"] = K(onp.array([0.25, 0.0]))
        inp["u"] = K(onp.array([2.0, 0.0]))
    for k in range(nl):
        if simple:
            inp.update(lspec(f"L{k}", n, batch, ("q",) if f"{k}:q" in sym else (), seed=k))
            inp[f"L{k}_phi"] = K(onp.diag([1.0 + 0.5 * ((k + j) % 3) for j in range(2 * n)]))
            inp[f"L{k}_ez"] = K(onp.diag([1.0 + k] * n))
            continue
        inp.update(lspec(f"L{k}", n, batch, tuple(s.split(":")[1] for s in sym if s.startswith(f"{k}:")), seed=k))
    return inp


def ass(inp):
    return lambda i: [jnp.abs(i[k]) > 0 for k in inp if k.endswith("_q")]


def ends(g, nm, s, L0, d0, LN, dN):
    g += [eq(f"{nm}: start thickness", s.start_layer_thickness, d0), eq(f"{nm}: end thickness", s.end_layer_thickness, dN),
          eq(f"{nm}: start layer", s.start_layer_solve_result.eigenvectors, L0.eigenvectors), eq(f"{nm}: end layer", s.end_layer_solve_result.eigenvectors, LN.eigenvectors),
          eq(f"{nm}: start eigenvalues", s.start_layer_solve_result.eigenvalues, L0.eigenvalues), eq(f"{nm}: end eigenvalues", s.end_layer_solve_result.eigenvalues, LN.eigenvalues)]


def assemble(nl, en, ex, sym, what, batch=(), tier="quick", x64=False):
    inp = inputs(nl, ex.num_terms, sym, batch)

    def body(i):
        L = [build(i, f"L{k}", ex) for k in range(nl)]
        d = [i["d"][k] for k in range(nl)]
        kw = {"force_x64_solve": True} if x64 else {}
        S = lambda a, b: scattering.stack_s_matrix(L[a:b], d[a:b])  # noqa: E731
        s = S(0, nl)
        if not jnp.shape(s.s11) == batch + (2 * ex.num_terms,) * 2:
            raise StaticFail("shape")
        ref = blocks(s)
        g = []
        outs = {}
        if what == "append":
            for m in range(1, nl):
                t = S(0, m)
                for k in range(m, nl):
                    t = scattering.append_layer(t, L[k], d[k], **kw)
                outs[f"append from {m}"] = t
        if what == "prepend":
            for m in range(1, nl):
                t = S(m, nl)
                for k in range(m - 1, -1, -1):
                    t = scattering.prepend_layer(t, L[k], d[k], **kw)
                outs[f"prepend from {m}"] = t
        if what == "star":
            for m in range(1, nl):
                outs[f"star at {m}"] = scattering.redheffer_star_product(S(0, m), S(m, nl), **kw)
        if what == "scan":
            LL = jax.tree_util.tree_map(lambda *x: jnp.stack(x), *L)
            outs["scan"] = scattering.stack_s_matrix_scan(LL, i["d"], **kw)
        if what == "x64":
            outs["stack"] = scattering.stack_s_matrix(L, d, force_x64_solve=True)
        for nm, t in outs.items():
            g.append(eq(nm, blocks(t), ref))
            ends(g, nm, t, L[0], d[0], L[-1], d[-1])
        return g
    return Case("P12", f"{what}_{nl}_{en}_{'-'.join(sym)}_{batch}{'_x64' if x64 else ''}", inp, body, assume=ass(inp), budget_s=40.0,
                bounds=f"{nl} layers, {en}, batch {batch}; symbolic: {', '.join(sym)}", functions=FN, tier=tier)


def interior(nl, en, ex, sym, tier="quick"):
    inp = inputs(nl, ex.num_terms, sym)

    def body(i):
        L = [build(i, f"L{k}", ex) for k in range(nl)]
        d = [i["d"][k] for k in range(nl)]
        got = scattering.stack_s_matrices_interior(L, d)
        if len(got) != nl:
            raise StaticFail(f"{len(got)} pairs")
        g = []
        for k, (p, r) in enumerate(got):
            g += [eq(f"before {k}", blocks(p), blocks(scattering.stack_s_matrix(L[: k + 1], d[: k + 1]))), eq(f"after {k}", blocks(r), blocks(scattering.stack_s_matrix(L[k:], d[k:])))]
            ends(g, f"before {k}", p, L[0], d[0], L[k], d[k])
            ends(g, f"after {k}", r, L[k], d[k], L[-1], d[-1])
        return g
    return Case("P12", f"interior_{nl}_{en}_{'-'.join(sym)}", inp, body, assume=ass(inp), budget_s=40.0, bounds=f"{nl} layers, {en}; symbolic: {', '.join(sym)}", functions=FN[2:3], tier=tier)


def thickness(nl, en, ex, sym, batch=()):
    inp = inputs(nl, ex.num_terms, sym, batch)
    inp.update(t=R(lo=0.1, hi=1.0), t2=R(lo=0.1, hi=1.0))

    def body(i):
        L = [build(i, f"L{k}", ex) for k in range(nl)]
        d = [i["d"][k] for k in range(nl)]
        s = scattering.stack_s_matrix(L, d)
        e = scattering.set_end_layer_thickness(s, i["t"])
        b = scattering.set_start_layer_thickness(s, i["t"])
        g = [eq("end layer thickness", blocks(e), blocks(scattering.stack_s_matrix(L, d[:-1] + [i["t"]]))), eq("start layer thickness", blocks(b), blocks(scattering.stack_s_matrix(L, [i["t"]] + d[1:])))]
        ends(g, "end", e, L[0], d[0], L[-1], i["t"])
        ends(g, "start", b, L[0], i["t"], L[-1], d[-1])
        g.append(eq("set twice", blocks(scattering.set_end_layer_thickness(e, i["t2"])), blocks(scattering.set_end_layer_thickness(s, i["t2"]))))
        g.append(eq("set start twice", blocks(scattering.set_start_layer_thickness(b, i["t2"])), blocks(scattering.set_start_layer_thickness(s, i["t2"]))))
        return g
    return Case("P12", f"thickness_{nl}_{en}_{'-'.join(sym)}_{batch}", inp, body, assume=ass(inp), bounds=f"{nl} layers, {en}, batch {batch}; all thicknesses; symbolic: {', '.join(sym)}", functions=FN[6:8])


def split(en, ex, sym, pos=1):
    """Splitting a layer in two of the same total thickness leaves the stack's matrix unchanged (in the interior);
    a zero-thickness layer inside the stack is invisible."""
    inp = inputs(3, ex.num_terms, sym)
    inp.update(x=R(lo=0.1, hi=1.0), y=R(lo=0.1, hi=1.0))

    def body(i):
        L = [build(i, f"L{k}", ex) for k in range(3)]
        d = [i["d"][k] for k in range(3)]
        one = scattering.stack_s_matrix(L, [d[0], i["x"] + i["y"], d[2]])
        two = scattering.stack_s_matrix([L[0], L[1], L[1], L[2]], [d[0], i["x"], i["y"], d[2]])
        zero = scattering.stack_s_matrix(L, [d[0], jnp.zeros(()), d[2]])
        return [eq("split layer", blocks(two), blocks(one)), eq("layer of zero thickness", blocks(zero), blocks(scattering.stack_s_matrix([L[0], L[2]], [d[0], d[2]])))]
    return Case("P12", f"split_{en}_{'-'.join(sym)}", inp, body, assume=ass(inp), bounds=f"{en}; symbolic: both partial thicknesses, {', '.join(sym)}", functions=FN[:1])


def reverse(nl, en, ex, sym):
    """The mirrored stack has the mirrored scattering matrix."""
    inp = inputs(nl, ex.num_terms, sym)

    def body(i):
        L = [build(i, f"L{k}", ex) for k in range(nl)]
        d = [i["d"][k] for k in range(nl)]
        s, r = scattering.stack_s_matrix(L, d), scattering.stack_s_matrix(L[::-1], d[::-1])
        return [eq("mirror", jnp.stack([r.s22, r.s21, r.s12, r.s11]), blocks(s))]
    return Case("P12", f"reverse_{nl}_{en}_{'-'.join(sym)}", inp, body, assume=ass(inp), bounds=f"{nl} layers, {en}", functions=FN[:1])


def assoc(en, ex, sym):
    inp = inputs(3, ex.num_terms, sym)

    def body(i):
        L = [build(i, f"L{k}", ex) for k in range(3)]
        A, B, Cc = (scattering.stack_s_matrix([L[k]], [i["d"][k]]) for k in range(3))
        st = scattering.redheffer_star_product
        return [eq("associative", blocks(st(st(A, B), Cc)), blocks(st(A, st(B, Cc))))]
    return Case("P12", f"associative_{en}_{'-'.join(sym)}", inp, body, assume=ass(inp), bounds=f"{en}; symbolic: {', '.join(sym)}", functions=FN[3:4])


def precision():
    """With force_x64_solve every linear solve of single-precision layers runs in double precision."""
    inp = inputs(2, 1, ("d",))

    def body(i):
        c64 = lambda t: jax.tree_util.tree_map(lambda x: x.astype(jnp.complex64 if jnp.iscomplexobj(x) else jnp.float32), t)  # noqa: E731
        L = [c64(build(i, f"L{k}", E1)) for k in range(2)]
        d = [i["d"][k].astype(jnp.float32) for k in range(2)]
        sub = [c64(scattering.stack_s_matrix([l], [t])) for l, t in zip(L, d)]
        LL = jax.tree_util.tree_map(lambda *x: jnp.stack(x), *L)
        todo = {
            "stack": lambda: scattering.stack_s_matrix(L, d, force_x64_solve=True),
            "interior": lambda: scattering.stack_s_matrices_interior(L, d, force_x64_solve=True),
            "append": lambda: scattering.append_layer(sub[0], L[1], d[1], force_x64_solve=True),
            "prepend": lambda: scattering.prepend_layer(sub[1], L[0], d[0], force_x64_solve=True),
            "star": lambda: scattering.redheffer_star_product(sub[0], sub[1], force_x64_solve=True),
            "scan": lambda: scattering.stack_s_matrix_scan(LL, jnp.stack(d), force_x64_solve=True),
        }
        g = []
        for nm, fn in todo.items():
            # size 1: the layer's own operator, not one of these solves
            bad = [s for s in solves(fn, i) if s[0] > 1 and s[1] != onp.complex128]
            out = jax.tree_util.tree_leaves(fn())
            g.append(true(f"{nm}: all solves in double precision", jnp.asarray(not bad)))
            g.append(true(f"{nm}: result keeps the layers' precision", jnp.asarray(all(x.dtype in (jnp.complex64, jnp.float32) for x in out))))
        return g
    return Case("P12", "force_x64_precision", inp, body, assume=ass(inp), bounds="two single-precision layers, one order", functions=FN, validate=False)


def solves(fn, i):
    """(matrix size, dtype) of every LU factorisation in the traced program."""
    jx = jax.make_jaxpr(lambda _: jax.tree_util.tree_leaves(fn()))(0.0)
    out = []

    def walk(j):
        for e in j.eqns:
            if e.primitive.name in ("lu",):
                a = e.invars[0].aval
                out.append((a.shape[-1], a.dtype))
            for v in e.params.values():
                for s in jax.tree_util.tree_leaves(v, is_leaf=lambda t: hasattr(t, "eqns") or hasattr(t, "jaxpr")):
                    if hasattr(s, "jaxpr"):
                        walk(s.jaxpr)
                    elif hasattr(s, "eqns"):
                        walk(s)
    walk(jx.jaxpr)
    return out


def reject():
    def body(i):
        L = build(i, "L0", E1)
        LL = jax.tree_util.tree_map(lambda x: jnp.stack([x, x]), L)
        d = jnp.ones(())
        return [expect_raises("lengths differ", lambda: scattering.stack_s_matrix([L, L], [d])), expect_raises("interior lengths differ", lambda: scattering.stack_s_matrices_interior([L], [d, d])),
                expect_raises("scan lengths differ", lambda: scattering.stack_s_matrix_scan(LL, jnp.ones(3)))]
    return Case("P12", "reject_lengths", {**inputs(1, 1, ())}, body, bounds="mismatched numbers of layers and thicknesses", functions=FN)


def single_thickness():
    """A stack of one layer: its matrix does not depend on the thickness."""
    inp = inputs(1, 1, ("d", "0:q"))
    inp.update(t=R(lo=0.1, hi=1.0))

    def body(i):
        L = build(i, "L0", E1)
        s = scattering.stack_s_matrix([L], [i["d"][0]])
        ref = blocks(scattering.stack_s_matrix([L], [i["t"]]))
        return [eq("end layer thickness", blocks(scattering.set_end_layer_thickness(s, i["t"])), ref), eq("start layer thickness", blocks(scattering.set_start_layer_thickness(s, i["t"])), ref)]
    return Case("P12", "single_layer_thickness", inp, body, assume=ass(inp), bounds="one layer", functions=FN[6:8])


def cases(tier):
    c = []
    for what in ("append", "prepend", "star", "scan", "x64"):
        for x in (False, True) if what in ("append", "star", "scan") else (False,):
            c += [assemble(2, "E1", E1, ("d", "0:q"), what, x64=x), assemble(3, "E1", E1, ("d",), what, x64=x)]
        c += [assemble(2, "E1", E1, ("1:q",), what), assemble(2, "E1", E1, ("0:phi",), what), assemble(3, "E1", E1, ("1:q",), what), assemble(2, "E2", E2, ("d",), what), assemble(2, "E1", E1, ("d",), what, (2,)), assemble(4, "E1", E1, ("d1", "d2", "simple"), what)]
        c += [assemble(5, "E1", E1, ("d1", "d2", "d3", "simple"), what, tier="thorough"), assemble(3, "E1", E1, ("1:phi",), what, tier="thorough"), assemble(3, "E2", E2, ("d1",), what, tier="thorough"), assemble(4, "E3", E3, ("d1", "d2", "simple"), what, tier="thorough")]
    c += [interior(1, "E1", E1, ("0:q",)), interior(2, "E1", E1, ("d",)), interior(2, "E1", E1, ("0:phi",)), interior(3, "E1", E1, ("d",)), interior(2, "E2", E2, ("d",)), interior(3, "E1", E1, ("1:q",)), interior(4, "E1", E1, ("d1", "d2", "simple")), interior(5, "E1", E1, ("d1", "d2", "d3", "simple"), "thorough")]
    c += [single_thickness(), thickness(2, "E1", E1, ("d", "0:q", "1:q")), thickness(2, "E2", E2, ("d",)), thickness(3, "E1", E1, ("d",)), thickness(2, "E1", E1, ("d",), (2,))]
    c += [split("E1", E1, ("d",)), split("E1", E1, ("1:q",)), split("E2", E2, ("d0", "d2", "simple")), split("E3", E3, ("d0", "simple")), reverse(2, "E1", E1, ("d", "0:q")), reverse(3, "E1", E1, ("d",)), reverse(2, "E2", E2, ("d",)), assoc("E1", E1, ("d",)), assoc("E1", E1, ("0:q",)), precision(), reject()]
    return by_tier(tier, c)
