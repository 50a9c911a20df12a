"""P25: batched and vectorised computations are the per-item computations; containers survive jax transformations."""
from .layers import *  # noqa: F403
from .P07 import M, T, geo
from .P10 import tfield
from fmmax.fmm import Formulation

import jax.tree_util as tu


def leaves(x):
    return [jnp.asarray(a) for a in tu.tree_leaves(x)]


def pick(a, batch, idx, core):
    """Entry idx of an array with (broadcastable) leading batch axes and `core` trailing axes."""
    lead = a.shape[: a.ndim - core]
    off = len(batch) - len(lead)
    return a[tuple(idx[off + t] if s > 1 else 0 for t, s in enumerate(lead))]


def entries(batch, full):
    ids = list(onp.ndindex(*batch))
    return ids if full else [ids[0], ids[-1]]


def batched(name, fn, spec, batch, mode="index", fns=(), full=True, out_core=None, validate=True, budget=40.0, assume=lambda i: [], tier="quick", bounds=""):
    """spec: name -> (Spec or callable(shape) -> Spec, batch shape, number of core axes).

    mode index: fn(all) restricted to an entry equals fn(entry). mode vmap: jax.vmap(fn) equals fn (leading axis of every batched input).
    """
    def body(i):
        g = []
        if mode == "vmap":
            axes = {k: 0 if len(b) else None for k, (_, b, _) in spec.items()}
            used = {k: i[k] for k in spec}
            out = leaves(fn(used))
            res = leaves(jax.vmap(fn, in_axes=(axes,))(used))
            if len(out) != len(res):
                raise StaticFail("structure")
            for t, (x, y) in enumerate(zip(out, res)):
                g.append(eq(f"leaf {t}", jnp.broadcast_to(x.reshape((1,) * (y.ndim - x.ndim) + x.shape) if x.ndim < y.ndim else x, y.shape), y))
            return g
        out = leaves(fn(i))
        for idx in entries(batch, full):
            one = {k: pick(i[k], batch, idx, c) for k, (_, b, c) in spec.items()}
            res = leaves(fn(one))
            if len(out) != len(res):
                raise StaticFail("structure")
            for t, (x, y) in enumerate(zip(out, res)):
                lead = x.ndim - y.ndim
                if lead > len(batch) or lead < 0:
                    raise StaticFail(f"output {t}: {x.shape} for the batch, {y.shape} for an item")
                if any(s not in (1, b) for s, b in zip(x.shape[:lead], batch[len(batch) - lead:])):
                    raise StaticFail(f"output {t}: {x.shape} for the batch {batch}, {y.shape} for an item")
                g.append(eq(f"output {t} entry {idx}", pick(x, batch, idx, y.ndim), y))
        return g
    inp = {k: s for k, (s, _, _) in spec.items()}
    return Case("P25", f"{mode}_{name}_{batch}", inp, body, validate=validate, budget_s=budget, assume=assume, tier=tier, bounds=f"{name}, batch {batch}; {bounds}", functions=fns)


# --- inputs -------------------------------------------------------------------


def kc(seed, shape, lo=0.0):
    """Distinct fixed rationals."""
    rng = onp.random.default_rng(seed)
    return K(lo + rng.permutation(int(onp.prod(shape)) if shape else 1)[: int(onp.prod(shape)) if shape else 1].reshape(shape) / 4.0 + 0.25)


def geom(wb=(), kb=(), lb=(), sym=()):
    u = onp.broadcast_to(onp.array([2.0, 0.5]), lb + (2,)) + onp.arange(int(onp.prod(lb))).reshape(lb)[..., None] * onp.array([0.5, 0.0])
    v = onp.broadcast_to(onp.array([0.25, 1.5]), lb + (2,)) + onp.arange(int(onp.prod(lb))).reshape(lb)[..., None] * onp.array([0.0, -0.25])
    return {"w": (Pos(*wb) if "w" in sym else kc(1, wb), wb, 0), "k": (R(*kb, 2) if "k" in sym else kc(2, kb + (2,)), kb, 1),
            "u": (R(*lb, 2) if "u" in sym else K(u.copy()), lb, 1), "v": (R(*lb, 2) if "v" in sym else K(v.copy()), lb, 1)}


def layer(tag, n, batch, sym=(), seed=0):
    core = {"q": 1}
    return {f"{tag}_{p}": (s, batch, core.get(p, 2)) for p, s in zip(PARTS, lspec(tag, n, batch, sym, seed, mu=True).values())}


def same_ndim(i, *tags):
    """Layers need wavelength, ... with as many axes as the batch."""
    nb = i[f"{tags[0]}_q"].ndim - 1
    up = lambda x, c: x.reshape((1,) * (nb + c - x.ndim) + x.shape)  # noqa: E731
    return {**i, "w": up(i["w"], 0), "k": up(i["k"], 1), "u": up(i["u"], 1), "v": up(i["v"], 1)}


def B(i, tag, ex):
    return build(same_ndim(i, tag), tag, ex)


# --- eigensolves --------------------------------------------------------------


def solves(kind, en, ex, shape, wb, kb, lb, pb, sym=(), psym=(), form=FFT, mode="index", fname="FFT", full=True, tier="quick"):
    batch = onp.broadcast_shapes(wb, kb, lb, pb)
    spec = geom(wb, kb, lb, sym)
    rng = onp.random.default_rng(4)
    for k in ("p",) if kind == "iso" else T + (M if kind == "general" else ()):
        d = 2.0 if k == "p" or k[1] == k[2] else 0.0
        spec[k] = (C(*pb, *shape) if k in psym else K(d + rng.integers(0, 8, size=pb + shape) / 4.0 + 0.25j * rng.integers(0, 2, size=pb + shape)), pb, 2)

    def fn(i):
        if kind == "iso":
            return fmm.eigensolve_isotropic_media(*geo(i), i["p"], ex, form)
        if kind == "aniso":
            return fmm.eigensolve_anisotropic_media(*geo(i), *(i[k] for k in T), ex, form)
        return fmm.eigensolve_general_anisotropic_media(*geo(i), *(i[k] for k in T + M), ex, form, (i["exx"] + i["eyy"]) / 2)
    solve, parts = fn, ("eigenvalues", "eigenvectors", "z_permittivity_matrix", "inverse_z_permittivity_matrix", "z_permeability_matrix", "transverse_permeability_matrix")
    if mode == "vmap":  # arrays, not the validated container, leave the mapped function
        fn = lambda i: tuple(getattr(solve(i), q) for q in parts)  # noqa: E731
    return batched(f"eigensolve_{kind}_{en}_{shape}_{wb}_{kb}_{lb}_{pb}_{fname}", fn, spec, batch, mode, (f"fmm.eigensolve_{ {'iso': 'isotropic', 'aniso': 'anisotropic', 'general': 'general_anisotropic'}[kind]}_media",), full, validate=False, tier=tier,
                   assume=lambda i: [jnp.abs(i[k]) > 0 for k in ("p", "ezz", "mzz") if k in i] + [jnp.abs(cross(i["u"], i["v"])) > 0.05], bounds=f"{en}, grid {shape}, formulation {fname}; batches: wavelength {wb}, wavevector {kb}, lattice {lb}, material {pb}; symbolic: {', '.join(tuple(sym) + tuple(psym)) or 'fixed values'}; any eigendecomposition")


# --- scattering, fields and sources -------------------------------------------


def scat(kind, en, ex, batch, lb2=None, sym=("q",), mode="index", db=(), full=True, tier="quick"):
    n = ex.num_terms
    lb2 = batch if lb2 is None else lb2
    spec = {**geom((1,) * len(batch) if mode == "index" else (), (1,) * len(batch) if mode == "index" else (), (1,) * len(batch) if mode == "index" else ()), **layer("L", n, batch, sym), **layer("N", n, lb2)}
    batch = onp.broadcast_shapes(batch, lb2)
    spec["d"] = (K(onp.full(db, 0.5)) if not db else kc(8, db), db, 0)
    if mode == "vmap":
        spec = {**geom(), **{k: (s, b, c) for k, (s, b, c) in spec.items() if k[0] in "LNd"}}

    def fn(i):
        L, N = B(i, "L", ex), B(i, "N", ex)
        z = jnp.zeros(())
        if kind == "stack":
            s = scattering.stack_s_matrix([L, N, L], [z, 0 * i["d"], z])
        elif kind == "scan":
            st = tu.tree_map(lambda *x: jnp.stack(jnp.broadcast_arrays(*x)), L, N)
            s = scattering.stack_s_matrix_scan(st, jnp.zeros((2,)))
        elif kind == "interior":
            s = scattering.stack_s_matrices_interior([L, N], [z, z])
        elif kind == "star":
            a = scattering.stack_s_matrix([L, N], [z, z])
            b = scattering.stack_s_matrix([N, L], [z, z])
            s = scattering.redheffer_star_product(a, b)
        elif kind == "ends":
            a = scattering.stack_s_matrix([L, N], [z, z])
            s = (scattering.set_end_layer_thickness(a, i["d"]), scattering.set_start_layer_thickness(a, i["d"]))
            return [(x.s11, x.s12, x.s21, x.s22) for x in s]
        if kind == "interior":
            return [(x.s11, x.s12, x.s21, x.s22) for p in s for x in p]
        return s.s11, s.s12, s.s21, s.s22
    return batched(f"{kind}_{en}_{lb2}_{'-'.join(sym)}", fn, spec, batch, mode, ("scattering",), full, assume=lambda i: nz(i["L_q"], i["N_q"]), tier=tier, bounds=f"{en}, layers with batches {batch} and {lb2}; symbolic: {', '.join(sym)}")


def field(kind, en, ex, batch, ab, sym=("q",), mode="index", na=1, full=True, tier="quick"):
    """Amplitudes with batch ab in layers with batch `batch`."""
    n = ex.num_terms
    one = (1,) * len(batch) if mode == "index" else ()
    spec = {**geom(one, one, one, ("k",) if kind in ("grid", "roundtrip", "layer3d", "stack3d") else ()), **layer("L", n, batch, sym), "a": (C(*ab, 2 * n, na), ab, 2), "b": (C(*ab, 2 * n, na), ab, 2), "d": (K(onp.asarray(0.5)), (), 0)}
    tot = onp.broadcast_shapes(batch, ab)

    def fn(i):
        L = B(i, "L", ex)
        a, b = i["a"], i["b"]
        if kind == "propagate":
            return fields.propagate_amplitude(a, i["d"], L)
        if kind == "colocate":
            return fields.colocate_amplitudes(a, b, jnp.asarray(0.25), L, i["d"])
        if kind == "fields":
            return fields.fields_from_wave_amplitudes(a, b, L)
        if kind == "flux":
            return fields.amplitude_poynting_flux(a, b, L)
        if kind == "directional":
            return fields.directional_poynting_flux(a, b, L)
        if kind == "eigenmode":
            return fields.eigenmode_poynting_flux(L)
        if kind == "conversion":
            return fields.field_conversion_matrix(L)
        if kind == "grid":
            return fields.fields_on_grid(*fields.fields_from_wave_amplitudes(a, b, L), L, (4, 2), (1, 1))
        if kind == "coordinates":
            x, y = jnp.asarray([[0.0, 0.5]]), jnp.asarray([[0.25, 0.0]])
            return fields.fields_on_coordinates(*fields.fields_from_wave_amplitudes(a, b, L), L, x, y)[:2]
        if kind == "layer3d":
            e, h, _ = fields.layer_fields_3d(a, b, L, i["d"], 2, (4, 2), (1, 1))
            return tuple(e), tuple(h)
        if kind == "stack3d":
            e, h, _ = fields.stack_fields_3d([(a, b)] * 2, [L, L], [i["d"]] * 2, [2, 1], (4, 2), (1, 1))
            return tuple(e), tuple(h)
        if kind == "roundtrip":
            (ex_, ey, _), (hx, hy, _), _ = fields.fields_on_grid(*fields.fields_from_wave_amplitudes(a, b, L), L, (4, 2), (1, 1))
            return sources.amplitudes_for_fields(ex_, ey, hx, hy, L)
        raise ValueError(kind)
    return batched(f"{kind}_{en}_{ab}_{'-'.join(sym)}_{na}", fn, spec, tot, mode, (f"fields ({kind})",), full, assume=lambda i: nz(i["L_q"]), tier=tier, bounds=f"{en}, layer batch {batch}, amplitude batch {ab}, {na} columns; symbolic: amplitudes, {', '.join(sym)}")


def source(en, ex, batch, jb, mode="index", full=True):
    n = ex.num_terms
    one = (1,) * len(batch) if mode == "index" else ()
    spec = {**geom(one, one, one), **layer("L", n, batch), **layer("N", n, batch, (), 3), **{j: (C(*jb, n, 1), jb, 2) for j in ("jx", "jy", "jz")}}

    def fn(i):
        L, N = B(i, "L", ex), B(i, "N", ex)
        z = jnp.zeros(())
        s1, s2 = scattering.stack_s_matrix([L, N], [z, z]), scattering.stack_s_matrix([N, L], [z, z])
        return sources.amplitudes_for_source(i["jx"], i["jy"], i["jz"], s1, s2)
    return batched(f"source_{en}_{jb}", fn, spec, onp.broadcast_shapes(batch, jb), mode, ("sources.amplitudes_for_source",), full, assume=lambda i: nz(i["L_q"], i["N_q"]), bounds=f"{en}, layers with batch {batch}, currents with batch {jb}; all currents")


# --- everything else ----------------------------------------------------------


def misc(kind, batch, mode="index"):
    ex = E3
    if kind == "basis":
        spec = geom(batch, batch, batch, ("k", "u", "v"))
        spec["p"], spec["t"] = (Pos(*batch), batch, 0), (R(*batch), batch, 0)

        def fn(i):
            lv = LV(i["u"], i["v"])
            r = basis.reciprocal(lv)
            return r, basis.transverse_wavevectors(i["k"], lv, ex), basis.plane_wave_in_plane_wavevector(i["w"], i["t"], 2 * i["t"], i["p"])
    elif kind == "fft":
        spec = {"x": (C(*batch, 4, 2), batch, 2), "y": (C(*batch, 3, 1), batch, 2)}

        def fn(i):
            x = i["x"]
            return fft.fft(x, ex), fft.fourier_convolution_matrix(x, E2), fft.ifft(i["y"], ex, (4, 2), axis=-2)
    elif kind == "farfield":
        spec = {"t": (R(*batch, 3, 2, 2, lo=-0.2, hi=0.2), batch, 3), "w": (Pos(*batch), batch, 0)}

        def fn(i):
            return farfield.angles_from_unflattened_transverse_wavevectors(i["t"], i["w"]), farfield.solid_angle_from_unflattened_transverse_wavevectors(i["t"], i["w"])
    elif kind == "unflatten":
        spec = {"x": (R(*batch, 2, 2, 6, 1), batch, 4)}

        def fn(i):
            return farfield.unflatten_flux(i["x"], ex, (-4, -3))
    elif kind == "pml":
        spec = {"p": (C(*batch, 5, 4), batch, 2)}

        def fn(i):
            return pml.apply_uniaxial_pml(i["p"], pml.PMLParams(1, 1))
    elif kind == "utils":
        spec = {"p": (Pos(*batch, 2), batch, 1), "s": (Pos(*batch, 2), batch, 1), "x": (C(*batch, 2, 3), batch, 2), "w": (Pos(*batch), batch, 0)}

        def fn(i):
            return utils.interpolate_permittivity(i["p"], i["s"], i["p"] / 2), utils.diag(i["x"]), utils.matrix_adjoint(i["x"]), utils.angular_frequency_for_wavelength(i["w"])
    elif kind == "matrices":
        spec = {"p": (C(*batch, 3, 1), batch, 2)}

        def fn(i):
            p = i["p"]
            return fmm.fourier_matrices_patterned_isotropic_media(LV(basis.X, basis.Y), p, E2, tfield(0.6, 0.8))
    elif kind == "gradient":
        spec = {"x": (R(*batch, 3, 4), batch, 2)}

        def fn(i):
            return vector.compute_gradient(i["x"], LV(jnp.asarray([1.0, 0.5]), jnp.asarray([0.0, 2.0])))
    elif kind == "tangent":
        rng = onp.random.default_rng(6)
        u = onp.stack([onp.array([1.0, 0.25]), onp.array([2.0, 0.5])])[: batch[-1]]
        spec = {"x": (K(1.0 + rng.integers(0, 9, size=batch + (4, 4)) / 2.0), batch, 2), "u": (K(u), batch[-1:], 1), "v": (K(onp.array([0.0, 1.5])), (), 1)}

        def fn(i):
            return vector.compute_tangent_field(i["x"], E5, LV(i["u"], i["v"]), False, 0.0, 2.0)
    return batched(kind, fn, spec, batch, mode, (kind,), True, validate=kind != "tangent", assume=lambda i: ([jnp.abs(cross(i["u"], i["v"])) > 0.05] if kind == "basis" else []) + ([jnp.abs(i["p"]) > 0] if kind in ("pml", "matrices") else []), bounds="all inputs" if kind != "tangent" else "fixed arrays")


# --- containers ---------------------------------------------------------------


def containers():
    """Containers come back unchanged from flattening, maps and compiled functions; expansions compare by value."""
    def body(i):
        t = (i["tx"], i["ty"])
        L = build(i, "L", E2, t)
        z = jnp.zeros(())
        s = scattering.ScatteringMatrix(*(c * i["L_phi"] for c in (1, 2, 3, 4)), L, z, L, z)
        g = []
        names = [f.name for f in fmm.dataclasses.fields(L)]
        flat, td = tu.tree_flatten(L)
        for nm, R_ in (("unflatten", tu.tree_unflatten(td, flat)), ("jit", jax.jit(lambda x: x)(L)), ("map", tu.tree_map(lambda x: 2 * x, L))):
            c = 2.0 if nm == "map" else 1.0
            for f in names:
                a, b = getattr(L, f), getattr(R_, f)
                if f == "expansion":
                    if not onp.array_equal(a.basis_coefficients, b.basis_coefficients):
                        raise StaticFail(f"{nm}: expansion")
                    continue
                la, lb = leaves(a), leaves(b)
                if len(la) != len(lb) or type(a) is not type(b):
                    raise StaticFail(f"{nm}: structure of {f}")
                g += [eq(f"{nm} {f} {k}", c * x, y) for k, (x, y) in enumerate(zip(la, lb))]
        q = tu.tree_unflatten(*reversed(tu.tree_flatten(s)))
        for f in fmm.dataclasses.fields(s):
            for k, (x, y) in enumerate(zip(leaves(getattr(s, f.name)), leaves(getattr(q, f.name)))):
                g.append(eq(f"scattering {f.name} {k}", x, y))
        lv = LV(i["u"], i["v"])
        r = tu.tree_unflatten(*reversed(tu.tree_flatten(lv)))
        g += [eq("lattice u", r.u, lv.u), eq("lattice v", r.v, lv.v)]
        for e1 in (E1, E2, E3, EA):
            e2 = tu.tree_unflatten(*reversed(tu.tree_flatten(e1)))
            if not onp.array_equal(e1.basis_coefficients, e2.basis_coefficients):
                raise StaticFail("expansion")
            for other in (E1, E2, E3, E3Y, EA, E((0, 0), (-1, 0), (1, 0))):
                same = e1.basis_coefficients.shape == other.basis_coefficients.shape and onp.array_equal(e1.basis_coefficients, other.basis_coefficients)
                if (tu.tree_structure(e1) == tu.tree_structure(E(*onp.asarray(other.basis_coefficients).tolist()))) != same:
                    raise StaticFail("expansions compare by value")
                if same and hash(tu.tree_structure(e1)) != hash(tu.tree_structure(other)):
                    raise StaticFail("expansion hash")
        for enum in (Formulation, basis.Truncation):
            for x in enum:
                if tu.tree_unflatten(*reversed(tu.tree_flatten(x))) is not x:
                    raise StaticFail(f"{x}")
        pp = pml.PMLParams(3, 4, 2.5, 3.0, 1.5)
        if tu.tree_unflatten(*reversed(tu.tree_flatten(pp))) != pp:
            raise StaticFail("pml parameters")
        return g
    return Case("P25", "containers", {**gspec((), ("w", "k", "u", "v")), **lspec("L", 2, (), PARTS), "tx": C(3, 1), "ty": C(3, 1)}, body, validate=False, assume=lambda i: nz(i["L_q"]), bounds="one layer with all parts symbolic",
                functions=("fmm.LayerSolveResult", "scattering.ScatteringMatrix", "basis.Expansion", "basis.LatticeVectors", "pml.PMLParams"))


def reject_batches():
    """Incompatible batches are rejected, never silently broadcast."""
    def body(i):
        a = lambda w, k, p: (lambda: fmm.eigensolve_isotropic_media(jnp.ones(w), jnp.zeros(k + (2,)), LV(basis.X, basis.Y), i["p"] * jnp.ones(p), E1, FFT))  # noqa: E731
        g = [expect_raises("wavelength and wavevector", a((2,), (3,), (1, 1))), expect_raises("wavelength and permittivity", a((2,), (), (3, 1, 1))), expect_raises("patterned", a((2,), (3,), (3, 2, 2)))]
        ok = [((), (), (), True), ((2,), (2,), (2,), True), ((2, 1), (3,), (2, 3), True), ((1,), (4,), (4, 4), True), ((2,), (3,), (), False), ((2, 2), (3,), (), False), ((2, 3), (3, 2), (), False)]
        for x, y, z, r in ok:
            if utils.batch_compatible_shapes(x, y, z) is not r:
                raise StaticFail(f"batch_compatible_shapes{(x, y, z)}")
        return g
    return Case("P25", "reject_batches", {"p": Pos()}, body, bounds="listed shapes", functions=("fmm._validate_and_broadcast", "utils.batch_compatible_shapes"))


def cases(tier):
    V = tfield(0.6, 0.8)
    c = [solves("iso", "E2", E2, (1, 1), (2,), (2,), (2,), (2,), ("w", "k", "u", "v"), ("p",)), solves("iso", "E1", E1, (1, 1), (2, 1), (3,), (), (), ("w", "k"), ("p",)), solves("iso", "E2", E2, (1, 1), (), (), (2,), (), ("u", "v"), ()), solves("iso", "E2", E2, (1, 1), (), (), (3, 1), (2,), (), ("p",)),
         solves("aniso", "E1", E1, (1, 1), (2,), (2, 1), (), (2,), ("k",), ("exx",)), solves("aniso", "E2", E2, (1, 1), (), (), (2,), (), (), ("exy",)), solves("general", "E1", E1, (1, 1), (2,), (), (2,), (2,), (), ("mxx", "ezz")),
         solves("iso", "E2", E2, (3, 1), (2,), (), (), (2,), (), ("p",)), solves("iso", "E2", E2, (3, 1), (), (), (2,), (), (), ()), solves("iso", "E2", E2, (3, 1), (), (), (2,), (2,), (), (), V, "index", "custom"), solves("iso", "E2", E2, (3, 2), (), (2, 1), (2,), (2, 2), (), (), FFT, "index", "FFT", False), solves("aniso", "E2", E2, (3, 1), (), (2,), (), (2,), (), ()),
         solves("general", "E2", E2, (3, 1), (2,), (2, 1), (), (), (), ()), solves("general", "E2", E2, (3, 1), (), (), (2,), (2,), (), (), V, "index", "custom"), solves("general", "E2", E2, (3, 1), (), (), (2,), (), (), ()),
         solves("iso", "E2", E2, (1, 1), (2,), (2,), (2,), (2,), ("w", "k", "u", "v"), ("p",), FFT, "vmap"), solves("iso", "E2", E2, (3, 1), (2,), (2,), (), (2,), (), (), FFT, "vmap"), solves("general", "E1", E1, (1, 1), (2,), (2,), (), (2,), (), (), FFT, "vmap")]
    c += [scat(k, "E1", E1, (2,), None, ("q",) if k == "star" else ("q", "phi")) for k in ("stack", "scan", "interior", "star", "ends")] + [scat(k, "E1", E1, (2,), None, ("q",), "vmap") for k in ("stack", "scan", "star")]
    c += [scat("stack", "E2", E2, (2, 2), None, (), full=False), scat("stack", "E1", E1, (2, 1), (1, 2), ()), scat("interior", "E1", E1, (2,), (1,), ()), scat("star", "E1", E1, (1,), (2,), ())]
    fk = ("propagate", "colocate", "fields", "flux", "directional", "eigenmode", "conversion", "grid", "coordinates", "layer3d", "stack3d", "roundtrip")
    c += [field(k, "E1", E1, (2,), (2,), na=2) for k in fk] + [field(k, "E2", E2, (2, 1), (2, 3), (), full=False) for k in fk] + [field(k, "E1", E1, (2,), (2,), (), "vmap") for k in fk]
    c += [source("E1", E1, (2,), (2,)), source("E1", E1, (2,), (2,), "vmap"), source("E2", E2, (2, 1), (2, 2), full=False)]
    c += [misc(k, b) for k in ("basis", "fft", "farfield", "unflatten", "pml", "utils", "matrices", "gradient") for b in ((2,), (2, 2))] + [misc(k, (2,), "vmap") for k in ("basis", "fft", "farfield", "unflatten", "pml", "utils", "matrices", "gradient")]
    c += [containers(), reject_batches()]
    return by_tier(tier, c)
