"""P16: Poynting flux of amplitudes is the flux of their fields, split by mode direction."""
from .layers import *  # noqa: F403

FN = ("fields.amplitude_poynting_flux", "fields.directional_poynting_flux", "fields.eigenmode_poynting_flux", "fields.fields_from_wave_amplitudes")


def per_order(f):
    """Time-averaged z flux of the fields, per order and polarization, in the library's normalisation."""
    (ex, ey, _), (hx, hy, _) = f
    return jnp.real(jnp.concatenate([-ey * jnp.conj(hx), ex * jnp.conj(hy)], axis=-2))


def total(en, ex, sym, batch=(), na=1, tier="quick"):
    n = ex.num_terms

    def body(i):
        L = build(i, "L", ex)
        a, b = i["a"], i["b"]
        ref = per_order(fields.fields_from_wave_amplitudes(a, b, L))
        sf, sb = fields.amplitude_poynting_flux(a, b, L)
        df, db = fields.directional_poynting_flux(a, b, L)
        z = jnp.zeros_like(a)
        af, ab = fields.amplitude_poynting_flux(a, z, L)
        bf, bb = fields.amplitude_poynting_flux(z, b, L)
        for x in (sf, sb, df, db):
            if x.shape != ref.shape:
                raise StaticFail(f"flux shape {x.shape}, expected {ref.shape}")
        return [eq("forward + backward flux is the field flux", sf + sb, ref),
                eq("directional fluxes add up to the field flux", df + db, ref),
                eq("forward waves alone", af, per_order(fields.fields_from_wave_amplitudes(a, z, L))), eq("no backward flux", ab, 0 * ab),
                eq("backward waves alone", bb, per_order(fields.fields_from_wave_amplitudes(z, b, L))), eq("no forward flux", bf, 0 * bf)]
    return Case("P16", f"total_{en}_{'-'.join(sym)}_{batch}_{na}", {**gspec(batch), **lspec("L", n, batch, sym), "a": C(*batch, 2 * n, na), "b": C(*batch, 2 * n, na)}, body,
                assume=lambda i: nz(i["L_q"]), bounds=f"{en}, batch {batch}, {na} amplitude columns; symbolic: amplitudes, {', '.join(sym)}", functions=FN, tier=tier)


def modes(en, ex, sym, batch=(), tier="quick"):
    """One-hot amplitudes: a mode's whole flux goes to the direction of its eigenmode flux."""
    n = ex.num_terms

    def body(i):
        L = build(i, "L", ex)
        fl = fields.eigenmode_poynting_flux(L)
        eye = jnp.broadcast_to(jnp.eye(2 * n) + 0j, batch + (2 * n, 2 * n))
        z = jnp.zeros_like(eye)
        sf, _ = fields.amplitude_poynting_flux(eye, z, L)
        _, sb = fields.amplitude_poynting_flux(z, eye, L)
        df, db = fields.directional_poynting_flux(eye, z, L)
        ef, eb = fields.directional_poynting_flux(z, eye, L)
        if fl.shape != L.eigenvalues.shape:
            raise StaticFail(f"shape {fl.shape}")
        ref = per_order(fields.fields_from_wave_amplitudes(eye, z, L))
        pos = (fl > 0)[..., None, :]
        return [eq("eigenmode flux", fl, jnp.sum(ref, axis=-2)), eq("sum over orders (forward)", jnp.sum(sf, axis=-2), fl), eq("sum over orders (backward)", jnp.sum(sb, axis=-2), -fl),
                eq("positive modes are forward", df, jnp.where(pos, ref, 0.0)), eq("negative modes are backward", db, jnp.where(pos, 0.0, ref)),
                eq("reversed modes", eb, jnp.where(pos, -ref, 0.0)), eq("reversed negative modes", ef, jnp.where(pos, 0.0, -ref))]
    return Case("P16", f"modes_{en}_{'-'.join(sym)}_{batch}", {**gspec(batch), **lspec("L", n, batch, sym)}, body,
                assume=lambda i: nz(i["L_q"]), bounds=f"{en}, batch {batch}; symbolic: {', '.join(sym)}", functions=FN, tier=tier)


def mixed(en, ex, tier="quick"):
    """Directional flux is bilinear in (total field, subset of modes): linear splitting between directions."""
    n = ex.num_terms

    def body(i):
        L = build(i, "L", ex)
        a, b = i["a"], i["b"]
        fl = fields.eigenmode_poynting_flux(L)
        pos = (fl > 0)[..., None]
        (tot, sub_f) = fields.fields_from_wave_amplitudes(a, b, L), fields.fields_from_wave_amplitudes(jnp.where(pos, a, 0), jnp.where(pos, 0, b), L)
        def cross_flux(t, s):
            (ex_, ey, _), (hx, hy, _) = t
            (sx, sy, _), (tx, ty, _) = s
            return 0.5 * jnp.real(jnp.concatenate([jnp.conj(-ey) * tx + jnp.conj(hx) * (-sy), jnp.conj(ex_) * ty + jnp.conj(hy) * sx], axis=-2))
        df, db = fields.directional_poynting_flux(a, b, L)
        sub_b = fields.fields_from_wave_amplitudes(jnp.where(pos, 0, a), jnp.where(pos, b, 0), L)
        return [eq("forward", df, cross_flux(tot, sub_f)), eq("backward", db, cross_flux(tot, sub_b))]
    return Case("P16", f"mixed_{en}", {**gspec(), **lspec("L", n, (), ("q",)), "a": C(2 * n, 1), "b": C(2 * n, 1)}, body,
                assume=lambda i: nz(i["L_q"]), bounds=f"{en}; symbolic: amplitudes, eigenvalues", functions=FN, tier=tier)


def uniform_lossless():
    """A lossless uniform layer: forward flux of propagating waves is |a|^2-weighted and the total is conserved along z."""
    def body(i):
        q = i["q"]
        # parametrise by the z wavenumber: eps = (kt^2 + q^2) / omega^2
        w = 1 / i["w"]
        k = jnp.stack([i["kx"], i["ky"]])
        eps = (jnp.sum(k**2) + q**2) / w**2
        L = uniform(i, i["w"], k, eps[None, None] + 0j)
        fl = fields.eigenmode_poynting_flux(L)
        a, b = i["a"], i["b"]
        df, db = fields.directional_poynting_flux(a, b, L)
        s0 = jnp.sum(df, axis=-2)
        a2, b2 = fields.propagate_amplitude(a, i["d"], L), fields.propagate_amplitude(b, -i["d"], L)
        ef, eb = fields.directional_poynting_flux(a2, b2, L)
        return [true("forward modes carry energy forward", fl > 0),
                ge("forward waves carry energy forward", jnp.sum(df, axis=-2)), ge("backward waves carry energy backward", -jnp.sum(db, axis=-2)),
                eq("forward flux conserved", jnp.sum(ef, axis=-2), s0), eq("backward flux conserved", jnp.sum(eb, axis=-2), jnp.sum(db, axis=-2))]
    return Case("P16", "uniform_lossless", {"q": Pos(), "w": Pos(), "kx": R(), "ky": R(), "a": C(2, 1), "b": C(2, 1), "d": Pos()}, body,
                assume=lambda i: [i["kx"] ** 2 + i["ky"] ** 2 > 0.01], bounds="one order, all propagating waves of a lossless uniform layer", functions=FN)


def reject():
    def body(i):
        L = build(i, "L", E1)
        bad = jnp.zeros((3, 1)) + 0j
        ok = jnp.zeros((2, 1)) + 0j
        return [expect_raises("wrong number of modes", lambda: fields.amplitude_poynting_flux(bad, bad, L)),
                expect_raises("no trailing axis", lambda: fields.amplitude_poynting_flux(ok[:, 0], ok[:, 0], L)),
                expect_raises("fields wrong number", lambda: fields.fields_from_wave_amplitudes(bad, bad, L)),
                expect_raises("mismatched", lambda: fields.amplitude_poynting_flux(jnp.zeros((2, 2)) + 0j, jnp.zeros((2, 3)) + 0j, L))]
    return Case("P16", "reject_shapes", {**gspec(), **lspec("L", 1)}, body, bounds="bad shapes", functions=FN)


def cases(tier):
    c = [total("E1", E1, ("q", "phi", "ez", "mt")), total("E1", E1, ("q", "phi"), (2,), 2), total("E1", E1, ("q", "mt"), (2, 1), 2), total("E2", E2, ("q",), (), 2), total("E2", E2, ("phi",)),
         total("E2", E2, ("mt",)), total("E3", E3, ("q",)), total("E3Y", E3Y, ("q",), (2,)),
         modes("E1", E1, ("q", "phi")), modes("E1", E1, ("q",), (2,)), modes("E1", E1, ("mt", "ez")), modes("E2", E2, ("q",)), modes("E3", E3, ("q",)), modes("E2", E2, ("q",), (2, 1)),
         mixed("E1", E1), mixed("E2", E2), uniform_lossless(), reject(),
         total("E5", E5, ("q",), (), 1, "thorough"), modes("E5", E5, ("q",), (), "thorough"), mixed("E3", E3, "thorough"), total("E3", E3, ("phi",), (2,), 1, "thorough")]
    return by_tier(tier, c)
