"""P24: reoriented beams are rigid rotations and translations of the given beam."""
from .common import *  # noqa: F403

FN = ("beams.rotation_matrix", "beams.shifted_rotated_fields")


def rot(i, t, f, p):
    """Reference: R = Rz(f) Ry(t) Rz(p)."""
    c, s = jnp.cos, jnp.sin
    z = jnp.zeros(())
    o = jnp.ones(())

    def rz(a):
        return jnp.stack([jnp.stack([c(a), -s(a), z]), jnp.stack([s(a), c(a), z]), jnp.stack([z, z, o])])
    ry = jnp.stack([jnp.stack([c(t), z, s(t)]), jnp.stack([z, o, z]), jnp.stack([-s(t), z, c(t)])])
    return rz(f) @ ry @ rz(p)


def matrix():
    def body(i):
        t, f, p = i["t"], i["f"], i["p"]
        m = beams.rotation_matrix(t, f, p)
        k = jnp.stack([jnp.sin(t) * jnp.cos(f), jnp.sin(t) * jnp.sin(f), jnp.cos(t)])
        return [eq("orthogonal", m @ m.T, jnp.eye(3)),
                eq("proper", dot(m[:, 0], jnp.cross(m[:, 1], m[:, 2])), jnp.ones(())),
                eq("propagation direction", m[:, 2], k),
                eq("matrix", m, rot(i, t, f, p)),
                eq("polarization angles compose", beams.rotation_matrix(t, f, p), beams.rotation_matrix(t, f, 0.0) @ beams.rotation_matrix(0.0, 0.0, p)),
                eq("azimuths compose", beams.rotation_matrix(t, f, p), beams.rotation_matrix(0.0, f, 0.0) @ beams.rotation_matrix(t, 0.0, p)),
                eq("normal incidence x", beams.rotation_matrix(0.0, 0.0, 0.0), jnp.eye(3)),
                ]
    return Case("P24", "rotation_matrix", {"t": R(), "f": R(), "p": R()}, body, bounds="all angles", functions=FN[:1])


def integer_angles(t, f, p):
    def body(i):
        a = [i[k] for k in "tfp"]
        return [eq("same as floating-point angles", beams.rotation_matrix(*a), rot(i, *[x.astype(float) for x in a]))]
    return Case("P24", f"integer_angles_{t}_{f}_{p}", {"t": K(t, dtype=onp.int64), "f": K(f, dtype=onp.int64), "p": K(p, dtype=onp.int64)}, body, tol=1e-5, bounds=f"angles {t}, {f}, {p} rad given as integers", functions=FN[:1])


def fields_(shape, angles, order):
    """field_fn is an arbitrary polynomial field of the stated order with symbolic coefficients."""
    inputs = {"x": R(*shape), "y": R(*shape), "z": R(*shape), "o": R(3), "c": C(6), "m": C(6, 3)}
    if order == 2:
        inputs["q"] = C(6, 3)
    for nm, v in zip("tfp", angles):
        inputs[nm] = R() if v is None else K(v)

    def body(i):
        seen = []

        def fn(xf, yf, zf):
            seen.append((xf, yf, zf))
            r = jnp.stack([xf, yf, zf], axis=-1)
            out = []
            for k in range(6):
                v = i["c"][k] + jnp.sum(i["m"][k] * r, axis=-1)
                if order == 2:
                    v = v + jnp.sum(i["q"][k] * r * jnp.roll(r, 1, axis=-1), axis=-1)
                out.append(v)
            return tuple(out[:3]), tuple(out[3:])
        e, h = beams.shifted_rotated_fields(fn, i["x"], i["y"], i["z"], i["o"][0], i["o"][1], i["o"][2], i["t"], i["f"], i["p"])
        m = rot(i, i["t"], i["f"], i["p"])
        d = jnp.stack([i["x"] - i["o"][0], i["y"] - i["o"][1], i["z"] - i["o"][2]], axis=-1)
        r = jnp.einsum("ji,...j->...i", m, d)
        ef, hf = fn(r[..., 0], r[..., 1], r[..., 2])
        g = []
        for nm, got, ref in (("E", e, ef), ("H", h, hf)):
            want = jnp.einsum("ij,...j->...i", m, jnp.stack(ref, axis=-1))
            for k in range(3):
                if got[k].shape != shape:
                    raise StaticFail(f"{nm}{k}: shape {got[k].shape}, expected {shape}")
                g.append(eq(f"{nm}{'xyz'[k]}", got[k], want[..., k]))
        return g
    nm = "_".join("s" if a is None else str(a) for a in angles)
    return Case("P24", f"fields_{shape}_{nm}_order{order}", inputs, body,
                bounds=f"coordinates of shape {shape}, angles {nm} (s: symbolic), all polynomial beams of order {order}", functions=FN)


def cases(tier):
    s = None
    c = [matrix(), integer_angles(1, 0, 0), integer_angles(0, 2, 1), integer_angles(1, 1, 1), integer_angles(0, 0, 0)]
    for sh in ((), (2,), (2, 1), (1, 2, 2)):
        c.append(fields_(sh, (s, 0, 0), 1))
        c.append(fields_(sh, (0, s, 0), 1))
        c.append(fields_(sh, (0, 0, s), 1))
    c += [fields_((2,), (s, s, 0), 1), fields_((2,), (s, 0, s), 1), fields_((2,), (s, s, s), 1), fields_((), (s, s, 0), 2)]
    return by_tier(tier, c)
