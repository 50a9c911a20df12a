"""P23: permittivity interpolation is linear in the complex refractive index."""
from .common import *  # noqa: F403

FN = ("utils.interpolate_permittivity",)


def squares(sh, dsh):
    """Permittivities given through their refractive indices (n > 0): all passive/active media."""
    def body(i):
        n1, n2 = i["n1"] + 1j * i["k1"], i["n2"] + 1j * i["k2"]
        e1, e2, d = n1**2, n2**2, i["d"]
        y = utils.interpolate_permittivity(e1, e2, d)
        n = d * n1 + (1 - d) * n2
        one, zero = jnp.ones(dsh), jnp.zeros(dsh)
        shape = jnp.broadcast_shapes(sh, dsh)
        if y.shape != shape:
            raise StaticFail(f"shape {y.shape}, expected {shape}")
        return [
            eq("index is linear in density", y, n**2),
            eq("density 1 is solid", utils.interpolate_permittivity(e1, e2, one), jnp.broadcast_to(e1, shape)),
            eq("density 0 is void", utils.interpolate_permittivity(e1, e2, zero), jnp.broadcast_to(e2, shape)),
            eq("swap", utils.interpolate_permittivity(e2, e1, 1 - d), y),
            eq("same material", utils.interpolate_permittivity(e1, e1, d), jnp.broadcast_to(e1, shape)),
        ]
    return Case("P23", f"index_{sh}_{dsh}", {"n1": Pos(*sh), "k1": R(*sh), "n2": Pos(*sh), "k2": R(*sh), "d": R(*dsh, lo=0, hi=1)},
                body, bounds=f"permittivity shape {sh}, density shape {dsh}; all indices with positive real part", functions=FN)


def nocross():
    def body(i):
        n1, n2 = i["n1"] + 1j * i["k1"], i["n2"] + 1j * i["k2"]
        y = utils.interpolate_permittivity(n1**2, n2**2, i["d"])
        a2 = jnp.real(y) ** 2 + jnp.imag(y) ** 2
        n = i["d"] * i["n1"] + (1 - i["d"]) * i["n2"]
        k = i["d"] * i["k1"] + (1 - i["d"]) * i["k2"]
        m = n**2 + k**2
        return [eq("modulus", a2, m**2), true("modulus is positive", m > 0), ge("passive stays passive", jnp.imag(y), 0.0)]
    return Case("P23", "no_zero_crossing", {"n1": Pos(), "k1": R(lo=0), "n2": Pos(), "k2": R(lo=0), "d": R(lo=0, hi=1)}, body,
                assume=lambda i: [i["d"] >= 0, i["d"] <= 1, i["k1"] >= 0, i["k2"] >= 0],
                bounds="all passive media with n > 0, k >= 0, density in [0, 1]", functions=FN)


def realpos():
    def body(i):
        y = utils.interpolate_permittivity(i["a"], i["b"], i["d"])
        lo, hi = jnp.minimum(i["a"], i["b"]), jnp.maximum(i["a"], i["b"])
        return [eq("real stays real", jnp.imag(y), 0.0), ge("above min", jnp.real(y), lo), ge("below max", hi, jnp.real(y))]
    return Case("P23", "real_between", {"a": Pos(), "b": Pos(), "d": R(lo=0, hi=1)}, body,
                assume=lambda i: [i["d"] >= 0, i["d"] <= 1], bounds="all positive real permittivities, density in [0, 1]", functions=FN)


def cases(tier):
    return by_tier(tier, [squares((), ()), squares((), (2, 2)), squares((2,), (3, 2)), squares((2, 1, 1), (2, 2)), nocross(), realpos()])
