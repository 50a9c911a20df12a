"""P06: the Fourier convolution matrix is multiplication by the array."""
from .common import *  # noqa: F403

FN = ("fft.fourier_convolution_matrix", "fft.fft", "fft.ifft")


def mult(en, ex, batch, shape, kind=C, tier="quick"):
    def body(i):
        x, f = i["x"], i["f"]
        cm = fft.fourier_convolution_matrix(x, ex)
        n = ex.num_terms
        if cm.shape != batch + (n, n):
            raise StaticFail(f"shape {cm.shape}")
        prod = fft.fft(x * fft.ifft(f, ex, shape), ex)
        g = [eq("C f = coefficients of the product", (cm @ f[..., None])[..., 0], prod)]
        g.append(eq("zero order column", cm[..., :, 0], dft_coeff(i, x, E(*[tuple(r - ex.basis_coefficients[0]) for r in ex.basis_coefficients]), (-2, -1))))
        if kind is R:
            g.append(eq("Hermitian for a real array", cm, jnp.conj(jnp.swapaxes(cm, -1, -2))))
        return g
    return Case("P06", f"mult_{en}_{batch}_{shape}_{kind.__name__}", {"x": kind(*batch, *shape), "f": C(ex.num_terms), "one": ONE},
                body, bounds=f"array batch {batch} grid {shape}, expansion {en}", functions=FN, tier=tier)


def toeplitz(en, ex, shape, tier="quick"):
    c = ex.basis_coefficients

    def body(i):
        x = i["x"]
        cm = fft.fourier_convolution_matrix(x, ex)
        d = [tuple(int(v) for v in c[a] - c[b]) for a in range(len(c)) for b in range(len(c))]
        ref = dft_coeff(i, x, E(*d), (-2, -1)).reshape((len(c), len(c)))
        return [eq("entry (i, j) is the coefficient of order i - j", cm, ref)]
    return Case("P06", f"toep_{en}_{shape}", {"x": C(*shape), "one": ONE}, body, bounds=f"grid {shape}, {en}", functions=FN[:1], tier=tier)


def const(en, ex, shape):
    def body(i):
        x = i["c"][..., None, None] * jnp.ones(shape)
        cm = fft.fourier_convolution_matrix(x, ex)
        return [eq("constant -> multiple of identity", cm, i["c"][..., None, None] * jnp.eye(ex.num_terms))]
    return Case("P06", f"const_{en}_{shape}", {"c": C(2)}, body, bounds=f"{en} {shape}", functions=FN[:1])


def linear(en, ex, shape):
    def body(i):
        f = lambda x: fft.fourier_convolution_matrix(x, ex)  # noqa: E731
        return [eq("linear", f(i["a"] * i["x"] + i["y"]), i["a"] * f(i["x"]) + f(i["y"]))]
    return Case("P06", f"linear_{en}_{shape}", {"a": C(), "x": C(*shape), "y": C(*shape)}, body, bounds=f"{en} {shape}", functions=FN[:1])


def cases(tier):
    cs = []
    EB = E((0, 0), (0, 1), (-1, 1), (1, -1), (0, -1))
    for en, ex, (n, m) in (("E1", E1, (1, 1)), ("E2", E2, (3, 1)), ("E3", E3, (3, 1)), ("E3Y", E3Y, (1, 3)), ("E5", E5, (3, 3)), ("EB", EB, (3, 3)), ("E9", E9, (3, 3)), ("EA", EA, (5, 5))):
        for s in ((n, m), (n + 1, m + 1), (n + 2, m), (n, m + 3)):
            cs.append(mult(en, ex, (), s, C, "quick"))
            cs.append(toeplitz(en, ex, s, "quick"))
        cs.append(mult(en, ex, (), (n, m), R, "quick"))
        cs.append(mult(en, ex, (2,), (n + 1, m), C, "quick"))
        cs.append(mult(en, ex, (2, 1), (n, m), R, "quick"))
        cs.append(const(en, ex, (n + 1, m + 1)))
        cs.append(linear(en, ex, (n, m)))
    for s in ((6, 6), (8, 7)):
        cs.append(mult("E9", E9, (), s, R))
        cs.append(toeplitz("E9", E9, s))
    E25 = E((0, 0), *[(a, b) for a in range(-2, 3) for b in range(-2, 3) if (a, b) != (0, 0)])
    for s in ((5, 5), (10, 7), (11, 8), (12, 13)):
        cs.append(mult("E25", E25, (), s, R, "thorough"))
        cs.append(toeplitz("E25", E25, s, "thorough"))
    return by_tier(tier, cs)
