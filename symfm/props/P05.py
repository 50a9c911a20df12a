"""P05: Fourier transform to/from the expansion is the exact Fourier series on any grid/axes."""
from .common import *  # noqa: F403

FN = ("fft.fft", "fft.ifft", "fft.min_array_shape_for_expansion")


def fwd(en, ex, shape, axes, kind=C, tier="quick"):
    ax = tuple(a % len(shape) for a in axes)
    pos = min(ax)

    def body(i):
        x = i["x"]
        y = fft.fft(x, ex, axes=axes)
        ref = jnp.moveaxis(dft_coeff(i, x, ex, axes), -1, pos)
        if y.shape != ref.shape:
            raise StaticFail(f"shape {y.shape}, expected {ref.shape}")
        return [eq("coefficients", y, ref)]
    return Case("P05", f"fft_{en}_{shape}_{axes}_{kind.__name__}", {"x": kind(*shape), "one": ONE}, body,
                bounds=f"array {shape}, axes {axes}, expansion {en}, all values", functions=FN[:1], tier=tier)


def inv(en, ex, yshape, axis, shape, tier="quick"):
    def body(i):
        y = i["y"]
        x = fft.ifft(y, ex, shape, axis=axis)
        p = axis % y.ndim
        ref = jnp.moveaxis(fourier_series(i, y, ex, shape, axis), (-2, -1), (p, p + 1))
        if x.shape != ref.shape:
            raise StaticFail(f"shape {x.shape}, expected {ref.shape}")
        back = fft.fft(x, ex, axes=(p, p + 1))
        return [eq("series", x, ref), eq("fft(ifft(y)) = y", back, y)]
    return Case("P05", f"ifft_{en}_{yshape}_{axis}_{shape}", {"y": C(*yshape), "one": ONE}, body,
                bounds=f"coefficients {yshape} axis {axis} to grid {shape}, expansion {en}", functions=FN[:2], tier=tier)


def proj(en, ex, shape, tier="quick"):
    def body(i):
        x = i["x"]
        p = fft.ifft(fft.fft(x, ex), ex, shape)
        return [eq("idempotent", fft.fft(p, ex), fft.fft(x, ex)),
                eq("orthogonal", jnp.sum(jnp.conj(p) * (x - p)), jnp.zeros(()))]
    return Case("P05", f"proj_{en}_{shape}", {"x": C(*shape)}, body, bounds=f"grid {shape}, {en}", functions=FN[:2], tier=tier)


def reject(en, ex, shape):
    def body(i):
        g = [expect_raises("fft", lambda: fft.fft(i["x"], ex)),
             expect_raises("conv", lambda: fft.fourier_convolution_matrix(i["x"], ex)),
             expect_raises("ifft", lambda: fft.ifft(i["y"], ex, shape))]
        return g
    return Case("P05", f"reject_{en}_{shape}", {"x": R(*shape), "y": C(ex.num_terms)}, body, bounds=f"grid {shape} too small for {en}", functions=FN)


def minshape(en, ex):
    c = onp.asarray(ex.basis_coefficients)

    def body(i):
        s = fft.min_array_shape_for_expansion(ex)
        want = tuple(int(2 * abs(c[:, k]).max() + 1) for k in (0, 1))
        if tuple(s) != want:
            raise StaticFail(f"{s} != {want}")
        y = i["y"]
        # at the minimum shape the transform pair is still exactly invertible
        return [eq("invertible at the minimum shape", fft.fft(fft.ifft(y, ex, want), ex), y)]
    return Case("P05", f"min_{en}", {"y": C(ex.num_terms)}, body, bounds=f"{en}", functions=FN)


EB = E((0, 0), (0, 2), (-1, 1), (1, -2), (0, -1))


E25 = E((0, 0), *[(a, b) for a in range(-2, 3) for b in range(-2, 3) if (a, b) != (0, 0)])


def cases(tier):
    cs = []
    for en, ex, mn in (("E1", E1, (1, 1)), ("E3", E3, (3, 1)), ("E3Y", E3Y, (1, 3)), ("E5", E5, (3, 3)), ("EB", EB, (3, 5)), ("EA", EA, (5, 5))):
        n, m = mn
        cs.append(fwd(en, ex, (n, m), (-2, -1)))
        cs.append(fwd(en, ex, (n + 1, m + 1), (0, 1), R))
        cs.append(fwd(en, ex, (2, n + 2, m), (-2, -1), R, "quick"))
        cs.append(fwd(en, ex, (n, m + 1, 2), (0, 1), C, "quick"))
        cs.append(fwd(en, ex, (2, n, m, 2), (-3, -2), R, "quick"))
        cs.append(inv(en, ex, (ex.num_terms,), -1, (n, m)))
        cs.append(inv(en, ex, (ex.num_terms,), 0, (n + 1, m + 2)))
        cs.append(inv(en, ex, (2, ex.num_terms), -1, (n, m + 1)))
        cs.append(inv(en, ex, (2, ex.num_terms, 2), 1, (n + 1, m), "quick"))
        cs.append(inv(en, ex, (ex.num_terms, 2), -2, (n, m)))
        cs.append(proj(en, ex, (n, m)))
        cs.append(proj(en, ex, (n + 1, m + 1), "quick"))
        cs.append(minshape(en, ex))
        if n > 1:
            cs.append(reject(en, ex, (n - 1, m + 3)))
        if m > 1:
            cs.append(reject(en, ex, (n + 3, m - 1)))
    # transformed axes that are not adjacent, or not ascending
    for axes in ((1, 0), (0, 2), (2, 0), (2, 1), (-1, -2)):
        cs.append(fwd("E5", E5, (3, 4, 3), axes, R))
    cs.append(fwd("E2", E2, (3, 2, 3, 2), (2, 0), R))
    for s in ((6, 6), (7, 5), (8, 8), (12, 3), (11, 4), (10, 7)):
        cs.append(fwd("E5", E5, s, (-2, -1), R, "quick"))
        cs.append(inv("E9", E9, (9,), -1, s, "quick"))
        cs.append(inv("EA", EA, (4,), -1, (max(5, s[0]), max(5, s[1])), "quick"))
    for s in ((16, 10), (13, 7), (14, 15), (24, 20), (35, 6)):
        cs.append(fwd("E25", E25, s, (-2, -1), R, "thorough"))
        cs.append(fwd("E9", E9, s, (-1, -2), R, "thorough"))
        cs.append(inv("E25", E25, (25,), -1, s, "thorough"))
    return by_tier(tier, cs)
