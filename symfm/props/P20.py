"""P20: the uniaxial PML is impedance matched, absorbs, and leaves the interior untouched."""
from .common import *  # noqa: F403

FN = ("pml.apply_uniaxial_pml", "pml._crop_and_edge_pad_pml_region", "pml._normalized_distance_into_pml")


def dist(k, n, w):
    """Depth of grid point k of n into a PML of w points per side, normalised to 1 at the border."""
    d = max(w - k, k - (n - 1 - w), 0)
    return onp.float64(d) / w if w else 0.0


def stretch(i, n, w, p):
    d = onp.array([dist(k, n, w) for k in range(n)])
    dd = jnp.asarray(d) * i["one"]
    # sin^2(pi d / 2) = (1 - cos(pi d)) / 2
    s2 = (1 - jnp.real(phase(i, d / 2))) / 2
    return (1 + i["a"] * dd**p) * (1 + 1j * i["s"] * s2)


def formula(shape, wx, wy, p, kind=C, tier="quick"):
    nx, ny = shape[-2:]

    def body(i):
        e = i["e"]
        (exx, exy, eyx, eyy, ezz), (mxx, mxy, myx, myy, mzz) = pml.apply_uniaxial_pml(
            e, pml.PMLParams(num_x=wx, num_y=wy, a_max=i["a"], p=p, sigma_max=i["s"]))
        ix = onp.clip(onp.arange(nx), wx, nx - 1 - wx)
        iy = onp.clip(onp.arange(ny), wy, ny - 1 - wy)
        ep = e[..., ix, :][..., iy]
        sx = stretch(i, nx, wx, p)[:, None]
        sy = stretch(i, ny, wy, p)[None, :]
        g = []
        for nm, got, want in (("exx", exx, sy / sx * ep), ("eyy", eyy, sx / sy * ep), ("ezz", ezz, sx * sy * ep),
                              ("exy", exy, 0 * ep), ("eyx", eyx, 0 * ep), ("mxx", mxx, sy / sx + 0 * ep),
                              ("myy", myy, sx / sy + 0 * ep), ("mzz", mzz, sx * sy + 0 * ep), ("mxy", mxy, 0 * ep), ("myx", myx, 0 * ep)):
            if got.shape != e.shape:
                raise StaticFail(f"{nm}: shape {got.shape}, expected {e.shape}")
            g.append(eq(nm, got, want))
        # impedance matched: the tensors are proportional to each other with the padded permittivity
        g += [eq("matched xx", exx, mxx * ep), eq("matched yy", eyy, myy * ep), eq("matched zz", ezz, mzz * ep)]
        inx = slice(wx, nx - wx)
        iny = slice(wy, ny - wy)
        for nm, t in (("exx", exx), ("eyy", eyy), ("ezz", ezz)):
            g.append(eq(f"interior {nm}", t[..., inx, iny], e[..., inx, iny]))
        for nm, t in (("mxx", mxx), ("myy", myy), ("mzz", mzz)):
            g.append(eq(f"interior {nm}", t[..., inx, iny], jnp.ones_like(e[..., inx, iny])))
        return g
    return Case("P20", f"tensors_{shape}_{wx}_{wy}_p{p}_{kind.__name__}",
                {"e": kind(*shape), "a": Pos(), "s": Pos(), "one": ONE}, body,
                bounds=f"grid {shape}, {wx} and {wy} PML points, exponent {p}; all permittivities, strengths and conductivities",
                functions=FN, tier=tier)


def mirror(shape, wx, wy):
    def body(i):
        pp = pml.PMLParams(num_x=wx, num_y=wy, a_max=i["a"], sigma_max=i["s"])
        g = []
        base = sum(pml.apply_uniaxial_pml(i["e"], pp), ())
        for ax in (-2, -1):
            fl = sum(pml.apply_uniaxial_pml(jnp.flip(i["e"], ax), pp), ())
            for k, (x, y) in enumerate(zip(base, fl)):
                g.append(eq(f"mirror {ax} element {k}", jnp.flip(y, ax), x))
        return g
    return Case("P20", f"mirror_{shape}_{wx}_{wy}", {"e": C(*shape), "a": Pos(), "s": Pos()}, body,
                bounds=f"grid {shape}", functions=FN)


def absorb(n, w):
    """Waves decay into the PML: the stretch grows in magnitude and in loss with depth."""
    def body(i):
        e = jnp.ones((n, 3))
        (exx, _, _, eyy, ezz), _ = pml.apply_uniaxial_pml(e, pml.PMLParams(num_x=w, num_y=0, a_max=i["a"], sigma_max=i["s"]))
        sx = ezz[:, 1]
        g = [eq("no stretch along y", eyy, ezz), eq("inverse along x", exx * ezz, 1.0)]
        for k in range(w):
            g.append(ge(f"real part grows {k}", jnp.real(sx[k]), jnp.real(sx[k + 1])))
            g.append(true(f"loss grows {k}", jnp.imag(sx[k]) > jnp.imag(sx[k + 1])))
            g.append(true(f"loss grows right {k}", jnp.imag(sx[n - 1 - k]) > jnp.imag(sx[n - 2 - k])))
        return g
    return Case("P20", f"absorb_{n}_{w}", {"a": Pos(), "s": Pos()}, body, bounds=f"{n} points, {w} PML points", functions=FN)


def reject(shape, wx, wy):
    def body(i):
        return [expect_raises("too wide", lambda: pml.apply_uniaxial_pml(i["e"], pml.PMLParams(num_x=wx, num_y=wy)), (Exception,))]
    return Case("P20", f"reject_{shape}_{wx}_{wy}", {"e": R(*shape)}, body, bounds="PML covers the whole cell", functions=FN)


def cases(tier):
    c = [formula((5, 4), 1, 1, 4), formula((6, 5), 2, 1, 4), formula((7, 5), 3, 2, 4), formula((5, 7), 0, 3, 4), formula((5, 4), 2, 0, 4),
         formula((4, 4), 0, 0, 4), formula((2, 5, 5), 1, 2, 4), formula((2, 1, 4, 6), 1, 2, 3), formula((6, 5), 2, 2, 2), formula((6, 5), 2, 1, 4, R),
         formula((9, 3), 3, 1, 4), formula((5, 5), 2, 2, 1), formula((3, 3), 1, 1, 4),
         mirror((6, 5), 2, 1), mirror((5, 6), 1, 2), absorb(7, 3), absorb(5, 2), absorb(4, 1),
         reject((4, 4), 2, 2), reject((4, 6), 2, 1), reject((6, 4), 1, 2), reject((4, 4), 3, 0),
         formula((13, 11), 3, 3, 6), formula((12, 13), 2, 3, 3), formula((3, 2, 8, 7), 3, 3, 4)]
    c += [formula((24, 17), 7, 5, 8, tier="thorough"), formula((3, 15, 22), 7, 10, 9, tier="thorough"), mirror((14, 13), 5, 6), absorb(9, 4)]
    return by_tier(tier, c)
