"""P02: the Fourier expansion is a symmetric, duplicate-free, ordered, complete set of orders."""
import contextlib
from fractions import Fraction

import z3

from symfm import e2
from symfm.e2 import E2Case, SR, lift

from .common import *  # noqa: F403

FN = ("basis.generate_expansion", "basis.reciprocal")


@contextlib.contextmanager
def shimmed():
    saved = {}
    for mod, name in ((basis, "jnp"), (basis, "onp"), (utils, "jnp")):
        real = getattr(mod, name, None)
        if real is None or getattr(real, "__name__", "") not in ("jax.numpy", "numpy"):
            continue
        saved[(mod, name)] = real
        setattr(mod, name, e2.Shim(real))
    try:
        yield
    finally:
        for (mod, name), real in saved.items():
            setattr(mod, name, real)


def obj(v):
    a = onp.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        a[i] = lift(x)
    return a


# lattice families: symbols -> (u, v) real-space vectors; all have a monomial cell area
FAM = {
    "rect": ({"p": "pos", "q": "pos"}, lambda s: ([s["p"], 0], [0, s["q"]])),
    "rect1": ({"q": "pos"}, lambda s: ([1, 0], [0, s["q"]])),
    "swap1": ({"q": "pos"}, lambda s: ([0, s["q"]], [1, 0])),
    "neg1": ({"q": "pos"}, lambda s: ([1, 0], [0, -1 * s["q"]])),
    "obl1": ({"q": "pos"}, lambda s: ([1, 0], [s["q"] * Fraction(1, 2), s["q"]])),
    "hexlike1": ({"q": "pos"}, lambda s: ([1, 0], [Fraction(1, 2), s["q"]])),
    "shear1": ({"s": "real"}, lambda s: ([1, 0], [s["s"], 1])),
    "rot1": ({"q": "pos"}, lambda s: ([Fraction(3, 5), Fraction(4, 5)], [Fraction(-4, 5) * s["q"], Fraction(3, 5) * s["q"]])),
    "gen": ({"s": "real", "q": "pos"}, lambda s: ([1, 0], [s["s"], s["q"]])),
}


def gram(u, v):
    """Gram matrix and cell area of the reciprocal lattice, up to the factor 1/area^2."""
    uu, vv = u[0] * u[0] + u[1] * u[1], v[0] * v[0] + v[1] * v[1]
    uv = u[0] * v[0] + u[1] * v[1]
    return vv, -uv, uu, u[0] * v[1] - u[1] * v[0]  # |u'|^2 A^2, u'.v' A^2, |v'|^2 A^2, A


def mag2(g, G):
    a, c, b, _ = g
    return int(G[0]) ** 2 * a + 2 * int(G[0]) * int(G[1]) * c + int(G[1]) ** 2 * b


def static_goals(co):
    co = onp.asarray(co)
    S = [tuple(int(x) for x in r) for r in co]
    T = set(S)
    return [
        ("shape", co.ndim == 2 and co.shape[1] == 2 and len(S) >= 1),
        ("integer", onp.issubdtype(co.dtype, onp.integer) or bool(onp.all(co == onp.round(co.astype(float))))),
        ("unique", len(T) == len(S)),
        ("zero first", bool(S) and S[0] == (0, 0)),
        ("closed under negation", all((-a, -b) in T for a, b in T)),
    ], S


def rectangle(S):
    T = set(S)
    nu, nv = max(abs(a) for a, _ in T), max(abs(b) for _, b in T)
    full = {(a, b) for a in range(-nu, nu + 1) for b in range(-nv, nv + 1)}
    return T == full, nu, nv


PI = Fraction(3141592653589793, 10**15)


def case(trunc, fam, n, assume_kind, tier="quick", budget=120.0, box=None):
    syms, mk = FAM[fam]
    T = basis.Truncation.CIRCULAR if trunc == "circ" else basis.Truncation.PARALLELOGRAMIC
    box = box or (n // 2 + 2)

    def assume(s):
        u, v = mk(s)
        u, v = [lift(x) for x in u], [lift(x) for x in v]
        uu, vv = u[0] * u[0] + u[1] * u[1], v[0] * v[0] + v[1] * v[1]
        A = u[0] * v[1] - u[1] * v[0]
        A2 = A * A
        out = []
        if assume_kind == "moderate":  # neither vector much longer than the square root of the area
            out += [uu * uu <= 4 * A2, vv * vv <= 4 * A2]
        else:
            out += [uu <= 900 * vv, vv <= 900 * uu]
        return [e2._zb(x) for x in out]

    def run(s):
        u, v = mk(s)
        lv = basis.LatticeVectors(u=obj(u), v=obj(v))
        with shimmed():
            ex = basis.generate_expansion(lv, n, T)
        goals, S = static_goals(ex.basis_coefficients)
        if not all(bool(g) for _, g in goals):
            return goals
        g = gram([lift(x) for x in u], [lift(x) for x in v])
        for i in range(len(S) - 1):
            goals.append((f"sorted {S[i]} {S[i + 1]}", mag2(g, S[i]) <= mag2(g, S[i + 1])))
        A = g[3]
        absA = abs(A)
        if trunc == "circ":
            R2 = lift(n) * absA * (1 / PI)  # radius^2 * A^2
            longest = S[-1]
            goals.append((f"inside {longest}", mag2(g, longest) * PI <= n * absA * (1 + Fraction(1, 10**9))))
            if assume_kind == "moderate":
                for a in range(-box, box + 1):
                    for b in range(-box, box + 1):
                        if (a, b) not in set(S):
                            goals.append((f"missing {(a, b)}", mag2(g, (a, b)) >= R2 * (1 - Fraction(1, 10**9))))
        else:
            ok, nu, nv = rectangle(S)
            goals.append(("full parallelogram", ok))
            # |nu ku - nv kv| <= (ku + kv) / 2, squared (both sides are non-negative)
            one = 1 + Fraction(1, 10**9)
            if nu:
                goals.append(("side lengths +", (2 * nu - 1) ** 2 * g[0] <= (2 * nv + 1) ** 2 * g[2] * one))
            if nv:
                goals.append(("side lengths -", (2 * nv - 1) ** 2 * g[2] <= (2 * nu + 1) ** 2 * g[0] * one))
            goals.append(("count", 4 * nu * nv <= n <= 4 * (nu + 1) * (nv + 1)))
            for label, m, p, q in (("u", nu, g[0], g[2]), ("v", nv, g[2], g[0])):
                # m is the integer nearest to the x of (2x + 1) (2xr + 1) = n, r = sqrt(p / q)
                for x2, low in ((2 * m - 1, True), (2 * m + 1, False)):
                    c, d = x2 * x2 + x2, n - 1 - x2
                    if low and m:
                        goals.append((f"nearest number -{label}", d >= 0 and c * c * p <= d * d * q * one))
                    elif not low and d > 0:
                        goals.append((f"nearest number +{label}", d * d * q <= c * c * p * one))
        return goals

    def concrete(vals):
        u, v = mk(vals)
        u, v = [float(x) for x in u], [float(x) for x in v]
        A = u[0] * v[1] - u[1] * v[0]
        uu, vv = u[0] ** 2 + u[1] ** 2, v[0] ** 2 + v[1] ** 2
        if abs(A) < 1e-6:
            return None
        if assume_kind == "moderate" and not (uu <= 2 * abs(A) and vv <= 2 * abs(A)):
            return None
        if assume_kind != "moderate" and not (uu <= 900 * vv and vv <= 900 * uu):
            return None
        try:
            ex = basis.generate_expansion(LV(jnp.asarray(u), jnp.asarray(v)), n, T)
        except Exception as e:  # noqa: BLE001
            return "raises", f"{type(e).__name__}: {e}"
        goals, S = static_goals(ex.basis_coefficients)
        for label, ok in goals:
            if not ok:
                return label, S
        g = gram(u, v)
        m = [mag2(g, x) for x in S]
        tol = 1e-7 * max(max(m), abs(A))
        for i in range(len(m) - 1):
            if m[i] > m[i + 1] + tol:
                return "sorted", (S[i], S[i + 1])
        if trunc == "circ":
            R2 = n * abs(A) / onp.pi
            if m[-1] > R2 + tol:
                return "inside", S[-1]
            if assume_kind == "moderate":
                for a in range(-box, box + 1):
                    for b in range(-box, box + 1):
                        if (a, b) not in set(S) and mag2(g, (a, b)) < R2 - tol:
                            return "missing", (a, b)
        else:
            ok, nu, nv = rectangle(S)
            if not ok:
                return "full parallelogram", S
            ku, kv = g[0] ** 0.5, g[2] ** 0.5
            if abs(nu * ku - nv * kv) * 2 > (ku + kv) * (1 + 1e-7):
                return "side lengths", (nu, nv)
            if not 4 * nu * nv <= n <= 4 * (nu + 1) * (nv + 1):
                return "count", (nu, nv)
            for m, r in ((nu, ku / kv), (nv, kv / ku)):
                f = lambda x: (2 * x + 1) * (2 * x * r + 1)  # noqa: E731
                if (m and f(m - 0.5) > n * (1 + 1e-7)) or f(m + 0.5) < n * (1 - 1e-7):
                    return "nearest number", (nu, nv)
        return None

    return E2Case("P02", f"{trunc}_{fam}_n{n}_{assume_kind}", syms, run, assume, concrete,
                  bounds=f"{trunc} truncation, lattice family {fam} (symbols {list(syms)}), "
                         f"requested terms {n}, {assume_kind} aspect", functions=FN, budget_s=budget, tier=tier, cost=n)


def cases(tier):
    cs = []
    for n in range(1, 10):
        cs.append(case("circ", "rect1", n, "moderate"))
        cs.append(case("para", "rect1", n, "any"))
    for n in (1, 2, 3, 4, 5, 6, 7):
        cs.append(case("circ", "rect1", n, "any"))
    for n in (3, 4, 5, 7):
        for f in ("swap1", "neg1", "obl1", "hexlike1", "shear1", "rot1"):
            cs.append(case("circ", f, n, "moderate", tier="quick" if n < 7 else "thorough"))
            cs.append(case("para", f, n, "any", tier="quick" if n < 7 else "thorough"))
    for n in (3, 4, 5, 6):
        cs.append(case("circ", "rect", n, "moderate", tier="quick" if n < 5 else "thorough"))
        cs.append(case("para", "rect", n, "any", tier="quick" if n < 5 else "thorough"))
        cs.append(case("circ", "gen", n, "moderate", tier="quick" if n < 5 else "thorough", budget=200))
    for n in range(10, 31):
        cs.append(case("circ", "rect1", n, "moderate", tier="thorough", budget=600))
        cs.append(case("para", "rect1", n, "any", tier="thorough", budget=600))
    return by_tier(tier, cs)
