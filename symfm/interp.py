"""Symbolic interpreter for jaxprs over exact `Poly` scalars."""

from __future__ import annotations

import itertools
import math
import time
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
from jax import lax
from jax.extend import core as jcore

from . import poly as P
from .poly import ONE, ZERO, I, Poly, SymBool, Unsupported, GQ

try:  # jax 0.4.38
    from jax._src import core as _core

    Literal = _core.Literal
    DropVar = _core.DropVar
except Exception:  # pragma: no cover
    Literal = jcore.Literal
    DropVar = jcore.DropVar


class Poison:
    """Placeholder for values that are never supposed to be used (LU factors)."""

    def key(self):
        return "poison"

    def __repr__(self):
        return "POISON"


POISON = Poison()


# ---------------------------------------------------------------------------
# Lifting floats to exact constants
# ---------------------------------------------------------------------------

_lift_cache = {}


def _near(x, f, tol):
    return abs(x - float(f)) <= tol * max(1.0, abs(x))


def lift_real_rep(x, single=False):
    """Exact reading of a float: (kind, value). Kinds: 'q' rational, 'pi' (rational
    multiple of pi), 'ipi' (rational over pi), 'pi2', 'sqrt' (signed sqrt), 'nan', 'inf'."""
    if x != x:
        return ("nan", 0)
    if x in (math.inf, -math.inf):
        return ("inf", 1 if x > 0 else -1)
    if x == int(x) and abs(x) < 1e15:
        return ("q", Fraction(int(x)))
    tol = 3e-7 if single else 4e-15
    s = repr(float(x)) if not single else repr(float(np.float32(x)))
    mant = s.split("e")[0].replace("-", "").replace(".", "").strip("0")
    if len(mant) <= (6 if single else 12):
        return ("q", Fraction(s))
    if not single and abs(x) < 1e-14:
        return ("q", Fraction(0))
    f = Fraction(x).limit_denominator(5040)
    if _near(x, f, tol) and (f != 0):
        return ("q", f)
    f = Fraction(x / math.pi).limit_denominator(360)
    if f != 0 and _near(x, float(f) * math.pi, tol):
        return ("pi", f)
    f = Fraction(x * math.pi).limit_denominator(360)
    if f != 0 and _near(x, float(f) / math.pi, tol):
        return ("ipi", f)
    f = Fraction(x * x).limit_denominator(720)
    if f != 0 and _near(abs(x), math.sqrt(float(f)), tol):
        return ("sqrt", f if x > 0 else -f)
    f = Fraction(x / math.pi**2).limit_denominator(100)
    if f != 0 and _near(x, float(f) * math.pi**2, tol):
        return ("pi2", f)
    return ("q", Fraction(x))


def lift_real(x, single=False):
    x = float(x)
    r = _lift_cache.get((x, single))
    if r is None:
        r = lift_real_rep(x, single)
        if x == x:
            _lift_cache[(x, single)] = r
    k, v = r
    if k == "q":
        return Poly.const(v)
    if k == "pi":
        return P.PI().scale(P._n(v))
    if k == "ipi":
        return P.recip(P.PI()).scale(P._n(v))
    if k == "pi2":
        return (P.PI() * P.PI()).scale(P._n(v))
    if k == "sqrt":
        r = P.sqrt_rational(abs(v))
        return r if v > 0 else -r
    if k == "nan":
        return P.fn_atom("nan", ())
    if k == "inf":
        return P.fn_atom("inf", ()).scale(v)
    raise AssertionError(k)


def lift_scalar(x, dtype=None):
    single = dtype is not None and np.dtype(dtype) in (np.dtype(np.float32), np.dtype(np.complex64))
    if isinstance(x, (complex, np.complexfloating)):
        r = lift_real(x.real, single)
        i = lift_real(x.imag, single)
        return r + I * i
    return lift_real(float(x), single)


def is_float(dtype):
    return np.issubdtype(dtype, np.inexact)


def lift_array(a):
    a = np.asarray(a)
    if a.dtype == object or not is_float(a.dtype):
        return a
    out = np.empty(a.shape, dtype=object)
    flat = out.reshape(-1)
    for i, x in enumerate(a.reshape(-1)):
        flat[i] = lift_scalar(x, a.dtype)
    return flat.reshape(a.shape)


def obj(shape, items):
    out = np.empty(len(items), dtype=object)
    for i, x in enumerate(items):
        out[i] = x
    return out.reshape(shape)


def concrete(a):
    return isinstance(a, np.ndarray) and a.dtype != object


def fmap(f, *arrs):
    """Apply f elementwise with numpy broadcasting; result is an object array."""
    arrs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    shape = arrs[0].shape
    flats = [a.reshape(-1) if a.size else [] for a in arrs]
    n = arrs[0].size
    res = [f(*[fl[i] for fl in flats]) for i in range(n)]
    return obj(shape, res)


def maybe_bool(a):
    """Turn an object array of Python bools into a concrete bool array."""
    if a.dtype == object and all(isinstance(x, (bool, np.bool_)) for x in a.reshape(-1)):
        return a.astype(bool)
    return a


# ---------------------------------------------------------------------------
# Scalar operations
# ---------------------------------------------------------------------------


def s_abs_real(p):
    if p.isconst():
        return Poly.const(abs(p.constval()))
    v = P._const_approx(p)
    if v is not None and abs(v.real) > 1e-9:
        return p if v.real > 0 else -p
    if P.ctx().oracle is not None:
        o = P.ctx().oracle
        if o(SymBool("le", -p)) is True:
            return p
        if o(SymBool("le", p)) is True:
            return -p
    p = P.normalize(p)
    if P.inv_exponents(p):
        # |n * inv| = |n| * |inv|
        n, d = P.clear(p)
        out = s_abs_real(n) if P.isreal_syn(n) else P.sqrt_real(n * P.conj(n))
        for a, e in d.items():
            D = P.ctx().atoms[a].arg
            den = s_abs_real(D) if P.isreal_syn(D) else P.sqrt_real(D * P.conj(D))
            out = out * P.recip(den) ** e
        return out
    k, mono, prim = P.content(p)
    if type(k) is GQ or (mono and not P.isreal_syn(Poly({mono: 1}))):
        k, mono, prim = 1, (), p
    out = Poly.const(abs(k))
    for a, e in mono:
        at = P.ctx().atoms[a]
        if at.kind in ("exp", "pi") or (at.kind == "real" and at.meta == "pos"):
            out = out * Poly({((a, e),): 1})
        elif e % 2 == 0:
            out = out * Poly({((a, e),): 1})
        else:
            r = P.sqrt_real(Poly.atom(a) * Poly.atom(a))
            out = out * (r ** e if e > 0 else P.recip(r) ** (-e))
    if prim.isconst():
        return out.scale(abs(prim.constval()))
    return out * P.sqrt_real(prim * prim)


def s_abs(z):
    if P.isreal_syn(z):
        return s_abs_real(z)
    if len(z.t) == 1:
        # pure imaginary / unit-modulus monomials
        ((m, c),) = z.t.items()
        out = ONE
        rest = []
        for a, e in m:
            k = P.ctx().atoms[a].kind
            if k == "expi" or k == "zeta":
                continue
            rest.append((a, e))
        mp = Poly({tuple(rest): 1})
        if P.isreal_syn(mp):
            cm = P.sqrt_rational(Fraction(P.cre(c)) ** 2 + Fraction(P.cim(c)) ** 2)
            return cm * s_abs_real(mp)
    q = z.scale(GQ(0, 1))
    if P.isreal_syn(q):
        return s_abs_real(q)
    return P.sqrt_real(z * P.conj(z))


def s_sqrt(p, cplx):
    if p.iszero():
        return ZERO
    if not P.isreal_syn(p):
        if not cplx:
            raise Unsupported("real sqrt of complex value")
        c = p.isconst()
        if c:
            # exact sqrt of a Gaussian rational where possible
            z = p.constval()
            mod = P.sqrt_rational(Fraction(z.re) ** 2 + Fraction(z.im) ** 2)
            if mod.isconst():
                m = Fraction(mod.constval())
                a = P.sqrt_rational((m + z.re) / 2)
                b = P.sqrt_rational((m - z.re) / 2)
                return a + I * (b if z.im > 0 else -b)
        return P.csqrt_principal(p)
    # real argument
    if p.isconst():
        c = p.constval()
        if c >= 0:
            return P.sqrt_rational(c)
        if not cplx:
            return P.fn_atom("nan", ())
        return I * P.sqrt_rational(-c)
    v = P._const_approx(p)
    sign = None
    if v is not None and abs(v.real) > 1e-9:
        sign = 1 if v.real > 0 else -1
    elif P.ctx().oracle is not None:
        o = P.ctx().oracle
        if o(SymBool("le", -p)) is True:
            sign = 1
        elif o(SymBool("le", p)) is True:
            sign = -1
    if sign == 1:
        return P.sqrt_real(p)
    if sign == -1:
        return I * P.sqrt_real(-p) if cplx else P.fn_atom("nan", ())
    if not cplx:
        P.ctx().notes.add("real sqrt argument assumed non-negative")
        return P.sqrt_real(p)
    b = P.indicator(SymBool("le", -p))
    r = P.sqrt_real(p * (b.scale(2) - ONE))
    return r * (b + I * (ONE - b))


def s_sign(p, cplx=False):
    if cplx and not P.isreal_syn(p):
        return P.ite(P.compare("eq", p, ZERO), ZERO, P.div(p, s_abs(p)))
    lt = P.compare("lt", p, ZERO)
    gt = P.compare("lt", ZERO, p)
    return P.indicator(gt) - P.indicator(lt)


def s_max(a, b):
    return P.ite(P.compare("lt", a, b), b, a)


def s_min(a, b):
    return P.ite(P.compare("lt", b, a), b, a)


def s_cos(p):
    e = P.exp(I * p)
    return (e + P.exp(-(I * p))).scale(Fraction(1, 2))


def s_sin(p):
    e = P.exp(I * p)
    return (e - P.exp(-(I * p))).scale(GQ(0, Fraction(-1, 2)))


def s_pow(a, b):
    if b.isconst():
        c = b.constval()
        if type(c) is not GQ:
            c = Fraction(c)
            if c.denominator == 1:
                return a ** int(c)
            if c.denominator == 2:
                r = s_sqrt(a, not P.isreal_syn(a))
                return r ** int(c.numerator)
    if a.isconst() and a.constval() == 1:
        return ONE
    real = P.isreal_syn(a) and P.isreal_syn(b)
    return P.fn_atom("pow", (a, b), real=real)


P.NUMFN.update(
    {
        "let": lambda x: x,
        "max": lambda *a: complex(max(x.real for x in a)),
        "pow": lambda a, b: complex(a) ** complex(b),
        "nan": lambda: math.nan,
        "inf": lambda: math.inf,
        "f32": lambda x: complex(np.complex64(x)),
        "asin": lambda x: complex(np.arcsin(x.real) if x.imag == 0 else np.arcsin(x)),
        "acos": lambda x: complex(np.arccos(x.real) if x.imag == 0 else np.arccos(x)),
        "atan": lambda x: complex(np.arctan(x)),
        "atan2": lambda y, x: complex(math.atan2(y.real, x.real)),
        "log": lambda x: complex(np.log(complex(x))),
        "tanh": lambda x: complex(np.tanh(x)),
        "erf": lambda x: complex(math.erf(x.real)),
        "logistic": lambda x: 1 / (1 + complex(np.exp(-x))),
        "floor": lambda x: complex(math.floor(x.real)),
        "ceil": lambda x: complex(math.ceil(x.real)),
        "round": lambda x: complex(round(x.real)),
        "cbrt": lambda x: complex(np.cbrt(x.real)),
        "log1p": lambda x: complex(np.log(1 + complex(x))),
    }
)


def s_fn(name):
    def f(*args):
        real = all(P.isreal_syn(a) for a in args)
        return P.fn_atom(name, args, real=real)

    return f


def s_asin(p):
    if p.iszero():
        return ZERO
    if p.isconst() and p.constval() in (1, -1):
        return P.PI().scale(Fraction(int(p.constval()), 2))
    return s_fn("asin")(p)


def s_acos(p):
    if p.isconst() and p.constval() == 1:
        return ZERO
    if p.isconst() and p.constval() == 0:
        return P.PI().scale(Fraction(1, 2))
    if p.isconst() and p.constval() == -1:
        return P.PI()
    return s_fn("acos")(p)


def s_atan2(y, x):
    if y.iszero() and x.isconst() and P.cre(x.constval()) > 0:
        return ZERO
    return s_fn("atan2")(y, x)


def s_log(p):
    if p.isconst() and p.constval() == 1:
        return ZERO
    return s_fn("log")(p)


# ---------------------------------------------------------------------------
# Linear algebra
# ---------------------------------------------------------------------------


def _blocks(A):
    """Connected components of the non-zero pattern: list of (rows, cols)."""
    n = A.shape[0]
    parent = list(range(2 * n))

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x

    for i in range(n):
        for j in range(n):
            if A[i, j].t:
                a, b = find(i), find(n + j)
                if a != b:
                    parent[a] = b
    comp = {}
    for i in range(n):
        comp.setdefault(find(i), ([], []))[0].append(i)
    for j in range(n):
        comp.setdefault(find(n + j), ([], []))[1].append(j)
    return list(comp.values())


def _det(M):
    """Determinant by expansion with memo (small) of a list-of-lists of Polys."""
    n = len(M)
    memo = {}

    def rec(r, cols):
        if r == n:
            return ONE
        k = (r, cols)
        if k in memo:
            return memo[k]
        s = ZERO
        sg = 1
        for idx, c in enumerate(cols):
            x = M[r][c]
            if x.t:
                m = rec(r + 1, cols[:idx] + cols[idx + 1 :])
                t = x * m
                s = s + (t if sg == 1 else -t)
            sg = -sg
        memo[k] = s
        return s

    return rec(0, tuple(range(n)))


def solve2(A, B):
    """Exact solve of A X = B for object arrays (n,n), (n,k)."""
    n = A.shape[0]
    k = B.shape[1]
    X = np.empty((n, k), dtype=object)
    X[...] = ZERO
    for rows, cols in _blocks(A):
        if len(rows) != len(cols):
            raise ZeroDivisionError("structurally singular matrix")
        sub = [[P.normalize(A[i, j]) for j in cols] for i in rows]
        rhs = [[B[i, c] for c in range(k)] for i in rows]
        sol = _solve_dense(sub, rhs)
        for a, j in enumerate(cols):
            for c in range(k):
                X[j, c] = sol[a][c]
    return X


def _solve_dense(A, B):
    n = len(A)
    k = len(B[0])
    if n == 1:
        d = A[0][0]
        return [[P.div(B[0][c], d) if B[0][c].t else _zdiv(d) for c in range(k)]]
    allconst = all(x.isconst() for r in A for x in r)
    if n == 2 and not allconst:
        (a, b), (c, d) = A
        det = P.normalize(a * d - b * c)
        di = P.recip(det)
        inv = [[d * di, -(b * di)], [-(c * di), a * di]]
        return [
            [P.normalize(inv[i][0] * B[0][j] + inv[i][1] * B[1][j]) for j in range(k)]
            for i in range(2)
        ]
    # Gauss-Jordan with simplest pivots (preferring constants and short polynomials).
    A = [list(r) for r in A]
    B = [list(r) for r in B]
    nr = list(range(n))
    used = [False] * n
    colperm = [None] * n
    remaining_cols = list(range(n))
    for _ in range(n):
        best = None
        for i in range(n):
            if used[i]:
                continue
            for j in remaining_cols:
                x = A[i][j]
                if not x.t:
                    continue
                nn, _d = P.clear(x)
                if not nn.t:
                    A[i][j] = ZERO
                    continue
                cost = (0 if x.isconst() else 1, len(x.t), len(x.atoms()))
                if best is None or cost < best[0]:
                    best = (cost, i, j)
                    if cost[0] == 0:
                        break
            if best is not None and best[0][0] == 0:
                break
        if best is None:
            raise ZeroDivisionError("singular matrix")
        _, i, j = best
        used[i] = True
        colperm[j] = i
        remaining_cols.remove(j)
        pi = P.recip(A[i][j])
        A[i] = [P.normalize(x * pi) if x.t else x for x in A[i]]
        B[i] = [P.normalize(x * pi) if x.t else x for x in B[i]]
        for r in range(n):
            if r != i and A[r][j].t:
                f = A[r][j]
                A[r] = [
                    (P.normalize(x - f * y) if y.t else x) for x, y in zip(A[r], A[i])
                ]
                B[r] = [
                    (P.normalize(x - f * y) if y.t else x) for x, y in zip(B[r], B[i])
                ]
    return [B[colperm[j]] for j in range(n)]


def _same(x, y):
    return x.t == y.t or not P.clear(x - y)[0].t


def _zdiv(d):
    P.recip(d)
    return ZERO


# ---------------------------------------------------------------------------
# Interpreter
# ---------------------------------------------------------------------------


class EigCall:
    def __init__(self, matrix, w, v):
        self.matrix = matrix
        self.w = w
        self.v = v
        self.kind = "eig"


class Thunk:
    """A value that is computed when it is first needed."""

    def __init__(self, fn, var):
        self.fn, self.var, self.done, self.value = fn, var, False, None

    def force(self):
        if not self.done:
            self.value, self.done = self.fn(self.var), True
        return self.value


def uniform(w):
    """The branch index if the selector is the same constant everywhere, else None."""
    w = np.asarray(w)
    if w.size == 0:
        return None
    if w.dtype != object:
        k = w.reshape(-1)[0]
        return int(k) if np.all(w == k) else None
    vals = {bool(x) if isinstance(x, (bool, np.bool_)) else None for x in w.reshape(-1)}
    k = vals.pop() if len(vals) == 1 else None
    return None if k is None else int(k)


class Interp:
    def __init__(self):
        self.prims = {}
        self.eigcalls = []
        self.eigmemo = {}
        self.deadline = None
        self.opaque_solve = 0
        self.opaque_max = 0
        self.let_terms = 0

    # -- running a closed jaxpr
    def run_closed(self, closed, args):
        consts = [self.lift_const(c) for c in closed.consts]
        return self.run(closed.jaxpr, consts, args)

    def lift_const(self, c):
        if isinstance(c, np.ndarray) and c.dtype == object:
            return c
        return lift_array(np.asarray(c))

    def run(self, jaxpr, consts, args):
        """Demand-driven: an operand that no selected branch needs is not executed."""
        env = {}
        maker = {}

        def const(v):
            return lift_array(np.asarray(v.val, dtype=v.aval.dtype))

        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            for v in eqn.outvars:
                if not isinstance(v, DropVar):
                    maker[v] = eqn

        def ready(v):
            """Value of v if it is available, else None (and the equation to run first)."""
            if isinstance(v, Literal):
                return const(v)
            x = env.get(v)
            if isinstance(x, Thunk):
                x = env[v] = x.force()
            return x

        def execute(eqn, vals):
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("symbolic execution budget exhausted")
            name = eqn.primitive.name
            self.prims[name] = self.prims.get(name, 0) + 1
            outs = self.eqn(eqn, name, vals)
            if not eqn.primitive.multiple_results:
                outs = [outs]
            for v, o in zip(eqn.outvars, outs):
                if isinstance(v, DropVar):
                    continue
                if isinstance(o, Thunk):
                    o = o.force()
                o = np.asarray(o)
                if o.shape != tuple(v.aval.shape):
                    o = o.reshape(tuple(v.aval.shape))
                if self.let_terms and o.dtype == object:
                    o = fmap(self.let, o)
                env[v] = o

        def demand(v0):
            stack = [v0]
            while stack:
                v = stack[-1]
                if ready(v) is not None:
                    stack.pop()
                    continue
                eqn = maker[v]
                name = eqn.primitive.name
                if name == "select_n":
                    w = ready(eqn.invars[0])
                    if w is None:
                        stack.append(eqn.invars[0])
                        continue
                    k = uniform(w)
                    if k is not None:
                        x = eqn.invars[1 + k]
                        xv = ready(x)
                        if xv is None:
                            stack.append(x)
                            continue
                        self.prims[name] = self.prims.get(name, 0) + 1
                        env[v] = xv
                        continue
                elif name == "pjit" and eqn.params.get("name") == "_where":
                    execute(eqn, [const(x) if isinstance(x, Literal) else env[x] if x in env else Thunk(demand, x) for x in eqn.invars])
                    continue
                elif name in ("or", "and") and eqn.outvars[0].aval.dtype == np.bool_:
                    short = None
                    for x in reversed(eqn.invars):
                        xv = ready(x)
                        if xv is None:
                            stack.append(x)
                            break
                        if uniform(xv) == (1 if name == "or" else 0):
                            short = x
                            break
                    if short is not None:
                        self.prims[name] = self.prims.get(name, 0) + 1
                        env[v] = np.full(tuple(v.aval.shape), name == "or")
                        continue
                    if stack[-1] is not v:
                        continue
                missing = [x for x in eqn.invars if ready(x) is None]
                if missing:
                    stack.append(missing[0])
                    continue
                execute(eqn, [ready(x) for x in eqn.invars])
            return ready(v0)

        return [demand(v) for v in jaxpr.outvars]

    def let(self, x):
        """Name a large value that depends on an unevaluated linear system; equal values share the name."""
        if not isinstance(x, Poly) or len(x.t) <= self.let_terms or not P.ctx().is_opaque(x):
            return x
        x = P.normalize(x)
        real = P.isreal_syn(x)
        if not real:
            c = P.normalize(P.conj(x))
            if repr(c.key()) < repr(x.key()):
                return P.conj(P.fn_atom("let", (c,), real=False))
        return P.fn_atom("let", (x,), real=real)

    # -- single equation
    def eqn(self, eqn, name, vals):
        h = getattr(self, "p_" + name.replace("-", "_"), None)
        outav = eqn.outvars[0].aval if eqn.outvars else None
        if h is None and all(concrete(v) for v in vals) and vals and not any(
            hasattr(o.aval, "dtype") and is_float(o.aval.dtype) for o in eqn.outvars
        ):
            return self.bind(eqn, vals)
        if h is None and not vals:
            outs = self.bind(eqn, vals)
            if eqn.primitive.multiple_results:
                return [lift_array(o) for o in outs]
            return lift_array(outs)
        if h is None:
            raise Unsupported(f"primitive {name}")
        return h(eqn, *vals)

    def bind(self, eqn, vals):
        sub = eqn.primitive.bind(*[jnp.asarray(v) for v in vals], **eqn.params)
        if eqn.primitive.multiple_results:
            return [np.asarray(s) for s in sub]
        return np.asarray(sub)

    # -- generic structural: run the primitive on index arrays
    def structural(self, eqn, data, extra=()):
        """data: list of object/concrete arrays that are moved around; extra: others."""
        pools = []
        off = 0
        idxs = []
        for d in data:
            n = d.size
            idxs.append(jnp.asarray(np.arange(off, off + n, dtype=np.int64).reshape(d.shape)))
            pools.append(d.reshape(-1))
            off += n
        res = eqn.primitive.bind(*idxs, *[jnp.asarray(e) for e in extra], **eqn.params)
        res = np.asarray(res)
        if all(concrete(d) for d in data):
            pool = np.concatenate(pools) if pools else np.zeros(0)
            return pool[res.reshape(-1)].reshape(res.shape) if res.size else np.zeros(res.shape, pool.dtype)
        pool = np.empty(off, dtype=object)
        k = 0
        for p in pools:
            for x in p:
                pool[k] = x
                k += 1
        flat = res.reshape(-1)
        nanp = None
        out = np.empty(flat.size, dtype=object)
        for i, r in enumerate(flat):
            if r < 0 or r >= off:
                if nanp is None:
                    nanp = P.fn_atom("nan", ())
                out[i] = nanp
            else:
                out[i] = pool[r]
        return out.reshape(res.shape)

    def _struct1(self, eqn, x, *rest):
        if concrete(x) and not rest:
            return self.bind(eqn, [x])
        return self.structural(eqn, [x], rest)

    p_dynamic_slice = _struct1

    def p_reshape(self, eqn, x, *rest):
        if rest or eqn.params.get("dimensions") is not None:
            return self._struct1(eqn, x, *rest)
        return x.reshape(tuple(eqn.params["new_sizes"]))

    def p_transpose(self, eqn, x):
        return np.transpose(x, tuple(eqn.params["permutation"]))

    def p_broadcast_in_dim(self, eqn, x, *rest):
        if rest:
            return self._struct1(eqn, x, *rest)
        shape, dims = tuple(eqn.params["shape"]), tuple(eqn.params["broadcast_dimensions"])
        mid = [1] * len(shape)
        for k, d in enumerate(dims):
            mid[d] = x.shape[k]
        return np.array(np.broadcast_to(x.reshape(mid), shape))

    def p_slice(self, eqn, x):
        st = eqn.params["strides"] or (1,) * x.ndim
        return np.array(x[tuple(slice(a, b, c) for a, b, c in zip(eqn.params["start_indices"], eqn.params["limit_indices"], st))]).reshape(
            tuple(eqn.outvars[0].aval.shape)
        )

    def p_squeeze(self, eqn, x):
        return x.reshape(tuple(eqn.outvars[0].aval.shape))

    p_expand_dims = p_squeeze

    def p_rev(self, eqn, x):
        return np.flip(x, tuple(eqn.params["dimensions"]))

    def p_copy(self, eqn, x):
        return x

    p_copy_p = p_copy

    def p_gather(self, eqn, x, idx):
        if not concrete(idx):
            raise Unsupported("symbolic gather index")
        if concrete(x):
            return self.bind(eqn, [x, idx])
        params = dict(eqn.params)
        # For out-of-bounds fill use a sentinel that maps to NaN.
        data = jnp.asarray(np.arange(x.size, dtype=np.int64).reshape(x.shape))
        if params.get("fill_value", None) is not None:
            fv = params["fill_value"]
            params["fill_value"] = -1
            res = np.asarray(eqn.primitive.bind(data, jnp.asarray(idx), **params))
            fill = lift_scalar(fv)
        else:
            res = np.asarray(eqn.primitive.bind(data, jnp.asarray(idx), **params))
            fill = None
        flat = x.reshape(-1)
        out = []
        for r in res.reshape(-1):
            if r < 0 or r >= x.size:
                out.append(fill if fill is not None else P.fn_atom("nan", ()))
            else:
                out.append(flat[r])
        return obj(res.shape, out)

    def p_pad(self, eqn, x, pv):
        if concrete(x) and concrete(pv):
            return self.bind(eqn, [x, pv])
        return self.structural(eqn, [x, pv])

    def p_concatenate(self, eqn, *xs):
        if all(x.dtype == object for x in xs) or (all(concrete(x) for x in xs) and len({x.dtype for x in xs}) == 1):
            return np.concatenate(xs, axis=eqn.params["dimension"])
        if all(concrete(x) for x in xs):
            return self.bind(eqn, list(xs))
        return self.structural(eqn, list(xs))

    def p_dynamic_update_slice(self, eqn, x, u, *idx):
        if any(not concrete(i) for i in idx):
            raise Unsupported("symbolic index")
        if concrete(x) and concrete(u):
            return self.bind(eqn, [x, u, *idx])
        return self.structural(eqn, [x, u], idx)

    def p_scatter(self, eqn, x, idx, u):
        if not concrete(idx):
            raise Unsupported("symbolic scatter index")
        if concrete(x) and concrete(u):
            return self.bind(eqn, [x, idx, u])
        off = x.size
        xi = jnp.asarray(np.arange(off, dtype=np.int64).reshape(x.shape))
        ui = jnp.asarray(np.arange(off, off + u.size, dtype=np.int64).reshape(u.shape))
        params = dict(eqn.params)
        params["update_jaxpr"] = None
        params["update_consts"] = ()
        res = np.asarray(eqn.primitive.bind(xi, jnp.asarray(idx), ui, **params))
        pool = list(x.reshape(-1)) + list(u.reshape(-1))
        return obj(res.shape, [pool[r] for r in res.reshape(-1)])

    def _scatter_op(self, eqn, x, idx, u, op):
        """Sequential scatter with a combiner: locate targets by scattering one-hots."""
        if not concrete(idx):
            raise Unsupported("symbolic scatter index")
        if concrete(x) and concrete(u):
            return self.bind(eqn, [x, idx, u])
        # Use the int scatter-add on a matrix encoding: each update contributes 2^k -> too
        # large; instead do one bind per update element.
        params = dict(eqn.params)
        out = x.reshape(-1).copy()
        z = jnp.zeros(x.shape, dtype=jnp.int64)
        from jax._src.lax import slicing

        params["update_jaxpr"] = None
        params["update_consts"] = ()
        params["unique_indices"] = False
        uf = u.reshape(-1)
        onehots = np.zeros((u.size,) + u.shape, dtype=np.int64)
        for k in range(u.size):
            onehots.reshape(u.size, -1)[k, k] = 1
        f = jax.vmap(
            lambda oh: lax.scatter_add(
                z,
                jnp.asarray(idx),
                oh,
                params["dimension_numbers"],
                indices_are_sorted=False,
                unique_indices=False,
                mode=params["mode"],
            )
        )
        hits = np.asarray(f(jnp.asarray(onehots))).reshape(u.size, -1)
        for k in range(u.size):
            for t in np.nonzero(hits[k])[0]:
                out[t] = op(out[t], uf[k])
        return obj(x.shape, list(out))

    def p_scatter_add(self, eqn, x, idx, u):
        return self._scatter_op(eqn, x, idx, u, lambda a, b: a + b)

    def p_scatter_mul(self, eqn, x, idx, u):
        return self._scatter_op(eqn, x, idx, u, lambda a, b: a * b)

    p_scatter_sub = lambda self, eqn, x, idx, u: self._scatter_op(eqn, x, idx, u, lambda a, b: a - b)

    def p_scatter_max(self, eqn, x, idx, u):
        return self._scatter_op(eqn, x, idx, u, s_max)

    def p_scatter_min(self, eqn, x, idx, u):
        return self._scatter_op(eqn, x, idx, u, s_min)

    # -- elementwise arithmetic
    def _ew(self, f, eqn, *vals):
        if all(concrete(v) for v in vals):
            return self.bind(eqn, vals)
        vals = [v if v.dtype == object else lift_int(v) for v in vals]
        return fmap(f, *vals)

    def p_add(self, eqn, a, b):
        return self._ew(lambda x, y: x + y, eqn, a, b)

    p_add_any = p_add

    def p_sub(self, eqn, a, b):
        return self._ew(lambda x, y: x - y, eqn, a, b)

    def p_mul(self, eqn, a, b):
        return self._ew(lambda x, y: x * y, eqn, a, b)

    def p_div(self, eqn, a, b):
        def f(x, y):
            if y.iszero():
                return P.fn_atom("nan", ())
            return P.div(x, y)

        return self._ew(f, eqn, a, b)

    def p_rem(self, eqn, a, b):
        def f(x, y):
            if x.isconst() and y.isconst():
                xv, yv = Fraction(x.constval()), Fraction(y.constval())
                r = xv - yv * math.trunc(xv / yv)
                return Poly.const(r)
            raise Unsupported("symbolic rem")

        return self._ew(f, eqn, a, b)

    def p_neg(self, eqn, a):
        return self._ew(lambda x: -x, eqn, a)

    def p_sign(self, eqn, a):
        c = np.issubdtype(eqn.invars[0].aval.dtype, np.complexfloating)
        return self._ew(lambda x: s_sign(x, c), eqn, a)

    def p_max(self, eqn, a, b):
        return self._ew(s_max, eqn, a, b)

    def p_min(self, eqn, a, b):
        return self._ew(s_min, eqn, a, b)

    def p_clamp(self, eqn, lo, x, hi):
        return self._ew(lambda l, v, h: s_min(s_max(v, l), h), eqn, lo, x, hi)

    def p_integer_pow(self, eqn, a):
        y = eqn.params["y"]
        return self._ew(lambda x: x**y, eqn, a)

    def p_square(self, eqn, a):
        return self._ew(lambda x: x * x, eqn, a)

    def p_pow(self, eqn, a, b):
        return self._ew(s_pow, eqn, a, b)

    def p_sqrt(self, eqn, a):
        c = np.issubdtype(eqn.invars[0].aval.dtype, np.complexfloating)
        return self._ew(lambda x: s_sqrt(x, c), eqn, a)

    def p_rsqrt(self, eqn, a):
        c = np.issubdtype(eqn.invars[0].aval.dtype, np.complexfloating)
        return self._ew(lambda x: P.recip(s_sqrt(x, c)), eqn, a)

    def p_cbrt(self, eqn, a):
        return self._ew(s_fn("cbrt"), eqn, a)

    def p_abs(self, eqn, a):
        return self._ew(s_abs, eqn, a)

    def p_exp(self, eqn, a):
        return self._ew(P.exp, eqn, a)

    def p_exp2(self, eqn, a):
        return self._ew(lambda x: s_fn("exp2")(x), eqn, a)

    def p_expm1(self, eqn, a):
        return self._ew(lambda x: P.exp(x) - ONE, eqn, a)

    def p_log(self, eqn, a):
        return self._ew(s_log, eqn, a)

    def p_log1p(self, eqn, a):
        return self._ew(lambda x: s_log(ONE + x), eqn, a)

    def p_sin(self, eqn, a):
        return self._ew(s_sin, eqn, a)

    def p_cos(self, eqn, a):
        return self._ew(s_cos, eqn, a)

    def p_tan(self, eqn, a):
        return self._ew(lambda x: P.div(s_sin(x), s_cos(x)), eqn, a)

    def p_sinh(self, eqn, a):
        return self._ew(lambda x: (P.exp(x) - P.exp(-x)).scale(Fraction(1, 2)), eqn, a)

    def p_cosh(self, eqn, a):
        return self._ew(lambda x: (P.exp(x) + P.exp(-x)).scale(Fraction(1, 2)), eqn, a)

    def p_tanh(self, eqn, a):
        def f(x):
            e = P.exp(x.scale(2))
            return P.div(e - ONE, e + ONE)

        return self._ew(f, eqn, a)

    def p_logistic(self, eqn, a):
        return self._ew(lambda x: P.recip(ONE + P.exp(-x)), eqn, a)

    def p_asin(self, eqn, a):
        return self._ew(s_asin, eqn, a)

    def p_acos(self, eqn, a):
        return self._ew(s_acos, eqn, a)

    def p_atan(self, eqn, a):
        return self._ew(lambda x: ZERO if x.iszero() else s_fn("atan")(x), eqn, a)

    def p_atan2(self, eqn, a, b):
        return self._ew(s_atan2, eqn, a, b)

    def p_erf(self, eqn, a):
        return self._ew(s_fn("erf"), eqn, a)

    def _rnd(self, name, f):
        def g(x):
            if x.isconst():
                return Poly.const(f(Fraction(x.constval())))
            v = P._const_approx(x)
            if v is not None:
                return Poly.const(f(Fraction(v.real)))
            return s_fn(name)(x)

        return g

    def p_floor(self, eqn, a):
        return self._ew(self._rnd("floor", math.floor), eqn, a)

    def p_ceil(self, eqn, a):
        return self._ew(self._rnd("ceil", math.ceil), eqn, a)

    def p_round(self, eqn, a):
        return self._ew(self._rnd("round", round), eqn, a)

    def p_is_finite(self, eqn, a):
        nan = P.ctx().table.get(("fn", "nan", ()))
        inf = P.ctx().table.get(("fn", "inf", ()))
        bad = {x.id for x in (nan, inf) if x is not None}
        return np.array([not (x.atoms() & bad) for x in a.reshape(-1)], dtype=bool).reshape(a.shape)

    def p_real(self, eqn, a):
        return self._ew(P.re, eqn, a)

    def p_imag(self, eqn, a):
        return self._ew(P.im, eqn, a)

    def p_conj(self, eqn, a):
        return self._ew(P.conj, eqn, a)

    def p_complex(self, eqn, a, b):
        return self._ew(lambda x, y: x + I * y, eqn, a, b)

    def p_stop_gradient(self, eqn, a):
        return a

    def p_device_put(self, eqn, *a):
        return list(a)

    def p_optimization_barrier(self, eqn, *a):
        return list(a)

    def p_reduce_precision(self, eqn, a):
        return a

    # -- booleans & comparisons
    def _cmp(self, f, eqn, a, b):
        if concrete(a) and concrete(b):
            return self.bind(eqn, [a, b])
        if _boolish(a) or _boolish(b):
            raise Unsupported("comparison of symbolic booleans")
        a = a if a.dtype == object else lift_int(a)
        b = b if b.dtype == object else lift_int(b)
        return maybe_bool(fmap(f, a, b))

    def p_lt(self, eqn, a, b):
        return self._cmp(lambda x, y: cmp_special("lt", x, y), eqn, a, b)

    def p_le(self, eqn, a, b):
        return self._cmp(lambda x, y: cmp_special("le", x, y), eqn, a, b)

    def p_gt(self, eqn, a, b):
        return self._cmp(lambda x, y: cmp_special("lt", y, x), eqn, a, b)

    def p_ge(self, eqn, a, b):
        return self._cmp(lambda x, y: cmp_special("le", y, x), eqn, a, b)

    def p_eq(self, eqn, a, b):
        if _boolish(a) or _boolish(b):
            return maybe_bool(
                fmap(lambda x, y: P.bor(P.band(x, y), P.band(P.bnot(x), P.bnot(y))), _b(a), _b(b))
            )
        return self._cmp(lambda x, y: cmp_special("eq", x, y), eqn, a, b)

    def p_ne(self, eqn, a, b):
        if _boolish(a) or _boolish(b):
            return maybe_bool(
                fmap(lambda x, y: P.bor(P.band(x, P.bnot(y)), P.band(P.bnot(x), y)), _b(a), _b(b))
            )
        return self._cmp(lambda x, y: P.bnot(cmp_special("eq", x, y)), eqn, a, b)

    def p_and(self, eqn, a, b):
        if concrete(a) and concrete(b):
            return self.bind(eqn, [a, b])
        return maybe_bool(fmap(P.band, _b(a), _b(b)))

    def p_or(self, eqn, a, b):
        if concrete(a) and concrete(b):
            return self.bind(eqn, [a, b])
        return maybe_bool(fmap(P.bor, _b(a), _b(b)))

    def p_xor(self, eqn, a, b):
        if concrete(a) and concrete(b):
            return self.bind(eqn, [a, b])
        return self.p_ne(eqn, a, b)

    def p_not(self, eqn, a):
        if concrete(a):
            return self.bind(eqn, [a])
        return maybe_bool(fmap(P.bnot, a))

    def p_select_n(self, eqn, which, *cases):
        if concrete(which) and all(concrete(c) for c in cases):
            return self.bind(eqn, [which, *cases])
        if concrete(which):
            w = np.broadcast_to(which, cases[0].shape) if cases[0].shape else which
            sel = w.astype(int).reshape(-1)
            cs = [(c if c.dtype == object else _objlift(c, eqn)).reshape(-1) for c in cases]
            return obj(cases[0].shape, [cs[k][i] for i, k in enumerate(sel)])
        w = np.broadcast_to(which, cases[0].shape) if cases[0].shape else which
        boolcase = eqn.outvars[0].aval.dtype == np.bool_
        if len(cases) != 2:
            raise Unsupported("select_n with symbolic integer selector")
        f, t = cases
        if boolcase:
            return maybe_bool(
                fmap(
                    lambda c, x, y: P.bor(P.band(c, y), P.band(P.bnot(c), x)),
                    w, _b(f), _b(t),
                )
            )
        if concrete(f) and concrete(t):
            f, t = lift_int(f), lift_int(t)
        else:
            f = f if f.dtype == object else lift_int(f)
            t = t if t.dtype == object else lift_int(t)
        return fmap(lambda c, x, y: P.ite(c, y, x), w, f, t)

    # -- dtype conversion
    def p_convert_element_type(self, eqn, a):
        src = eqn.invars[0].aval.dtype
        dst = np.dtype(eqn.params["new_dtype"])
        if not is_float(dst):
            if concrete(a):
                return a.astype(dst)
            if dst == np.bool_:
                if _boolish(a):
                    return a
                return maybe_bool(fmap(lambda x: P.bnot(P.compare("eq", x, ZERO)), a))
            # float -> int or bool -> int
            if _boolish(a):
                return fmap(P.indicator, _b(a))
            if all(x.isconst() for x in a.reshape(-1)):
                return np.array(
                    [math.trunc(Fraction(P.cre(x.constval()))) for x in a.reshape(-1)], dtype=dst
                ).reshape(a.shape)
            if not is_float(src):
                return a
            raise Unsupported("symbolic float to int conversion")
        if concrete(a):
            return lift_int(a)
        if _boolish(a):
            return fmap(P.indicator, _b(a))
        if np.issubdtype(src, np.complexfloating) and not np.issubdtype(dst, np.complexfloating):
            a = fmap(P.re, a)
        if is_float(src) and _prec(dst) < _prec(src):
            P.ctx().notes.add("narrowing float conversion modelled as uninterpreted rounding")

            def nar(x):
                if x.isconst():
                    c = x.constval()
                    z = complex(float(P.cre(c)), float(P.cim(c)))
                    if complex(np.complex64(z)) == z:
                        return x
                return P.fn_atom("f32", (x,), real=P.isreal_syn(x))

            a = fmap(nar, a)
        return a

    # -- reductions
    def _reduce(self, eqn, a, op, init):
        axes = tuple(sorted(eqn.params["axes"]))
        if concrete(a):
            return self.bind(eqn, [a])
        keep = [d for d in range(a.ndim) if d not in axes]
        x = np.transpose(a, keep + list(axes))
        shape = tuple(a.shape[d] for d in keep)
        n = int(np.prod([a.shape[d] for d in axes], dtype=int))
        x = x.reshape((-1, n)) if x.size else x.reshape((int(np.prod(shape, dtype=int)), n))
        out = []
        for row in x:
            acc = init
            for y in row:
                acc = y if acc is None else op(acc, y)
            out.append(acc)
        return obj(shape, out)

    def p_reduce_sum(self, eqn, a):
        return self._reduce(eqn, a, lambda x, y: x + y, ZERO)

    def p_reduce_prod(self, eqn, a):
        return self._reduce(eqn, a, lambda x, y: x * y, ONE)

    def p_reduce_max(self, eqn, a):
        if self.opaque_max and not concrete(a):
            return self._reduce_opaque(eqn, a)
        return self._reduce(eqn, a, s_max, None)

    def _reduce_opaque(self, eqn, a):
        """Maximum of many symbolic entries as one value, identified by the set of entries."""
        axes = tuple(sorted(eqn.params["axes"]))
        keep = [d for d in range(a.ndim) if d not in axes]
        shape = tuple(a.shape[d] for d in keep)
        n = int(np.prod([a.shape[d] for d in axes], dtype=int))
        out = []
        for row in np.transpose(a, keep + list(axes)).reshape((-1, n)):
            best = []
            for y in row:
                y = P.normalize(y)
                for k, x in enumerate(best):
                    c = P.compare("lt", x, y)
                    if c is True:
                        best[k] = y
                        break
                    if c is False:
                        break
                else:
                    best.append(y)
            uniq = {x.key(): x for x in best}
            out.append(next(iter(uniq.values())) if len(uniq) == 1 else P.fn_atom("max", [uniq[k] for k in sorted(uniq, key=repr)]))
        return obj(shape, out)

    def p_reduce_min(self, eqn, a):
        return self._reduce(eqn, a, s_min, None)

    def p_reduce_and(self, eqn, a):
        r = self._reduce(eqn, a, P.band, True)
        return r if concrete(r) else maybe_bool(r)

    def p_reduce_or(self, eqn, a):
        r = self._reduce(eqn, a, P.bor, False)
        return r if concrete(r) else maybe_bool(r)

    def _cum(self, eqn, a, op):
        if concrete(a):
            return self.bind(eqn, [a])
        ax = eqn.params["axis"]
        x = np.moveaxis(a, ax, 0).copy()
        if eqn.params.get("reverse"):
            x = x[::-1].copy()
        for i in range(1, x.shape[0]):
            x[i] = fmap(op, x[i - 1], x[i]) if x[i].shape else op(x[i - 1], x[i])
        if eqn.params.get("reverse"):
            x = x[::-1]
        return np.moveaxis(x, 0, ax)

    def p_cumsum(self, eqn, a):
        return self._cum(eqn, a, lambda x, y: x + y)

    def p_cumprod(self, eqn, a):
        return self._cum(eqn, a, lambda x, y: x * y)

    def p_cummax(self, eqn, a):
        return self._cum(eqn, a, s_max)

    def p_cummin(self, eqn, a):
        return self._cum(eqn, a, s_min)

    def _argm(self, eqn, a, better):
        if concrete(a):
            return self.bind(eqn, [a])
        (ax,) = eqn.params["axes"]
        x = np.moveaxis(a, ax, -1)
        out = []
        for row in x.reshape(-1, x.shape[-1]):
            k = 0
            for i in range(1, len(row)):
                b = better(row[i], row[k])
                if isinstance(b, SymBool):
                    raise Unsupported("symbolic argmax")
                if b:
                    k = i
            out.append(k)
        return np.array(out, dtype=eqn.outvars[0].aval.dtype).reshape(x.shape[:-1])

    def p_argmax(self, eqn, a):
        return self._argm(eqn, a, lambda x, y: P.compare("lt", y, x))

    def p_argmin(self, eqn, a):
        return self._argm(eqn, a, lambda x, y: P.compare("lt", x, y))

    def p_sort(self, eqn, *ops):
        if all(concrete(o) for o in ops):
            return self.bind(eqn, ops)
        dim = eqn.params["dimension"]
        nk = eqn.params["num_keys"]
        moved = [np.moveaxis(o if o.dtype == object else lift_int(o), dim, -1).copy() for o in ops]
        conc = [concrete(o) for o in ops]
        n = moved[0].shape[-1]
        flat = [m.reshape(-1, n) for m in moved]
        if nk != 1 or len(ops) > 1 and not all(
            x.isconst() or P._const_approx(x) is not None for x in flat[0].reshape(-1)
        ):
            raise Unsupported("symbolic multi-operand sort")
        for r in range(flat[0].shape[0]):
            # insertion network with symbolic compare-exchange
            for i in range(n):
                for j in range(n - 1 - i):
                    a, b = flat[0][r, j], flat[0][r, j + 1]
                    c = P.compare("lt", b, a)
                    for f in flat:
                        x, y = f[r, j], f[r, j + 1]
                        f[r, j] = P.ite(c, y, x)
                        f[r, j + 1] = P.ite(c, x, y)
        outs = []
        for o, f, m in zip(ops, flat, moved):
            v = np.moveaxis(f.reshape(m.shape), -1, dim)
            if concrete(o):
                v = np.array([int(x.constval()) for x in v.reshape(-1)], dtype=o.dtype).reshape(v.shape)
            outs.append(v)
        return outs

    # -- dot_general
    def p_dot_general(self, eqn, a, b):
        if concrete(a) and concrete(b):
            return self.bind(eqn, [a, b])
        a = a if a.dtype == object else lift_int(a)
        b = b if b.dtype == object else lift_int(b)
        ((lc, rc), (lb, rb)) = eqn.params["dimension_numbers"]
        lf = [d for d in range(a.ndim) if d not in lc and d not in lb]
        rf = [d for d in range(b.ndim) if d not in rc and d not in rb]
        bs = tuple(a.shape[d] for d in lb)
        ms = tuple(a.shape[d] for d in lf)
        ns = tuple(b.shape[d] for d in rf)
        ks = tuple(a.shape[d] for d in lc)
        B = int(np.prod(bs, dtype=int))
        M = int(np.prod(ms, dtype=int))
        N = int(np.prod(ns, dtype=int))
        K = int(np.prod(ks, dtype=int))
        A = np.transpose(a, list(lb) + lf + list(lc)).reshape(B, M, K)
        C = np.transpose(b, list(rb) + list(rc) + rf).reshape(B, K, N)
        out = np.empty((B, M, N), dtype=object)
        for q in range(B):
            for i in range(M):
                row = [(k, A[q, i, k]) for k in range(K) if A[q, i, k].t]
                for j in range(N):
                    acc = {}
                    s = ZERO
                    for k, x in row:
                        y = C[q, k, j]
                        if y.t:
                            s = s + x * y
                    out[q, i, j] = s
        return out.reshape(bs + ms + ns)

    # -- FFT
    def p_fft(self, eqn, a):
        kind = str(eqn.params["fft_type"]).split(".")[-1].upper()
        lens = eqn.params["fft_lengths"]
        nd = len(lens)
        x = a if a.dtype == object else lift_int(a)
        axes = list(range(x.ndim - nd, x.ndim))
        if kind in ("RFFT", "2"):
            for k, ax in enumerate(axes):
                x = dft(x, ax, lens[k], -1)
            sl = [slice(None)] * x.ndim
            sl[-1] = slice(0, lens[-1] // 2 + 1)
            return x[tuple(sl)]
        if kind in ("FFT", "0"):
            for k, ax in enumerate(axes):
                x = dft(x, ax, lens[k], -1)
            return x
        if kind in ("IFFT", "1"):
            for k, ax in enumerate(axes):
                x = dft(x, ax, lens[k], +1)
            s = Fraction(1, int(np.prod(lens)))
            return fmap(lambda v: v.scale(s), x)
        raise Unsupported(f"fft type {kind}")

    # -- linear algebra
    def p_lu(self, eqn, a):
        outs = []
        for v in eqn.outvars:
            o = np.empty(v.aval.shape, dtype=object)
            o[...] = POISON
            outs.append(o)
        return outs

    def p_lu_pivots_to_permutation(self, eqn, a):
        o = np.empty(eqn.outvars[0].aval.shape, dtype=object)
        o[...] = POISON
        return o

    def p_custom_linear_solve(self, eqn, *vals):
        lens = eqn.params["const_lengths"]
        nmat = lens.matvec
        mv = eqn.params["jaxprs"].matvec
        consts = vals[:nmat]
        off = lens.matvec + lens.vecmat + lens.solve + lens.transpose_solve
        bs = vals[off:]
        if len(bs) != 1:
            raise Unsupported("custom_linear_solve with several right-hand sides")
        b = bs[0]
        # Find the matrix among the matvec constants.
        mats = [c for c in consts if c.ndim >= 2 and c.shape[-1] == c.shape[-2]]
        if len(mats) != 1 or len(consts) != 1:
            raise Unsupported("custom_linear_solve: cannot identify the matrix")
        A = mats[0]
        n = A.shape[-1]
        A = A if A.dtype == object else lift_int(A)
        b = b if b.dtype == object else lift_int(b)
        # Which axis of b is the vector axis?  Decide by running the real matvec jaxpr on
        # numbers and comparing with the candidate layouts.
        rng = np.random.default_rng(0)
        An = rng.integers(1, 9, size=A.shape).astype(float)
        bn = rng.integers(1, 9, size=b.shape).astype(float)
        (av, bv) = mv.in_avals
        got = np.asarray(
            jax.core.eval_jaxpr(
                mv.jaxpr, mv.consts, jnp.asarray(An.astype(av.dtype)), jnp.asarray(bn.astype(bv.dtype))
            )[0]
        )
        nb = A.ndim - 2
        perm = None
        for ax in range(b.ndim - 1, -1, -1):
            if b.shape[ax] != n:
                continue
            rest = [k for k in range(b.ndim) if k != ax]
            for bax in itertools.permutations(rest, nb) if nb <= len(rest) else ():
                cperm = [k for k in rest if k not in bax] + list(bax) + [ax]
                try:
                    c = np.matmul(An, np.transpose(bn, cperm)[..., None])[..., 0]
                except ValueError:
                    continue
                c = np.transpose(c, np.argsort(cperm)) if c.ndim == len(cperm) else c
                if c.shape == got.shape and np.allclose(c, got):
                    perm = cperm
                    break
            if perm is not None:
                break
        if perm is None:
            raise Unsupported("custom_linear_solve: layout")
        bm = np.transpose(b, perm)  # (lead..., batch..., n)
        shape = np.broadcast_shapes(A.shape[:-2], bm.shape[:-1])
        bm = np.broadcast_to(bm, shape + (n,))
        out = np.empty(shape + (n,), dtype=object)
        lead = shape[: len(shape) - nb]
        Ab = np.broadcast_to(A, shape[len(shape) - nb :] + (n, n))
        for idx in np.ndindex(shape[len(shape) - nb :]):
            sel = (slice(None),) * len(lead) + idx
            rhs = bm[sel].reshape(-1, n).T
            if self.opaque_solve and n >= self.opaque_solve:
                sol = self.solve_stub(Ab[idx], rhs)
            else:
                sol = solve2(Ab[idx], rhs)
            out[sel] = sol.T.reshape(lead + (n,))
        return [np.transpose(out, np.argsort(perm))]

    def p_triangular_solve(self, eqn, a, b):
        pr = eqn.params
        a = a if a.dtype == object else lift_int(a)
        b = b if b.dtype == object else lift_int(b)
        if any(x is POISON for x in a.reshape(-1)):
            raise Unsupported("triangular_solve on LU factors")
        n = a.shape[-1]
        low = pr["lower"]
        A = a.copy()
        mask = np.tril(np.ones((n, n), bool)) if low else np.triu(np.ones((n, n), bool))
        for idx in np.ndindex(A.shape):
            if not mask[idx[-2], idx[-1]]:
                A[idx] = ZERO
            elif pr["unit_diagonal"] and idx[-1] == idx[-2]:
                A[idx] = ONE
        if pr["transpose_a"]:
            A = np.swapaxes(A, -1, -2)
        if pr["conjugate_a"]:
            A = fmap(P.conj, A)
        if not pr["left_side"]:
            At = np.swapaxes(A, -1, -2)
            bt = np.swapaxes(b, -1, -2)
            return np.swapaxes(self._bsolve(At, bt), -1, -2)
        return self._bsolve(A, b)

    def _bsolve(self, A, b):
        n = A.shape[-1]
        return np.stack(
            [solve2(x, y) for x, y in zip(A.reshape(-1, n, n), b.reshape((-1,) + b.shape[-2:]))]
        ).reshape(b.shape)

    def p_eig(self, eqn, a):
        a = a if a.dtype == object else lift_int(a)
        n = a.shape[-1]
        bs = a.shape[:-2]
        ws, vs = [], []
        for M in a.reshape(-1, n, n):
            call = self.eig_stub(M)
            ws.append(call.w)
            vs.append(call.v)
        w = np.stack(ws).reshape(bs + (n,))
        v = np.stack(vs).reshape(bs + (n, n))
        outs = [w]
        if eqn.params.get("compute_left_eigenvectors"):
            o = np.empty(v.shape, dtype=object)
            o[...] = POISON
            outs.append(o)
        if eqn.params.get("compute_right_eigenvectors", True):
            outs.append(v)
        return outs

    def eig_stub(self, M):
        """Eigendecomposition stub: fresh values constrained by M V = V diag(w)."""
        Mn = np.array([P.normalize(x) for x in M.reshape(-1)], dtype=object).reshape(M.shape)
        key = tuple(x.key() for x in Mn.reshape(-1))
        if key in self.eigmemo:
            return self.eigmemo[key]
        for old in self.eigcalls:
            if old.kind == "eig" and old.matrix.shape == Mn.shape and all(
                not P.clear(x - y)[0].t for x, y in zip(old.matrix.reshape(-1), Mn.reshape(-1))
            ):
                self.eigmemo[key] = old
                return old
        n = M.shape[0]
        c = len(self.eigcalls)
        w = np.empty(n, dtype=object)
        v = np.empty((n, n), dtype=object)
        for i in range(n):
            w[i] = P.complex_var(f"eigw{c}_{i}")
            for j in range(n):
                v[i, j] = P.complex_var(f"eigv{c}_{i}_{j}")
        P.ctx().notes.add(
            "eig() modelled as any (w, V) with M V = V diag(w), unit columns, V invertible"
        )
        call = EigCall(Mn, w, v)
        call.symbolic = True
        self.eigcalls.append(call)
        self.eigmemo[key] = call
        return call

    def solve_stub(self, M, B):
        """Solutions of M x = b as fresh values, shared by equal systems and linear in b.

        Each decoupled block of M is looked up by its normal form; a right-hand side that is a
        rational combination of earlier ones gets the same combination of their solutions.
        """
        n, k = B.shape
        X = np.empty((n, k), dtype=object)
        X[...] = ZERO
        for rows, cols in _blocks(M):
            if len(rows) != len(cols):
                raise ZeroDivisionError("structurally singular matrix")
            sub = np.array([[P.normalize(M[i, j]) for j in cols] for i in rows], dtype=object)
            call = None
            for old in self.eigcalls:
                if old.kind == "solve" and old.matrix.shape == sub.shape and all(
                    _same(x, y) for x, y in zip(old.matrix.reshape(-1), sub.reshape(-1))
                ):
                    call = old
                    break
            if call is None:
                call = EigCall(sub, np.empty(0, dtype=object), np.empty(0, dtype=object))
                call.kind, call.symbolic, call.rhs, call.sol = "solve", True, [], []
                self.eigcalls.append(call)
                P.ctx().notes.add("solve() modelled as the unique solution: equal systems have equal solutions, linear in the right-hand side")
            for c in range(k):
                rhs = [P.normalize(B[i, c]) for i in rows]
                if not any(x.t for x in rhs):
                    continue
                sol = self._known_solution(call, rhs)
                if sol is None:
                    g = self.eigcalls.index(call)
                    sol = []
                    for i in range(len(rows)):
                        v = P.complex_var(f"sol{g}_{len(call.rhs)}_{i}")
                        sol.append(v)
                        for at in v.atoms():
                            P.ctx().opaque_atoms.add(at)
                            P.ctx().opaque_atoms.add(P.ctx().atoms[at].partner)
                    call.rhs.append(rhs)
                    call.sol.append(sol)
                for j, x in zip(cols, sol):
                    X[j, c] = x
        return X

    def _known_solution(self, call, rhs):
        for r, x in zip(call.rhs, call.sol):
            if all(_same(p, q) for p, q in zip(r, rhs)):
                return x
            if all(_same(-p, q) for p, q in zip(r, rhs)):
                return [-y for y in x]
        if len(call.rhs) < 2:
            return None
        num = [[P._const_approx(p) for p in r] for r in call.rhs + [rhs]]
        if any(v is None for r in num for v in r):
            return None
        A = np.array(num[:-1], dtype=complex).T
        co, *_ = np.linalg.lstsq(A, np.array(num[-1], dtype=complex), rcond=1e-10)
        co = [P.mkc(*(Fraction(float(w)).limit_denominator(100) for w in (v.real, v.imag))) for v in co]
        tot = [ZERO] * len(rhs)
        for c, r in zip(co, call.rhs):
            tot = [t + p.scale(c) for t, p in zip(tot, r)]
        if not all(_same(p, q) for p, q in zip(tot, rhs)):
            return None
        out = [ZERO] * len(rhs)
        for c, x in zip(co, call.sol):
            out = [t + p.scale(c) for t, p in zip(out, x)]
        return out

    # -- control flow / calls
    def p_pjit(self, eqn, *vals):
        return self.run_closed(eqn.params["jaxpr"], list(vals))

    p_closed_call = p_core_closed_call = lambda self, eqn, *vals: self.run_closed(
        eqn.params["call_jaxpr"], list(vals)
    )

    def p_custom_jvp_call(self, eqn, *vals):
        return self.run_closed(eqn.params["call_jaxpr"], list(vals))

    def p_custom_vjp_call_jaxpr(self, eqn, *vals):
        return self.run_closed(eqn.params["fun_jaxpr"], list(vals))

    def p_custom_vjp_call(self, eqn, *vals):
        cj = eqn.params.get("call_jaxpr") or eqn.params.get("fun_jaxpr")
        return self.run_closed(cj, list(vals))

    def p_checkpoint(self, eqn, *vals):
        return self.run(eqn.params["jaxpr"], [], list(vals))

    p_remat = p_remat2 = p_checkpoint

    def p_debug_callback(self, eqn, *vals):
        return []

    def p_scan(self, eqn, *vals):
        p = eqn.params
        nc, ncar, length = p["num_consts"], p["num_carry"], p["length"]
        consts = list(vals[:nc])
        carry = list(vals[nc : nc + ncar])
        xs = list(vals[nc + ncar :])
        nys = len(eqn.outvars) - ncar
        ys = [[None] * length for _ in range(nys)]
        order = range(length - 1, -1, -1) if p["reverse"] else range(length)
        for i in order:
            outs = self.run_closed(p["jaxpr"], consts + carry + [np.asarray(x[i]) for x in xs])
            carry = outs[:ncar]
            for k, o in enumerate(outs[ncar:]):
                ys[k][i] = o
        res = []
        for k in range(nys):
            if length:
                res.append(np.stack([np.asarray(y) for y in ys[k]]))
            else:
                res.append(np.zeros(eqn.outvars[ncar + k].aval.shape, dtype=object))
        return carry + res

    def p_cond(self, eqn, idx, *ops):
        branches = eqn.params["branches"]
        if concrete(idx):
            i = int(np.clip(int(idx), 0, len(branches) - 1))
            return self.run_closed(branches[i], list(ops))
        v = idx.reshape(-1)[0]
        if isinstance(v, Poly):
            if v.isconst():
                i = max(0, min(len(branches) - 1, int(v.constval())))
                return self.run_closed(branches[i], list(ops))
            if len(branches) != 2:
                raise Unsupported("multi-way symbolic cond")
            v = P.bnot(P.compare("eq", v, ZERO))
        a = self.run_closed(branches[0], list(ops))
        b = self.run_closed(branches[1], list(ops))
        outs = []
        for x, y in zip(a, b):
            if concrete(x) and concrete(y) and np.array_equal(x, y):
                outs.append(x)
                continue
            if _boolish(x) or _boolish(y) or (concrete(x) and x.dtype == bool):
                outs.append(
                    maybe_bool(fmap(lambda p_, q_: P.bor(P.band(v, q_), P.band(P.bnot(v), p_)), _b(x), _b(y)))
                )
                continue
            x = x if x.dtype == object else lift_int(x)
            y = y if y.dtype == object else lift_int(y)
            outs.append(fmap(lambda p_, q_: P.ite(v, q_, p_), x, y))
        return outs

    def p_while(self, eqn, *vals):
        p = eqn.params
        cn, bn = p["cond_nconsts"], p["body_nconsts"]
        cc = list(vals[:cn])
        bc = list(vals[cn : cn + bn])
        st = list(vals[cn + bn :])
        for _ in range(10000):
            (c,) = self.run_closed(p["cond_jaxpr"], cc + st)
            c = np.asarray(c).reshape(-1)[0]
            if isinstance(c, SymBool):
                raise Unsupported("while loop with a symbolic condition")
            if not bool(c):
                return st
            st = self.run_closed(p["body_jaxpr"], bc + st)
        raise Unsupported("while loop bound exceeded")

    def p_iota(self, eqn, *vals):
        return lift_array(self.bind(eqn, vals))

    def p_split(self, eqn, x):
        if concrete(x):
            return self.bind(eqn, [x])
        idx = jnp.asarray(np.arange(x.size, dtype=np.int64).reshape(x.shape))
        outs = eqn.primitive.bind(idx, **eqn.params)
        flat = x.reshape(-1)
        return [obj(np.shape(o), [flat[i] for i in np.asarray(o).reshape(-1)]) for o in outs]


def dft(x, ax, n, sign):
    x = np.moveaxis(x, ax, 0)
    if x.shape[0] < n:
        pad = np.empty((n - x.shape[0],) + x.shape[1:], dtype=object)
        pad[...] = ZERO
        x = np.concatenate([x, pad])
    x = x[:n]
    shape = x.shape
    x = x.reshape(n, -1)
    roots = [P.root_of_unity(Fraction(sign * k, n)) for k in range(n)]
    out = np.empty((n, x.shape[1]), dtype=object)
    for c in range(x.shape[1]):
        nz = [(j, x[j, c]) for j in range(n) if x[j, c].t]
        for k in range(n):
            s = ZERO
            for j, v in nz:
                s = s + v * roots[(j * k) % n]
            out[k, c] = s
    return np.moveaxis(out.reshape(shape), 0, ax)


def _prec(dt):
    dt = np.dtype(dt)
    return dt.itemsize // (2 if np.issubdtype(dt, np.complexfloating) else 1)


def _boolish(a):
    return (concrete(a) and a.dtype == np.bool_) or (
        a.dtype == object and a.size and any(isinstance(x, (SymBool, bool, np.bool_)) for x in a.reshape(-1))
    )


def _b(a):
    return a if a.dtype == object else obj(a.shape, [bool(x) for x in a.reshape(-1)])


def _objlift(c, eqn):
    if c.dtype == np.bool_:
        return _b(c)
    return lift_int(c)


def lift_int(v):
    if v.dtype == np.bool_:
        return obj(v.shape, [ONE if x else ZERO for x in v.reshape(-1)])
    if is_float(v.dtype):
        return lift_array(v)
    return obj(v.shape, [Poly.const(int(x)) for x in v.reshape(-1)])


def cmp_special(op, x, y):
    """Comparison that resolves +/-inf and NaN placeholders."""
    c = P.ctx()
    inf = c.table.get(("fn", "inf", ()))
    nan = c.table.get(("fn", "nan", ()))
    if nan is not None and (nan.id in x.atoms() or nan.id in y.atoms()):
        return False
    if inf is not None:
        xi = x.t.get(((inf.id, 1),)) if inf.id in x.atoms() else None
        yi = y.t.get(((inf.id, 1),)) if inf.id in y.atoms() else None
        if xi is not None or yi is not None:
            xv = 0 if xi is None else (1 if xi > 0 else -1)
            yv = 0 if yi is None else (1 if yi > 0 else -1)
            return {"lt": xv < yv, "le": xv <= yv, "eq": xv == yv}[op]
    return P.compare(op, x, y)
