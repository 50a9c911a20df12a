"""Forking symbolic execution of plain Python/numpy code (control flow depends on values).

The real functions run on numpy object arrays of `SR` scalars (exact Laurent polynomials in
real symbols, plus square-root atoms).  Every comparison the code makes is a fork: the solver
decides which outcomes are feasible under the path condition, and all feasible paths are run.
"""

from __future__ import annotations

import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import poly as P
from . import smt
from .interp import lift_real
from .poly import Poly, Unsupported

_EX = None  # active explorer


class Infeasible(Exception):
    pass


class Explorer:
    def __init__(self, assumptions, deadline, max_paths=2000):
        self.vars = {}
        self.base = assumptions
        self.deadline = deadline
        self.max_paths = max_paths
        self.paths = 0
        self.forks = 0
        self.sqrt_cache = {}

    # -- z3 encoding of a polynomial comparison p > 0 / == 0 --
    def z(self, aid):
        at = P.ctx().atoms[aid]
        if aid not in self.vars:
            v = z3.Real(f"{at.name}_{aid}")
            self.vars[aid] = v
            if at.kind != "real":
                if at.kind != "sqrt":
                    raise Unsupported(f"atom {at.kind}")
                arg = at.arg if isinstance(at.arg, Poly) else Poly.const(at.arg)
                c = z3.And(v > 0, v * v == self.expr(arg))
                self.solver.add(c)
                self.perm.append(c)
            elif at.meta == "pos":
                self.solver.add(v > 0)
                self.perm.append(v > 0)
        return self.vars[aid]

    def clear(self, p):
        """Multiply by positive monomials (all negative powers belong to positive symbols)."""
        need = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    at = P.ctx().atoms[a]
                    k = -e
                    if at.meta != "pos":
                        k += k % 2  # even power: positive for any non-zero real
                    need[a] = max(need.get(a, 0), k)
        if need:
            p = p * Poly({tuple(sorted(need.items())): 1})
        return p

    def expr(self, p):
        if not isinstance(p, Poly):
            raise Unsupported("expr")
        terms = []
        for m, c in p.t.items():
            if not isinstance(c, (int, Fraction)):
                raise Unsupported("complex coefficient")
            t = z3.RealVal(str(c))
            for a, e in m:
                for _ in range(e):
                    t = t * self.z(a)
            terms.append(t)
        return z3.Sum(terms) if terms else z3.RealVal(0)

    def cmp(self, op, d):
        d = self.clear(d)
        if d.isconst():
            c = d.t.get((), 0)
            return {"lt": c < 0, "le": c <= 0, "eq": c == 0}[op]
        e = self.expr(d)
        return {"lt": e < 0, "le": e <= 0, "eq": e == 0}[op]

    # -- one path --
    def begin(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 8000)
        self.perm = getattr(self, "perm", [])
        for c in self.perm:
            self.solver.add(c)

    def add_axiom(self, c):
        self.solver.add(c)
        self.pc.append(c)

    def feasible(self, c):
        self.solver.push()
        self.solver.add(c)
        r = smt.timed_check(self.solver)
        self.solver.pop()
        if r == z3.unknown:
            s = z3.Tactic("qfnra-nlsat").solver()
            s.set("timeout", 8000)
            for a in self.solver.assertions():
                s.add(a)
            s.add(c)
            r = smt.timed_check(s)
        if r == z3.unknown:
            raise Unsupported("path feasibility unknown")
        return r == z3.sat

    def fork(self, cond):
        if isinstance(cond, bool):
            return cond
        if time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond)) if t else True
            if t and f:
                self.forks += 1
                self.todo.append(self.taken + [False])
                d = True
            else:
                d = t
        self.taken.append(d)
        c = cond if d else z3.Not(cond)
        self.solver.add(c)
        self.pc.append(c)
        return d

    def explore(self, fn, assume):
        """fn() -> list of (label, z3 condition or bool); yields (label, model or None, status)."""
        global _EX
        self.todo = [[]]
        _EX = self
        try:
            while self.todo:
                if self.paths >= self.max_paths:
                    raise Unsupported("path limit")
                self.begin(self.todo.pop())
                for a in assume():
                    self.add_axiom(a)
                if not self.feasible(z3.BoolVal(True)):
                    continue
                goals = fn()
                self.paths += 1
                for label, g in goals:
                    if isinstance(g, SB):
                        g = g.c
                    if isinstance(g, (bool, np.bool_)):
                        if not g:
                            smt.timed_check(self.solver)
                            yield label, self.solver.model(), self
                        continue
                    self.solver.push()
                    self.solver.add(z3.Not(g))
                    r = smt.timed_check(self.solver)
                    m = self.solver.model() if r == z3.sat else None
                    if r == z3.unknown:
                        s2 = z3.Tactic("qfnra-nlsat").solver()
                        s2.set("timeout", 20000)
                        for a in self.solver.assertions():
                            s2.add(a)
                        r = smt.timed_check(s2)
                        m = s2.model() if r == z3.sat else None
                    self.solver.pop()
                    if r == z3.unknown:
                        raise Unsupported(f"goal {label} unknown")
                    if r == z3.sat:
                        yield label, m, self
        finally:
            _EX = None

    def value(self, model, p):
        return smt.model_value(model, self.expr(p))


class SB:
    """Symbolic boolean; its truth value is a fork."""

    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return _EX.fork(self.c)

    def __and__(self, o):
        return SB(z3.And(_zb(self), _zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SB(z3.Or(_zb(self), _zb(o)))

    __ror__ = __or__

    def __invert__(self):
        return SB(z3.Not(_zb(self)))

    logical_not = __invert__


def _zb(x):
    c = x.c if isinstance(x, SB) else x
    return z3.BoolVal(bool(c)) if isinstance(c, (bool, np.bool_)) else c


def lift(x):
    if isinstance(x, SR):
        return x
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return SR(Poly.const(int(x)))
    if isinstance(x, Fraction):
        return SR(Poly.const(x))
    if isinstance(x, (float, np.floating)):
        # pi is read as the float it is: exact rational
        x = float(x)
        f = Fraction(x).limit_denominator(5040)
        return SR(Poly.const(P._n(f if float(f) == x else Fraction(x))))
    if hasattr(x, "shape") and x.shape == ():
        return lift(np.asarray(x).item())
    raise Unsupported(f"lift {type(x)}")


class SR:
    """Symbolic real: value `p`, or the square root of `sq` (p is None)."""

    __slots__ = ("_p", "sq")

    def __init__(self, p, sq=None):
        self._p = p
        self.sq = sq

    @property
    def p(self):
        if self._p is None:
            self._p = _sqrt_atom(self.sq)
        return self._p

    shape = ()
    ndim = 0

    def _arr(self):
        a = np.empty((), dtype=object)
        a[()] = self
        return a

    def __getitem__(self, idx):
        return self._arr()[idx]

    def reshape(self, *a, **k):
        return self._arr().reshape(*a, **k)

    def astype(self, *a, **k):
        return self

    def item(self):
        return self

    def _bin(self, o, f):
        try:
            o = lift(o)
        except Unsupported:
            return NotImplemented
        return SR(f(self.p, o.p))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, SR) and self.sq is not None and o is self:
            return SR(self.sq)
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: P.div(a, b))

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: P.div(b, a))

    def __neg__(self):
        return SR(-self.p)

    def __pos__(self):
        return self

    def __pow__(self, n):
        if isinstance(n, SR):
            n = n.p.t.get((), None) if n.p.isconst() else None
        if n is None:
            raise Unsupported("pow")
        if n == 0.5:
            return self.sqrt()
        if int(n) != n:
            raise Unsupported("pow")
        n = int(n)
        if n == 2 and self.sq is not None:
            return SR(self.sq)
        r = SR(Poly.const(1))
        for _ in range(abs(n)):
            r = r * self
        return r if n >= 0 else 1 / r

    def __abs__(self):
        if self.sq is not None:
            return self
        return self if bool(self >= 0) else -self

    absolute = fabs = __abs__

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return SR(Poly.const(0))

    def square(self):
        return self**2

    def hypot(self, o):
        return (self**2 + lift(o) ** 2).sqrt()

    def sqrt(self):
        return SR(None, self.p)

    def _cmp(self, o, op, swap=False):
        try:
            o = lift(o)
        except Unsupported:
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        if a.sq is not None and b.sq is not None:
            d = a.sq - b.sq
        else:
            d = a.p - b.p
        return SB(_EX.cmp(op, d))

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "lt", True)

    def __ge__(self, o):
        return self._cmp(o, "le", True)

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        r = self._cmp(o, "eq")
        return r if r is NotImplemented else ~r

    __hash__ = None

    def rint(self):
        """Nearest integer (ties to even): a fork over the feasible integers."""
        for k in _ints():
            lo, hi = self - Fraction(2 * k - 1, 2), self - Fraction(2 * k + 1, 2)
            inside = (lo > 0) & (hi < 0) if k % 2 else (lo >= 0) & (hi <= 0)
            if bool(inside):
                return SR(Poly.const(k))
        raise Unsupported("rint")

    def round(self, decimals=0, out=None):
        if decimals:
            raise Unsupported("round")
        return self.rint()

    def __round__(self, n=None):
        r = self.rint()
        return int(r) if n is None else r

    def floor(self):
        for k in _ints():
            if bool((self >= k) & (self < k + 1)):
                return SR(Poly.const(k))
        raise Unsupported("floor")

    def ceil(self):
        return -((-self).floor())

    __floor__ = lambda self: int(self.floor())  # noqa: E731
    __ceil__ = lambda self: int(self.ceil())  # noqa: E731

    def trunc(self):
        return self.floor() if bool(self >= 0) else self.ceil()

    def __int__(self):
        if self.p.isconst():
            return int(self.p.t.get((), 0))
        return int(self.trunc())

    def __index__(self):
        return int(self)

    def __floordiv__(self, o):
        return (self / o).floor()

    def __float__(self):
        if self._p is not None and self._p.isconst():
            return float(self._p.t.get((), 0))
        raise Unsupported("float() of a symbolic value")

    def __repr__(self):
        return f"SR({self._p if self._p is not None else 'sqrt ' + str(self.sq)})"


def _ints():
    yield 0
    for k in range(1, 60):
        yield k
        yield -k


def _sqrt_atom(q):
    if q.isconst():
        return P.sqrt_rational(q.t.get((), 0)) if q.t else q
    if len(q.t) == 1:
        ((m, c),) = q.t.items()
        if all(e % 2 == 0 and P.ctx().atoms[a].meta == "pos" for a, e in m):
            r = P.sqrt_rational(c)
            if r.isconst():
                return r * Poly({tuple((a, e // 2) for a, e in m): 1})
    k = q.key()
    if k not in _EX.sqrt_cache:
        _EX.sqrt_cache[k] = P.real_var(f"sqrt{len(_EX.sqrt_cache)}", meta="nonneg")
    s = _EX.sqrt_cache[k]
    _EX.add_axiom(z3.And(_zb(SB(_EX.cmp("eq", s * s - q))), _zb(SB(_EX.cmp("le", -s)))))
    return s


def has_obj(x):
    if isinstance(x, SR):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_obj(y) for y in x)
    return False


class Shim:
    """Stands for jax.numpy in a module: object arrays go to numpy, everything else to jnp."""

    def __init__(self, real, alt=np):
        self._r = real
        self._a = alt

    def __getattr__(self, n):
        real = getattr(self._r, n)
        alt = getattr(self._a, n, None)
        if not callable(real) or alt is None or isinstance(real, type):
            if type(real).__name__ == "module" and alt is not None:
                return Shim(real, alt)
            return real

        def f(*a, **k):
            if has_obj(a) or has_obj(list(k.values())):
                return alt(*a, **k)
            return real(*a, **k)

        return f


class E2Case:
    """build() -> (thunk, assume) run under the explorer; replay(values) on the real code."""

    def __init__(self, prop, name, symbols, run, assume, concrete, bounds="", functions=(), budget_s=120.0,
                 tier="quick", cost=1.0):
        self.prop, self.name, self.symbols = prop, name, symbols
        self._run, self._assume, self._concrete = run, assume, concrete
        self.bounds, self.functions, self.budget_s = bounds, functions, budget_s
        self.tier, self.cost = tier, cost

    def probe(self, seed):
        return {"case": self.name, "status": "undecided"}

    def hard_s(self):
        return self.budget_s + 60

    def replay(self, inputs):
        return self._concrete({k: float(Fraction(v)) for k, v in inputs.items()})

    def run(self, seed):
        from .harness import Result

        t0 = time.time()
        res = Result(self)
        try:
            self._go(res)
        except Unsupported as e:
            res.status, res.detail = "undecided", f"unsupported: {e}"
        except Exception as e:  # noqa: BLE001
            res.status = "undecided"
            res.detail = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"
        if res.status == "undecided":
            self._witness(res, seed)
        res.wall = time.time() - t0
        return res

    def _witness(self, res, seed):
        """Concrete replay of generic points, so that a crash of the real code is reported."""
        import random

        rng = random.Random(seed)
        for _ in range(40):
            v = {k: Fraction(rng.randint(20, 160), 64) for k in self.symbols}
            bad = self._concrete({k: float(x) for k, x in v.items()})
            if bad:
                res.status = "violation"
                res.detail = {"goal": bad[0], "error": str(bad[1])}
                res.replay = {k: str(x) for k, x in v.items()}
                return

    def _go(self, res):
        P.reset()
        ex = Explorer([], time.time() + self.budget_s)
        syms = {k: SR(P.real_var(k, meta=m)) for k, m in self.symbols.items()}
        spurious = []
        for label, model, e in ex.explore(lambda: self._run(syms), lambda: self._assume(syms)):
            vals = {}
            for k, s in syms.items():
                vals[k] = e.value(model, s.p)
            bad = self._concrete({k: float(x) for k, x in vals.items()})
            if bad:
                res.status = "violation"
                res.detail = {"goal": bad[0], "error": str(bad[1]), "symbolic_goal": label}
                res.replay = {k: str(x) for k, x in vals.items()}
                return
            spurious.append(label)
            if len(spurious) > 3:
                break
        res.goals = res.elements = ex.paths
        res.paths = ex.paths
        res.solver = smt.STATS.as_dict().get("queries", 0)
        if spurious:
            res.status = "undecided"
            res.detail = f"counterexample not reproduced concretely: {spurious}"
        elif ex.paths == 0:
            res.status, res.detail = "undecided", "no feasible path"
        else:
            res.status = "holds"
            res.vacuity = "feasible path"
