"""Translation of exact scalars to z3 and solver dispatch."""

from __future__ import annotations

import math
import time
from fractions import Fraction

import z3

from . import poly as P
from .poly import Poly, SymBool, GQ, Unsupported


def q(c):
    c = Fraction(c)
    return z3.RealVal(f"{c.numerator}/{c.denominator}")


class Stats:
    def __init__(self):
        self.queries = 0
        self.identity = 0
        self.full = 0
        self.time = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.oracle = 0

    def as_dict(self):
        return dict(self.__dict__)

    def merge(self, d):
        for k, v in d.items():
            self.__dict__[k] = self.__dict__.get(k, 0) + v


STATS = Stats()


class Enc:
    """Encodes polys over reals. Axioms for atoms are collected on demand."""

    def __init__(self):
        self.sub = {}  # atom id -> (Poly re-expansion in rv atoms) for exponent 1
        self.z = {}  # rv atom id -> z3 Real
        self.axioms = []
        self.ax_done = set()
        self.expden = {}
        self.boolz = {}
        self.fnapps = {}

    # -- rv atoms (real solver variables)
    def rv(self, name, pos=False):
        a = P.ctx().atom("rv", name)
        if a.id not in self.z:
            self.z[a.id] = z3.Real(name)
        return Poly.atom(a)

    def prepare(self, polys):
        """Determine exponent denominators for exponential atoms in use."""
        seen = set()
        stack = list(polys)
        while stack:
            p = stack.pop()
            if isinstance(p, SymBool):
                stack.extend(x for x in p.args if isinstance(x, (Poly, SymBool)))
                continue
            k = id(p)
            if k in seen:
                continue
            seen.add(k)
            for m in p.t:
                for a, e in m:
                    at = P.ctx().atoms[a]
                    if at.kind in ("exp", "expi", "expc"):
                        d = Fraction(e).denominator
                        c = self.expden.get(a, 1)
                        nd = c * d // math.gcd(c, d)
                        if nd != c and a in self.sub:
                            raise Unsupported("exponent denominators changed after encoding")
                        self.expden[a] = nd
                    if a not in seen and at.arg is not None:
                        seen.add(a)
                        if isinstance(at.arg, (Poly, SymBool)):
                            stack.append(at.arg)
                        elif isinstance(at.arg, tuple):
                            stack.extend(at.arg)

    def atom_pow(self, a, e):
        """Poly in rv atoms (complex coefficients) for atom a raised to e."""
        at = P.ctx().atoms[a]
        k = at.kind
        if k in ("exp", "expi", "expc"):
            d = self.expden.get(a, 1)
            n = Fraction(e) * d
            assert n.denominator == 1
            n = int(n)
            base, inv = self.base(a)
            return base**n if n >= 0 else inv ** (-n)
        if e >= 0:
            return self.base(a)[0] ** int(e)
        b, inv = self.base(a)
        if inv is None:
            inv = self.make_inverse(a, b)
        return inv ** int(-e)

    def make_inverse(self, a, b):
        re_, im_ = split(b)
        if not im_.t:
            r = self.rv(f"rinv_{a}")
            self.axioms.append(self.expr(re_) * self.expr(r) == 1)
            inv = r
        else:
            r = self.rv(f"ninv_{a}")
            self.axioms.append((self.expr(re_ * re_ + im_ * im_)) * self.expr(r) == 1)
            inv = (re_ - P.I * im_) * r
        self.sub[a] = (b, inv)
        return inv

    def base(self, a):
        r = self.sub.get(a)
        if r is not None:
            return r
        at = P.ctx().atoms[a]
        k = at.kind
        nm = f"{k}{a}"
        if k == "rv":
            r = (Poly.atom(a), None)
            self.sub[a] = r
            return r
        if k == "real":
            v = self.rv(f"v_{at.name}")
            r = (v, None)
            self.sub[a] = r
            if at.meta == "pos":
                self.axioms.append(self.expr(v) > 0)
            return r
        if k == "pi":
            v = self.rv("pi_const")
            self.sub[a] = (v, None)
            self.axioms += [self.expr(v) > q("31415926535/10000000000"), self.expr(v) < q("31415926536/10000000000")]
            return self.sub[a]
        if k in ("cplx", "cfn"):
            main = a if at.meta != "conj" else at.partner
            ma = P.ctx().atoms[main]
            x = self.rv(f"re_{ma.name}_{main}")
            y = self.rv(f"im_{ma.name}_{main}")
            self.sub[main] = (x + P.I * y, None)
            self.sub[ma.partner] = (x - P.I * y, None)
            if k == "cfn":
                self.fn_axioms(ma, x, y)
            return self.sub[a]
        if k == "fn":
            v = self.rv(f"fn_{at.name}_{a}")
            self.sub[a] = (v, None)
            self.fn_axioms(at, v, None)
            return self.sub[a]
        if k == "sqrt":
            v = self.rv(f"sqrt_{a}")
            self.sub[a] = (v, None)
            re_, _ = self.parts(at.arg)
            ev = self.expr(v)
            self.axioms += [ev >= 0, ev * ev == self.expr(re_)]
            return self.sub[a]
        if k == "csqrt":
            main = a if at.meta != "conj" else at.partner
            ma = P.ctx().atoms[main]
            x = self.rv(f"csqrt_re_{main}")
            y = self.rv(f"csqrt_im_{main}")
            self.sub[main] = (x + P.I * y, None)
            self.sub[ma.partner] = (x - P.I * y, None)
            re_, im_ = self.parts(ma.arg)
            ex, ey = self.expr(x), self.expr(y)
            self.axioms += [
                ex >= 0,
                z3.Implies(ex == 0, ey >= 0),
                ex * ex - ey * ey == self.expr(re_),
                2 * ex * ey == self.expr(im_),
            ]
            return self.sub[a]
        if k == "exp":
            v = self.rv(f"exp_{a}")
            w = self.rv(f"expinv_{a}")
            self.sub[a] = (v, w)
            re_, _ = self.parts(at.arg)
            arg = self.expr(re_)
            ev, ew = self.expr(v), self.expr(w)
            self.axioms += [
                ev > 0, ew > 0, ev * ew == 1,
                z3.Implies(arg > 0, ev > 1), z3.Implies(arg < 0, ev < 1), z3.Implies(arg == 0, ev == 1),
            ]
            return self.sub[a]
        if k == "expi":
            c = self.rv(f"cos_{a}")
            s = self.rv(f"sin_{a}")
            self.sub[a] = (c + P.I * s, c - P.I * s)
            re_, _ = self.parts(at.arg)
            arg = self.expr(re_)
            ec, es = self.expr(c), self.expr(s)
            self.axioms += [ec * ec + es * es == 1, z3.Implies(arg == 0, z3.And(ec == 1, es == 0))]
            return self.sub[a]
        if k == "expc":
            x = self.rv(f"expc_re_{min(a, at.partner)}")
            y = self.rv(f"expc_im_{min(a, at.partner)}")
            n = self.rv(f"expc_n_{min(a, at.partner)}")
            ex, ey, en = self.expr(x), self.expr(y), self.expr(n)
            lo, hi = min(a, at.partner), max(a, at.partner)
            self.sub[lo] = (x + P.I * y, (x - P.I * y) * n)
            self.sub[hi] = (x - P.I * y, (x + P.I * y) * n)
            self.expden[lo] = self.expden[hi] = max(self.expden.get(lo, 1), self.expden.get(hi, 1))
            re_, _ = self.parts(P.ctx().atoms[lo].arg)
            r = self.expr(re_)
            m = ex * ex + ey * ey
            self.axioms += [m * en == 1, z3.Implies(r < 0, m < 1), z3.Implies(r > 0, m > 1), z3.Implies(r == 0, m == 1)]
            return self.sub[a]
        if k == "inv":
            re_, im_ = self.parts(at.arg)
            if not im_.t:
                v = self.rv(f"inv_{a}")
                self.sub[a] = (v, None)
                self.axioms.append(self.expr(v) * self.expr(re_) == 1)
            else:
                n = self.rv(f"invn_{a}")
                self.sub[a] = ((re_ - P.I * im_) * n, None)
                self.axioms.append(self.expr(n) * self.expr(re_ * re_ + im_ * im_) == 1)
            return self.sub[a]
        if k == "zeta":
            n = at.meta
            c = self.rv(f"zeta_c_{n}")
            s = self.rv(f"zeta_s_{n}")
            self.sub[a] = (c + P.I * s, c - P.I * s)
            ec, es = self.expr(c), self.expr(s)
            pw = P.ONE
            tot = P.ZERO
            for _ in range(n):
                tot = tot + pw
                pw = pw * (c + P.I * s)
            tr, ti = split(tot)
            cv, sv = math.cos(2 * math.pi / n), math.sin(2 * math.pi / n)
            self.axioms += [
                ec * ec + es * es == 1, self.expr(tr) == 0, self.expr(ti) == 0,
                ec > q(Fraction(cv - 1e-6)), ec < q(Fraction(cv + 1e-6)),
                es > q(Fraction(sv - 1e-6)), es < q(Fraction(sv + 1e-6)),
            ]
            return self.sub[a]
        raise Unsupported(f"encode atom kind {k}")

    def fn_axioms(self, at, v, im_):
        """Congruence plus a few sound facts about known functions."""
        peers = self.fnapps.setdefault(at.name, [])
        argz = [self.parts(x) for x in at.arg]
        for other, oargs, ov, oim in peers:
            cond = []
            for (r1, i1), (r2, i2) in zip(argz, oargs):
                cond.append(self.expr(r1) == self.expr(r2))
                if i1.t or i2.t:
                    cond.append(self.expr(i1) == self.expr(i2))
            eqs = [self.expr(v) == self.expr(ov)]
            if im_ is not None and oim is not None:
                eqs.append(self.expr(im_) == self.expr(oim))
            self.axioms.append(z3.Implies(z3.And(*cond) if cond else True, z3.And(*eqs)))
        peers.append((at, argz, v, im_))
        ev = self.expr(v)
        pi = self.expr(self.base(P.ctx().atom("pi", "pi").id)[0])
        if at.name == "asin":
            self.axioms += [ev <= pi / 2, ev >= -pi / 2]
        elif at.name == "acos":
            self.axioms += [ev <= pi, ev >= 0]
        elif at.name == "atan2":
            self.axioms += [ev <= pi, ev >= -pi]
        elif at.name in ("tanh", "erf"):
            self.axioms += [ev < 1, ev > -1]

    # -- expansion to real polys
    def expand(self, p):
        """Poly in rv + bool atoms with complex coefficients."""
        out = P.ZERO
        cache = {}
        for m, c in p.t.items():
            t = Poly.const(c)
            for a, e in m:
                at = P.ctx().atoms[a]
                if at.kind == "bool":
                    t = t * Poly.atom(a)
                    continue
                key = (a, e)
                f = cache.get(key)
                if f is None:
                    f = self.atom_pow(a, e)
                    cache[key] = f
                t = t * f
            out = out + t
        return out

    def parts(self, p):
        return split(self.expand(p))

    def expr(self, p):
        """z3 expression of a real-coefficient poly in rv and bool atoms."""
        groups = {}
        for m, c in p.t.items():
            bs = tuple(a for a, e in m if P.ctx().atoms[a].kind == "bool")
            rest = tuple((a, e) for a, e in m if P.ctx().atoms[a].kind != "bool")
            groups.setdefault(bs, []).append((rest, c))
        terms = []
        for bs, ts in groups.items():
            s = []
            for m, c in ts:
                fac = []
                for a, e in m:
                    v = self.z.get(a)
                    if v is None:
                        v = z3.Real(P.ctx().atoms[a].name)
                        self.z[a] = v
                    assert e > 0 and e == int(e), (P.ctx().atoms[a].name, e)
                    fac.extend([v] * int(e))
                if not fac:
                    s.append(q(c))
                else:
                    t = fac[0]
                    if len(fac) > 1:
                        t = z3.Product(*fac)
                    s.append(t if c == 1 else q(c) * t)
            e_ = s[0] if len(s) == 1 else z3.Sum(*s)
            if bs:
                conds = [self.boolvar(b) for b in bs]
                e_ = z3.If(z3.And(*conds) if len(conds) > 1 else conds[0], e_, z3.RealVal(0))
            terms.append(e_)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)

    def boolvar(self, a):
        v = self.boolz.get(a)
        if v is None:
            v = z3.Bool(f"b_{a}")
            self.boolz[a] = v
            self.axioms.append(v == self.cond(P.ctx().atoms[a].arg))
        return v

    def cond(self, b):
        if b is True or b is False:
            return z3.BoolVal(b)
        if b.op == "not":
            return z3.Not(self.cond(b.args[0]))
        if b.op == "and":
            return z3.And(self.cond(b.args[0]), self.cond(b.args[1]))
        if b.op == "or":
            return z3.Or(self.cond(b.args[0]), self.cond(b.args[1]))
        if b.op == "eq":
            n, _ = P.clear(b.args[0])
            n = clear_laurent(n)
            r, i = self.parts(n)
            c = [self.expr(x) == 0 for x in (r, i) if x.t]
            return z3.And(*c) if c else z3.BoolVal(True)
        r, _ = self.parts(b.args[0])
        e = self.expr(r)
        return e < 0 if b.op == "lt" else e <= 0


def split(p):
    r, i = {}, {}
    for m, c in p.t.items():
        a, b = P.cre(c), P.cim(c)
        if a != 0:
            r[m] = a
        if b != 0:
            i[m] = b
    return Poly(r), Poly(i)


def clear_laurent(p):
    """Multiply by powers of atoms to remove negative exponents (atoms non-zero)."""
    low = {}
    for m in p.t:
        for a, e in m:
            if e < 0 and e < low.get(a, 0):
                low[a] = e
    if not low:
        return p
    f = Poly({tuple(sorted((a, -e) for a, e in low.items())): 1})
    return p * f


def ring_expr(p, zv, iv):
    """Abstract commutative-ring reading: atoms are independent reals, i is a real."""
    s = []
    for m, c in p.t.items():
        fac = []
        for a, e in m:
            k = (a, Fraction(e).denominator)
            v = zv.get(a)
            if v is None:
                v = z3.Real(f"a{a}")
                zv[a] = v
            n = e
            if n != int(n) or n < 0:
                raise Unsupported("ring_expr exponent")
            fac.extend([v] * int(n))
        re_, im_ = P.cre(c), P.cim(c)
        co = q(re_)
        if im_ != 0:
            co = co + q(im_) * iv if re_ != 0 else q(im_) * iv
        if fac:
            t = z3.Product(*fac) if len(fac) > 1 else fac[0]
            s.append(co * t if not (re_ == 1 and im_ == 0) else t)
        else:
            s.append(co)
    if not s:
        return z3.RealVal(0)
    return z3.Sum(*s) if len(s) > 1 else s[0]


def integral_exponents(p, dens):
    """Rescale fractional exponents of exponential atoms to integers."""
    if not dens:
        return p
    out = {}
    for m, c in p.t.items():
        mm = tuple((a, int(e * dens[a]) if a in dens else e) for a, e in m)
        out[mm] = c
    return Poly(out)


def exp_dens(polys):
    dens = {}
    for p in polys:
        for m in p.t:
            for a, e in m:
                if P.ctx().atoms[a].kind in ("exp", "expi", "expc"):
                    d = Fraction(e).denominator
                    c = dens.get(a, 1)
                    dens[a] = c * d // math.gcd(c, d)
    return {a: d for a, d in dens.items() if d > 1}


def factored_pair(lhs, rhs):
    """(l, lfac, r, rfac) with l*prod(lfac) == r*prod(rfac) <=> lhs == rhs, unexpanded."""
    l, dl = P.clear(lhs)
    r, dr = P.clear(rhs)
    lf, rf = [], []
    for a in set(dl) | set(dr):
        k = dl.get(a, 0) - dr.get(a, 0)
        D = P.ctx().atoms[a].arg
        if k > 0:
            rf += [D] * k
        elif k < 0:
            lf += [D] * (-k)
    low = {}
    rules = P.ctx().has_rules
    for p in (l, r, *lf, *rf):
        for m in p.t:
            for a, e in m:
                if e < 0 and e < low.get(a, 0):
                    low[a] = e
    if low or any(x.atoms() & rules for x in (l, r, *lf, *rf)):
        return None
    return l, lf, r, rf


def common_forms(lhs, rhs):
    """Denominator-cleared normal forms (L, R) of lhs and rhs over a common factor."""
    l, dl = P.clear(lhs)
    r, dr = P.clear(rhs)
    for a in set(dl) | set(dr):
        k = dl.get(a, 0) - dr.get(a, 0)
        D = P.ctx().atoms[a].arg
        if k > 0:
            r = r * D**k
        elif k < 0:
            l = l * D ** (-k)
    low = {}
    for p in (l, r):
        for m in p.t:
            for a, e in m:
                if e < 0 and e < low.get(a, 0):
                    low[a] = e
    if low:
        f = Poly({tuple(sorted((a, -e) for a, e in low.items())): 1})
        l, r = l * f, r * f
    return l, r


def timed_check(s, *assump):
    t = time.time()
    r = s.check(*assump)
    STATS.time += time.time() - t
    STATS.queries += 1
    if r == z3.unsat:
        STATS.unsat += 1
    elif r == z3.sat:
        STATS.sat += 1
    else:
        STATS.unknown += 1
    return r


def check_ring(pairs, timeout_ms=60000):
    """Solver query: some pair differs as a commutative-ring term? unsat => all equal.

    A pair is (l, r) or (l, lfac, r, rfac) where lfac/rfac are lists of factor Polys which the
    solver multiplies out itself.
    """
    zv = {}
    iv = z3.Real("i_unit")
    dis = []
    for pr in pairs:
        if len(pr) == 2:
            (l, r), lf, rf = pr, (), ()
        else:
            l, lf, r, rf = pr
        dens = exp_dens([l, r, *lf, *rf])

        def term(p, fac):
            t = ring_expr(integral_exponents(p, dens), zv, iv)
            for f in fac:
                t = t * ring_expr(integral_exponents(f, dens), zv, iv)
            return t

        dis.append(term(l, lf) - term(r, rf) != 0)
    goal = z3.Or(*dis) if len(dis) > 1 else dis[0]
    s = z3.Then(z3.With("simplify", som=True), "smt").solver()
    s.set("timeout", timeout_ms)
    s.add(goal)
    STATS.identity += len(pairs)
    return timed_check(s)


def base_constraints(enc, assumptions, nonzero=True, extra=()):
    cs = [enc.cond(a) for a in assumptions]
    if nonzero:
        for p in list(P.ctx().nonzero.values()):
            n = clear_laurent(P.clear(p)[0])
            if n.isconst():
                continue
            v = P._const_approx(n)
            if v is not None:
                continue
            r, i = enc.parts(n)
            c = [enc.expr(x) != 0 for x in (r, i) if x.t]
            if c:
                cs.append(z3.Or(*c) if len(c) > 1 else c[0])
    return cs


def relevant(polys):
    """Atom ids transitively reachable from the polys/bools."""
    seen = set()
    stack = list(polys)
    while stack:
        p = stack.pop()
        if p is True or p is False or p is None:
            continue
        if isinstance(p, SymBool):
            stack.extend(x for x in p.args if isinstance(x, (Poly, SymBool)))
            continue
        for a in p.atoms():
            if a in seen:
                continue
            seen.add(a)
            at = P.ctx().atoms[a]
            if at.partner is not None:
                seen.add(at.partner)
            if isinstance(at.arg, (Poly, SymBool)):
                stack.append(at.arg)
            elif isinstance(at.arg, tuple):
                stack.extend(at.arg)
    return seen


def pick_assumptions(goal_polys, assumptions, contracts):
    """Keep the assumptions connected to the goal (sound: dropping weakens)."""
    rel = relevant(goal_polys)
    chosen = []
    pool = list(assumptions)
    changed = True
    while changed:
        changed = False
        for a in list(pool):
            r = relevant([a])
            if not r or r & rel:
                chosen.append(a)
                pool.remove(a)
                rel |= r
                changed = True
    return chosen, rel


def check_full(goal_negation, goal_polys, assumptions, contracts=(), timeout_ms=20000, want_model=True):
    """goal_negation: callable(enc) -> z3 Bool. Returns (status, model, enc)."""
    enc = Enc()
    chosen, rel = pick_assumptions(goal_polys, assumptions, contracts)
    nz = [p for p in P.ctx().nonzero.values() if relevant([p]) <= rel]
    enc.prepare(list(goal_polys) + chosen + nz + list(contracts))
    cs = [enc.cond(a) for a in chosen]
    for p in nz:
        n = clear_laurent(P.clear(p)[0])
        if n.isconst() or P._const_approx(n) is not None:
            continue
        r, i = enc.parts(n)
        c = [enc.expr(x) != 0 for x in (r, i) if x.t]
        if c:
            cs.append(z3.Or(*c) if len(c) > 1 else c[0])
    for p in contracts:
        n = clear_laurent(P.clear(p)[0])
        r, i = enc.parts(n)
        for x in (r, i):
            if x.t:
                cs.append(enc.expr(x) == 0)
    neg = goal_negation(enc)
    allc = cs + [neg]
    ax = list(enc.axioms)
    STATS.full += 1
    r = z3.unknown
    for tac, tmo in (("default", timeout_ms), ("qfnra-nlsat", timeout_ms)):
        s = z3.Solver() if tac == "default" else _tactic_solver()
        s.set("timeout", int(tmo))
        for c in ax + allc:
            s.add(c)
        try:
            r = timed_check(s)
        except z3.Z3Exception:
            r = z3.unknown
        if r != z3.unknown:
            return r, (s.model() if r == z3.sat else None), enc
    return r, None, enc


def _tactic_solver():
    return z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "elim-term-ite", "qfnra-nlsat").solver() if False else z3.Tactic("qfnra").solver()


def model_value(model, v):
    x = model.eval(v, model_completion=True)
    try:
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_algebraic_value(x):
            a = x.approx(20)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
    except Exception:
        pass
    return Fraction(0)
