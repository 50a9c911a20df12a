"""Exact symbolic scalars: sparse Laurent polynomials over Gaussian rationals.

A scalar is a `Poly`: a dict from monomials to coefficients.  Monomials are sorted
tuples of `(atom_id, exponent)`.  Coefficients are `int`, `Fraction` or `GQ` (a
Gaussian rational).  Division is represented by `inv` atoms (the reciprocal of a
registered denominator polynomial); square roots, exponentials, roots of unity,
boolean indicators and uninterpreted functions are atoms as well.
"""

from __future__ import annotations

import math
from fractions import Fraction


class Unsupported(Exception):
    """The symbolic executor does not model this construct."""


class GQ:
    """Gaussian rational with a non-zero imaginary part."""

    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __eq__(self, o):
        return isinstance(o, GQ) and self.re == o.re and self.im == o.im

    def __hash__(self):
        return hash((self.re, self.im, 7))

    def __repr__(self):
        return f"({self.re}+{self.im}j)"


def _n(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def mkc(re, im):
    re = _n(re)
    im = _n(im)
    return re if im == 0 else GQ(re, im)


def cre(c):
    return c.re if type(c) is GQ else c


def cim(c):
    return c.im if type(c) is GQ else 0


def cadd(a, b):
    if type(a) is GQ or type(b) is GQ:
        return mkc(cre(a) + cre(b), cim(a) + cim(b))
    if type(a) is int and type(b) is int:
        return a + b
    return _n(a + b)


def cmul(a, b):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return a * b
    if ta is GQ:
        if tb is GQ:
            return mkc(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
        return mkc(a.re * b, a.im * b) if b != 0 else 0
    if tb is GQ:
        return mkc(a * b.re, a * b.im) if a != 0 else 0
    return _n(a * b)


def cneg(a):
    return GQ(-a.re, -a.im) if type(a) is GQ else -a


def cconj(a):
    return GQ(a.re, -a.im) if type(a) is GQ else a


def cinv(a):
    if type(a) is GQ:
        d = Fraction(a.re) * a.re + Fraction(a.im) * a.im
        return mkc(Fraction(a.re) / d, Fraction(-a.im) / d)
    return _n(Fraction(1) / a)


def ciszero(a):
    return type(a) is not GQ and a == 0


# ---------------------------------------------------------------------------
# Atoms
# ---------------------------------------------------------------------------

# kinds:
#  'real'   free real variable
#  'cplx'   free complex variable; partner = conjugate atom
#  'sqrt'   non-negative real root of real poly `arg`
#  'csqrt'  principal complex square root of `arg`; partner = conjugate
#  'exp'    exp(arg) for a real `arg` monomial (positive real), fractional exponents ok
#  'expi'   exp(i*arg) for real `arg` (unit modulus), fractional exponents ok
#  'expc'   exp(arg) for a general complex monomial; partner = conjugate
#  'inv'    reciprocal of poly `arg`; partner = conjugate inv atom (or itself)
#  'bool'   0/1 indicator of symbolic boolean `arg`
#  'fn'     uninterpreted real function application (name, args)
#  'cfn'    uninterpreted complex function application; partner = conjugate
#  'zeta'   primitive n-th root of unity (n an odd prime)
#  'pi'     the constant pi


class Atom:
    __slots__ = ("id", "kind", "name", "arg", "partner", "meta")

    def __init__(self, id, kind, name, arg=None, partner=None, meta=None):
        self.id = id
        self.kind = kind
        self.name = name
        self.arg = arg
        self.partner = partner
        self.meta = meta


class Ctx:
    """Global table of atoms for one harness execution."""

    def __init__(self):
        self.atoms = []
        self.table = {}
        self.mulcache = {}
        self.nonzero = {}  # frozen poly -> Poly, assumed non-zero denominators
        self.notes = set()
        self.oracle = None  # callable(SymBool) -> True/False/None using the solver
        self.maxterms = 400000
        self.has_rules = set()
        self.deadline = None
        self.opaque_atoms = set()  # values of unevaluated linear systems
        self._opaque_cache = {}

    def is_opaque(self, x):
        """Does x (Poly, SymBool, tuple) depend on the solution of an unevaluated linear system?"""
        if not self.opaque_atoms:
            return False
        if isinstance(x, (tuple, list)):
            return any(self.is_opaque(y) for y in x)
        if isinstance(x, SymBool):
            return any(self.is_opaque(y) for y in x.args)
        if not isinstance(x, Poly):
            return False
        for a in x.atoms():
            if a in self.opaque_atoms:
                return True
            at = self.atoms[a]
            if at.arg is None:
                continue
            r = self._opaque_cache.get(a)
            if r is None:
                r = self._opaque_cache[a] = self.is_opaque(at.arg)
            if r:
                return True
        return False

    def atom(self, kind, name, key=None, arg=None, partner=None, meta=None):
        k = (kind, name, key)
        a = self.table.get(k)
        if a is None:
            a = Atom(len(self.atoms), kind, name, arg, partner, meta)
            self.atoms.append(a)
            self.table[k] = a
            if kind in ("sqrt", "csqrt", "bool", "zeta"):
                self.has_rules.add(a.id)
        return a


CTX = Ctx()


def reset():
    global CTX
    CTX = Ctx()
    return CTX


def ctx():
    return CTX


class Poly:
    __slots__ = ("t", "_key")

    def __init__(self, t):
        self.t = t
        self._key = None

    # -- construction
    @staticmethod
    def const(c):
        c = _n(c) if not isinstance(c, GQ) else c
        if type(c) is not GQ and c == 0:
            return ZERO
        return Poly({(): c})

    @staticmethod
    def atom(a, e=1):
        aid = a if isinstance(a, int) else a.id
        return Poly({((aid, e),): 1})

    # -- predicates
    def iszero(self):
        return not self.t

    def isconst(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def constval(self):
        return self.t.get((), 0)

    def key(self):
        k = self._key
        if k is None:
            k = frozenset(self.t.items())
            self._key = k
        return k

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    # -- arithmetic
    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        if len(o.t) > len(self.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            d = t.get(m)
            if d is None:
                t[m] = c
            else:
                s = cadd(d, c)
                if ciszero(s):
                    del t[m]
                else:
                    t[m] = s
        return Poly(t)

    def __neg__(self):
        return Poly({m: cneg(c) for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if ciszero(k):
            return ZERO
        if type(k) is int and k == 1:
            return self
        return Poly({m: cmul(c, k) for m, c in self.t.items()})

    def __mul__(self, o):
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(a) == 1 and () in a:
            return o.scale(a[()])
        if len(b) == 1 and () in b:
            return self.scale(b[()])
        if len(a) * len(b) > CTX.maxterms:
            raise Unsupported("polynomial too large")
        if CTX.deadline is not None and len(a) * len(b) > 2000:
            import time

            if time.time() > CTX.deadline:
                raise Unsupported("symbolic execution budget exhausted")
        out = {}
        cache = CTX.mulcache
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                k = (m1, m2)
                r = cache.get(k)
                if r is None:
                    r = _monomul(m1, m2)
                    if len(cache) < 2000000:
                        cache[k] = r
                c = cmul(c1, c2)
                if type(r) is Poly:
                    for m3, c3 in r.t.items():
                        _acc(out, m3, cmul(c, c3))
                else:
                    _acc(out, r, c)
        if len(out) > CTX.maxterms:
            raise Unsupported("polynomial too large")
        return Poly(out)

    def __pow__(self, n):
        if n < 0:
            return recip(self) ** (-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: str(x[0]))[:12]:
            out.append(
                f"{c}" + "".join(f"*{CTX.atoms[a].name}{'' if e == 1 else '^' + str(e)}" for a, e in m)
            )
        if len(self.t) > 12:
            out.append(f"... ({len(self.t)} terms)")
        return " + ".join(out)


def _acc(t, m, c):
    d = t.get(m)
    if d is None:
        if not ciszero(c):
            t[m] = c
    else:
        s = cadd(d, c)
        if ciszero(s):
            del t[m]
        else:
            t[m] = s


ZERO = Poly({})
ONE = Poly({(): 1})
I = Poly({(): GQ(0, 1)})


def _monomul(m1, m2):
    """Multiply monomials. Returns a monomial tuple, or a Poly if rules applied."""
    if not m1:
        return m2
    if not m2:
        return m1
    i = j = 0
    out = []
    rules = CTX.has_rules
    need = False
    while i < len(m1) and j < len(m2):
        a, ea = m1[i]
        b, eb = m2[j]
        if a < b:
            out.append((a, ea))
            i += 1
        elif b < a:
            out.append((b, eb))
            j += 1
        else:
            e = ea + eb
            if e != 0:
                if type(e) is Fraction and e.denominator == 1:
                    e = e.numerator
                out.append((a, e))
                if a in rules:
                    need = True
            i += 1
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    out = tuple(out)
    if need:
        return _reduce_mono(out)
    return out


def _reduce_mono(m):
    """Apply rewrite rules for atoms whose exponents are out of range."""
    rest = []
    extra = None
    for a, e in m:
        at = CTX.atoms[a]
        k = at.kind
        if k in ("sqrt", "csqrt") and e not in (0, 1):
            q, r = divmod(e, 2)
            if r:
                rest.append((a, 1))
            p = at.arg**q if q > 0 else recip(at.arg) ** (-q)
            extra = p if extra is None else extra * p
        elif k == "bool" and e != 1:
            if e > 0:
                rest.append((a, 1))
            else:
                raise Unsupported("negative power of indicator")
        elif k == "zeta":
            n = at.meta
            e = e % n
            if e == 0:
                continue
            if e == n - 1:
                # zeta^(n-1) = -(1 + zeta + ... + zeta^(n-2))
                p = Poly({(): -1, **{((a, kk),): -1 for kk in range(1, n - 1)}})
                extra = p if extra is None else extra * p
            else:
                rest.append((a, e))
        else:
            rest.append((a, e))
    base = tuple(rest)
    if extra is None:
        return base
    return Poly({base: 1}) * extra


def conj(p):
    t = {}
    plain = True
    atoms = CTX.atoms
    for m in p.t:
        for a, _ in m:
            if atoms[a].kind in ("cplx", "csqrt", "expi", "expc", "inv", "cfn", "zeta"):
                plain = False
                break
        if not plain:
            break
    if plain:
        for m, c in p.t.items():
            t[m] = cconj(c)
        return Poly(t)
    out = ZERO
    acc = {}
    for m, c in p.t.items():
        mm = []
        special = None
        for a, e in m:
            at = atoms[a]
            k = at.kind
            if k in ("cplx", "csqrt", "expc", "inv", "cfn"):
                mm.append((at.partner if at.partner is not None else a, e))
            elif k == "expi":
                mm.append((a, -e))
            elif k == "zeta":
                q = _zeta_pow(at, -e)
                special = q if special is None else special * q
            else:
                mm.append((a, e))
        mm.sort()
        if special is None:
            _acc(acc, tuple(mm), cconj(c))
        else:
            out = out + Poly({tuple(mm): cconj(c)}) * special
    return Poly(acc) + out


def _zeta_pow(at, e):
    n = at.meta
    e = e % n
    if e == 0:
        return ONE
    if e == n - 1:
        return Poly({(): -1, **{((at.id, kk),): -1 for kk in range(1, n - 1)}})
    return Poly({((at.id, e),): 1})


def re(p):
    if isreal_syn(p):
        return p
    return (p + conj(p)).scale(Fraction(1, 2))


def im(p):
    if isreal_syn(p):
        return ZERO
    return (p - conj(p)).scale(GQ(0, Fraction(-1, 2)))


def isreal_syn(p):
    """Syntactically real: equal to its conjugate as a normal form."""
    atoms = CTX.atoms
    ok = True
    for m, c in p.t.items():
        if type(c) is GQ:
            ok = False
            break
        for a, _ in m:
            if atoms[a].kind in ("cplx", "csqrt", "expi", "expc", "cfn", "zeta") or (
                atoms[a].kind == "inv" and atoms[a].partner is not None
            ):
                ok = False
                break
        if not ok:
            break
    if ok:
        return True
    return conj(p).t == p.t


# ---------------------------------------------------------------------------
# Reciprocals and denominators
# ---------------------------------------------------------------------------


def inv_exponents(p):
    """Max exponent for each inv atom in p, and the min for negative Laurent ones."""
    mx = {}
    atoms = CTX.atoms
    for m in p.t:
        for a, e in m:
            if atoms[a].kind == "inv":
                if e > mx.get(a, 0):
                    mx[a] = e
    return mx


def clear(p):
    """Returns (N, {inv_atom: e}) with p = N * prod inv^e, N free of inv atoms."""
    total = {}
    while True:
        mx = inv_exponents(p)
        if not mx:
            return p, total
        atoms = CTX.atoms
        # Group the terms by their inv part.
        groups = {}
        for m, c in p.t.items():
            iv = tuple((a, e) for a, e in m if atoms[a].kind == "inv")
            rest = tuple((a, e) for a, e in m if atoms[a].kind != "inv")
            groups.setdefault(iv, {})[rest] = c
        out = ZERO
        powcache = {}
        for iv, t in groups.items():
            q = Poly(t)
            d = dict(iv)
            for a, e in mx.items():
                k = e - d.get(a, 0)
                if k:
                    pk = powcache.get((a, k))
                    if pk is None:
                        pk = atoms[a].arg ** k
                        powcache[(a, k)] = pk
                    q = q * pk
            out = out + q
        for a, e in mx.items():
            total[a] = total.get(a, 0) + e
        p = out


def _lead(t):
    return max(t, key=_mono_order)


def _mono_order(m):
    return tuple(sorted(m)), 0


def _order_key(m, nat):
    d = dict(m)
    return tuple(d.get(a, 0) for a in nat)


def exact_div(p, d):
    """Exact polynomial division p / d, or None if it does not divide (quick test)."""
    if not p.t:
        return ZERO
    if len(d.t) < 2:
        return None
    rules = CTX.has_rules
    # Only divide in atoms without rewrite rules in the divisor.
    nat = sorted(p.atoms() | d.atoms())
    for m in d.t:
        for a, e in m:
            if a in rules or e < 0 or type(e) is not int:
                return None
    if len(p.t) > 3000 or len(d.t) > 200:
        return None
    ld = max(d.t, key=lambda m: _order_key(m, nat))
    lc = cinv(d.t[ld])
    ldd = dict(ld)
    rem = dict(p.t)
    quo = {}
    steps = 0
    bound = len(p.t) + 50
    import heapq

    while rem:
        steps += 1
        if steps > bound:
            return None
        lm = max(rem, key=lambda m: _order_key(m, nat))
        md = dict(lm)
        ok = True
        qd = dict(md)
        for a, e in ldd.items():
            ne = md.get(a, 0) - e
            if ne < 0:
                ok = False
                break
            if ne == 0:
                qd.pop(a, None)
            else:
                qd[a] = ne
        if not ok:
            return None
        qm = tuple(sorted(qd.items()))
        qc = cmul(rem[lm], lc)
        _acc(quo, qm, qc)
        for m, c in d.t.items():
            r = _monomul(qm, m)
            if type(r) is Poly:
                return None
            _acc(rem, r, cneg(cmul(qc, c)))
    return Poly(quo)


def normalize(p):
    """Clear to a single fraction and cancel denominators that divide exactly."""
    if not inv_exponents(p):
        return p
    n, d = clear(p)
    if not n.t:
        return ZERO
    changed = {}
    for a, e in d.items():
        D = CTX.atoms[a].arg
        while e > 0:
            q = exact_div(n, D)
            if q is None:
                break
            n = q
            e -= 1
        if e:
            changed[a] = e
    r = n
    if changed:
        r = n * Poly({tuple(sorted(changed.items())): 1})
    return r


def content(p):
    """Rational/monomial content: returns (coef, mono, primitive poly)."""
    items = list(p.t.items())
    # monomial content: min exponent of each atom present (non-rule atoms only)
    rules = CTX.has_rules
    common = None
    for m, _ in items:
        d = dict(m)
        if common is None:
            common = {a: e for a, e in d.items() if a not in rules}
        else:
            for a in list(common):
                e = d.get(a, 0)
                # min over (possibly negative) exponents; missing means 0
                common[a] = min(common[a], e)
            for a, e in d.items():
                if a not in rules and a not in common and e < 0:
                    common[a] = e
    common = {a: e for a, e in common.items() if e != 0}
    # numeric content
    lead = min(items, key=lambda mc: _mono_order(mc[0]))[1]
    k = lead
    ki = cinv(k)
    cm = tuple(sorted((a, -e) for a, e in common.items()))
    out = {}
    for m, c in items:
        r = _monomul(m, cm)
        _acc(out, r, cmul(c, ki))
    # Clear rational denominators so that the primitive part has integer coefficients.
    den = 1
    g = 0
    for c in out.values():
        for x in (cre(c), cim(c)):
            f = Fraction(x)
            den = den * f.denominator // math.gcd(den, f.denominator)
    for c in out.values():
        for x in (cre(c), cim(c)):
            g = math.gcd(g, int(Fraction(x) * den))
    s = Fraction(den, g)
    out = {m: cmul(c, s) for m, c in out.items()}
    k = cmul(k, 1 / s)
    return k, tuple(sorted(common.items())), Poly(out)


def recip(p):
    """Reciprocal; records the non-zero assumption for the denominator."""
    if p.isconst():
        c = p.constval()
        if ciszero(c):
            raise ZeroDivisionError("division by an identically zero denominator")
        return Poly.const(cinv(c))
    if inv_exponents(p):
        p = normalize(p)
        if not p.t:
            raise ZeroDivisionError("division by an identically zero denominator")
    n, d = clear(p)
    if not n.t:
        raise ZeroDivisionError("division by an identically zero denominator")
    out = ONE
    for a, e in d.items():
        out = out * CTX.atoms[a].arg ** e
    rn = _recip_noinv(n)
    r = out * rn
    if d:
        r = normalize(r)
    return r


def _recip_noinv(n):
    if n.isconst():
        return Poly.const(cinv(n.constval()))
    k, mono, prim = content(n)
    res = Poly.const(cinv(k))
    for a, e in mono:
        at = CTX.atoms[a]
        if at.kind in ("exp", "expi", "expc", "pi"):
            pass
        else:
            _assume_nonzero(Poly.atom(a))
        res = res * Poly({((a, -e),): 1})
    if prim.isconst():
        return res * Poly.const(cinv(prim.constval()))
    if len(prim.t) == 1:
        # remaining single monomial made of rule atoms
        ((m, c),) = prim.t.items()
        res = res.scale(cinv(c))
        for a, e in m:
            at = CTX.atoms[a]
            if at.kind in ("sqrt", "csqrt"):
                res = res * Poly.atom(a) * recip(at.arg)
            elif at.kind == "zeta":
                res = res * _zeta_pow(at, -e)
            else:
                res = res * _inv_atom(Poly.atom(a))
        return res
    # Rationalise denominators that are linear in a constant surd (sqrt of a rational).
    for a in sorted(prim.atoms()):
        at = CTX.atoms[a]
        if at.kind == "sqrt" and at.arg.isconst():
            A, B = {}, {}
            for m, c in prim.t.items():
                if any(x == a for x, _ in m):
                    B[tuple(y for y in m if y[0] != a)] = c
                else:
                    A[m] = c
            A, B = Poly(A), Poly(B)
            den = A * A - B * B * at.arg
            if den.t:
                return res * (A - B * Poly.atom(a)) * recip(den)
        if at.kind == "zeta" and prim.atoms() == {a}:
            return res * _recip_zeta(prim, at)
    return res * _inv_atom(prim)


def _recip_zeta(p, at):
    """Reciprocal of a non-zero element of Q(i)(zeta_n) by linear algebra."""
    n = at.meta
    d = n - 1

    def vec(q):
        v = [0] * d
        for m, c in q.t.items():
            v[m[0][1] if m else 0] = c
        return v

    cols = [vec(p * _zeta_pow(at, k)) for k in range(d)]
    rows = [[cols[j][i] for j in range(d)] + [1 if i == 0 else 0] for i in range(d)]
    for c in range(d):
        pv = next((r for r in range(c, d) if not ciszero(rows[r][c])), None)
        if pv is None:
            raise ZeroDivisionError("singular in cyclotomic field")
        rows[c], rows[pv] = rows[pv], rows[c]
        ic = cinv(rows[c][c])
        rows[c] = [cmul(x, ic) for x in rows[c]]
        for r in range(d):
            if r != c and not ciszero(rows[r][c]):
                f = rows[r][c]
                rows[r] = [cadd(x, cneg(cmul(f, y))) for x, y in zip(rows[r], rows[c])]
    out = ZERO
    for k in range(d):
        out = out + _zeta_pow(at, k).scale(rows[k][d])
    return out


def _assume_nonzero(p):
    CTX.nonzero.setdefault(p.key(), p)


def _inv_atom(prim):
    # canonical sign/phase: content() made the leading coefficient positive-normalised
    key = prim.key()
    a = CTX.table.get(("inv", "inv", key))
    if a is None:
        a = CTX.atom("inv", "inv", key, arg=prim)
        a.name = f"inv{a.id}"
        CTX.table[("inv", "inv", key)] = a
        _assume_nonzero(prim)
        cp = conj(prim)
        if cp.t != prim.t:
            # conjugate denominator: may need a normalising constant
            k, mono, p2 = content(cp)
            if p2.t == prim.t and k == 1 and not mono:
                a.partner = None
            elif k == 1 and not mono:
                b = CTX.atom("inv", "inv", p2.key(), arg=p2)
                b.name = f"inv{b.id}"
                a.partner = b.id
                b.partner = a.id
                _assume_nonzero(p2)
            else:
                # register the raw conjugate (un-normalised) as the partner
                b = CTX.atom("inv", "inv", cp.key(), arg=cp)
                b.name = f"inv{b.id}"
                a.partner = b.id
                b.partner = a.id
                _assume_nonzero(cp)
    return Poly.atom(a)


def div(a, b):
    if b.isconst():
        return a.scale(cinv(b.constval())) if b.t else _div0()
    if not a.t:
        if not b.t:
            _div0()
        _ = recip(b)  # record the non-zero assumption
        return ZERO
    if a.t == b.t:
        _ = recip(b)
        return ONE
    # try exact division first (keeps things small)
    if not inv_exponents(a) and not inv_exponents(b) and len(b.t) > 1:
        q = exact_div(a, b)
        if q is not None:
            _assume_nonzero(b)
            return q
    r = a * recip(b)
    if inv_exponents(r):
        r = normalize(r)
    return r


def _div0():
    raise ZeroDivisionError("division by an identically zero denominator")


# ---------------------------------------------------------------------------
# Square roots, exponentials
# ---------------------------------------------------------------------------


def _squarefree(n):
    """n = s*s*f for a positive integer n (small)."""
    s, f = 1, 1
    d = 2
    while d * d <= n and d < 2000:
        e = 0
        while n % d == 0:
            n //= d
            e += 1
        s *= d ** (e // 2)
        f *= d ** (e % 2)
        d += 1
    r = math.isqrt(n)
    if r * r == n:
        s *= r
    else:
        f *= n
    return s, f


def sqrt_rational(c):
    """Exact sqrt of a non-negative rational as a Poly."""
    c = Fraction(c)
    if c == 0:
        return ZERO
    # sqrt(p/q) = sqrt(p*q)/q
    s, f = _squarefree(c.numerator * c.denominator)
    co = Fraction(s, c.denominator)
    out = Poly.const(co)
    d = 2
    while f > 1:
        if d * d > f or d > 2000:
            d = f
        if f % d == 0:
            a = CTX.atom("sqrt", f"sqrt{d}", ("c", d), arg=Poly.const(d))
            out = out * Poly.atom(a)
            f //= d
        else:
            d += 1
    return out


def _rational_content(p):
    """Positive rational factor of a polynomial with real rational coefficients."""
    cs = list(p.t.values())
    if any(type(c) is GQ for c in cs):
        return 1, (), p
    den, g = 1, 0
    for c in cs:
        den = den * Fraction(c).denominator // math.gcd(den, Fraction(c).denominator)
    for c in cs:
        g = math.gcd(g, int(Fraction(c) * den))
    k = Fraction(g, den)
    return k, (), p.scale(1 / k)


def sqrt_real(p):
    """Non-negative root of a real poly p (assumed >= 0: caller establishes)."""
    if p.isconst():
        c = p.constval()
        if c < 0:
            raise Unsupported("sqrt_real of negative constant")
        return sqrt_rational(c)
    p = normalize(p)
    # pull out the rational content and even monomial powers of known-positive atoms
    k, mono, prim = content(p) if not inv_exponents(p) else (*_rational_content(p),)
    if type(k) is GQ:
        k, mono, prim = 1, (), p
    if k < 0:
        k, prim = -k, -prim
    out = sqrt_rational(k)
    rest = prim
    for a, e in mono:
        at = CTX.atoms[a]
        positive = at.kind in ("exp", "pi") or (at.meta == "pos" and at.kind == "real")
        if positive and e % 2 == 0:
            out = out * Poly({((a, e // 2),): 1})
        elif positive:
            q, r = divmod(e, 2)
            if q:
                out = out * Poly({((a, q),): 1})
            rest = rest * Poly.atom(a)
        else:
            rest = rest * Poly({((a, e),): 1})
    if rest.isconst():
        return out * sqrt_rational(rest.constval())
    at = CTX.atom("sqrt", "sqrt", rest.key(), arg=rest)
    at.name = f"sqrt{at.id}"
    return out * Poly.atom(at)


def poly_sqrt(z):
    """A polynomial q with q*q == z, or None (only plain variables, small sizes)."""
    if len(z.t) < 3 or len(z.t) > 60:
        return None
    ids0 = sorted({a for m in z.t for a, _ in m})

    def lead(p):
        return max(p.t, key=lambda m: tuple(dict(m).get(a, 0) for a in ids0))
    m0 = lead(z)
    if any(e % 2 or e < 0 for _, e in m0):
        return None
    c0 = z.t[m0]
    if type(c0) is GQ:
        return None
    s = None
    if c0 > 0:
        sq = sqrt_rational(c0)
        if sq.isconst():
            s = sq.constval()
    if s is None:
        return None
    h = tuple((a, e // 2) for a, e in m0)
    q = Poly({h: s})
    for _ in range(20):
        r = z - q * q
        if r.iszero():
            return q
        m = lead(r)
        d = dict(m)
        for a, e in h:
            d[a] = d.get(a, 0) - e
        if any(e < 0 for e in d.values()):
            return None
        q = q + Poly({tuple(sorted((a, e) for a, e in d.items() if e)): cmul(r.t[m], cinv(cmul(2, s)))})
    return None


def csqrt_principal(z):
    """Principal complex square root as a fresh csqrt atom."""
    z = normalize(z)
    q = poly_sqrt(z) if CTX.oracle is not None else None
    if q is not None:
        rq = re(q)
        if CTX.oracle(SymBool("lt", -rq)) is True:
            return q
        if CTX.oracle(SymBool("lt", rq)) is True:
            return -q
    at = CTX.table.get(("csqrt", "csqrt", z.key()))
    if at is None:
        at = CTX.atom("csqrt", "csqrt", z.key(), arg=z)
        at.name = f"csqrt{at.id}"
        cz = conj(z)
        b = CTX.atom("csqrt", "csqrt_conj", z.key(), arg=cz)
        b.name = f"csqrtc{b.id}"
        at.partner = b.id
        b.partner = at.id
        at.meta = "main"
        b.meta = "conj"
    return Poly.atom(at)


PI_ATOM = None


def PI():
    a = CTX.atom("pi", "pi")
    return Poly.atom(a)


def root_of_unity(r):
    """exp(2*pi*i*r) for a rational r, exactly."""
    r = Fraction(r) % 1
    n = r.denominator
    k = r.numerator
    if n == 1:
        return ONE
    # split n = a*b with b a product of distinct primes from 5 on, and a coprime to it
    primes = [q for q in (5, 7, 11, 13) if n % q == 0]
    b = math.prod(primes)
    a = n // b
    if math.gcd(a, b) == 1 and (24 % a == 0 or a in (16, 48)):
        # k/n = x/a + y/b  with x*b + y*a = k; then y/b splits over the primes in b in the same way. The fields
        # of roots of unity of coprime orders are linearly disjoint, so products of powers stay a normal form.
        y = (k * pow(a, -1, b)) % b
        x = (k - y * a) // b
        out = _rou24(Fraction(x, a)) if 24 % a == 0 else _rou48(Fraction(x, a))
        for q in primes:
            c = b // q
            at = CTX.atom("zeta", f"zeta{q}", q, meta=q)
            out = out * _zeta_pow(at, (y * pow(c, -1, q)) % q)
        return out
    raise Unsupported(f"root of unity of order {n}")


def _rou48(r):
    """exp(2*pi*i*r) for r with denominator 16 or 48; exp(i pi/8) = c/2 (1 + i (sqrt(2) - 1)), c = sqrt(2 + sqrt(2))."""
    r = Fraction(r) % 1
    n, k = r.denominator, r.numerator
    if n not in (16, 48):
        return _rou24(r)
    y = (k * pow(16, -1, 3)) % 3 if n == 48 else 0
    x = (k - 16 * y) // (n // 16)
    s2 = sqrt_rational(2)
    w = sqrt_real(Poly.const(2) + s2).scale(Fraction(1, 2)) * (ONE + I * (s2 - ONE))
    out = _rou24(Fraction(y, 3))
    for _ in range(x % 16):
        out = normalize(out * w)
    return out


def _rou24(r):
    r = Fraction(r) % 1
    k = int(r * 24)
    c = _cos24(k)
    s = _cos24((k - 6) % 24)
    return c + I * s


def _cos24(k):
    """cos(2*pi*k/24)."""
    k %= 24
    if k > 12:
        k = 24 - k
    sign = 1
    if k > 6:
        k = 12 - k
        sign = -1
    h = Fraction(1, 2)
    s2, s3 = sqrt_rational(2), sqrt_rational(3)
    v = {
        0: ONE,
        1: (s2 * s3 + s2).scale(Fraction(1, 4)),
        2: s3.scale(h),
        3: s2.scale(h),
        4: Poly.const(h),
        5: (s2 * s3 - s2).scale(Fraction(1, 4)),
        6: ZERO,
    }[k]
    # sqrt2*sqrt3 as atoms: fine (kept as a product)
    return v.scale(sign)


def _pair_conjugates(p):
    """Rewrite c*m + c*conj(m) as c*(a named real value), so that phases stay phases."""
    out, seen = {}, set()
    for m, c in p.t.items():
        if m in seen:
            continue
        mp = Poly({m: 1})
        cm = None if isreal_syn(mp) else conj(mp)
        if cm is None or len(cm.t) != 1:
            out[m] = c
            continue
        ((m2, c2),) = cm.t.items()
        if c2 != 1 or m2 == m or m2 not in p.t or not ciszero(cadd(p.t[m2], cneg(c))):
            out[m] = c
            continue
        seen.add(m2)
        (n, _), = fn_atom("let", (mp + cm,), real=True).t.items()
        out[n] = c
    return Poly(out) if seen else p


def exp(p):
    """Exact exponential: product of exponential atoms, one per monomial."""
    out = ONE
    pi_id = CTX.table.get(("pi", "pi", None))
    if inv_exponents(p):
        p = normalize(p)
    p = _pair_conjugates(p)
    for m, c in p.t.items():
        cr, ci = cre(c), cim(c)
        if pi_id is not None and len(m) == 1 and m[0] == (pi_id.id, 1) and cr == 0:
            out = out * root_of_unity(Fraction(ci) / 2)
            continue
        bools = [a for a, _ in m if CTX.atoms[a].kind == "bool"]
        if bools:
            # exp(c*b*x) = 1 + b*(exp(c*x) - 1) for an indicator b
            b = Poly({((bools[0], 1),): 1})
            rest = Poly({tuple((a, x) for a, x in m if a != bools[0]): c})
            out = out * (ONE + b * (exp(rest) - ONE))
            continue
        if len(m) == 1 and m[0][1] == 1 and cr == 0 and ci == int(ci) and abs(ci) <= 4:
            z = _unit_of_angle(CTX.atoms[m[0][0]])
            if z is not None:
                z = z if ci > 0 else conj(z)
                for _ in range(abs(int(ci))):
                    out = out * z
                continue
        mp = Poly({m: 1})
        if isreal_syn(mp):
            if cr != 0:
                at = CTX.atom("exp", f"exp[{mp}]", m, arg=mp)
                out = out * Poly({((at.id, _n(Fraction(cr))),): 1})
            if ci != 0:
                at = CTX.atom("expi", f"expi[{mp}]", m, arg=mp)
                out = out * Poly({((at.id, _n(Fraction(ci))),): 1})
        else:
            # complex monomial: exp(c*m) = exp(cr*m) * exp(i*ci*m)
            cm = conj(mp)
            if len(cm.t) != 1:
                raise Unsupported("exp of complex monomial with composite conjugate")
            ((m2, c2),) = cm.t.items()
            for co, mul in ((cr, ONE), (ci, I)):
                if co == 0:
                    continue
                tag = "r" if mul is ONE else "i"
                at = CTX.atom("expc", f"exp{tag}[{mp}]", (m, tag), arg=mp * mul)
                if at.partner is None:
                    cj = conj(mp * mul)
                    # conj(exp(i m)) = exp(conj(i m)) = exp(-i conj(m))
                    b = CTX.atom("expc", f"conj-exp{tag}[{mp}]", (m, tag, "conj"), arg=cj)
                    at.partner = b.id
                    b.partner = at.id
                    if tag == "r" and c2 == 1:
                        # exp(conj m) is also what exp() of the conjugate monomial gives
                        CTX.table[("expc", f"exp{tag}[{Poly({m2: 1})}]", (m2, tag))] = b
                out = out * Poly({((at.id, _n(Fraction(co))),): 1})
    return out


# ---------------------------------------------------------------------------
# Variables
# ---------------------------------------------------------------------------


def real_var(name, meta=None):
    return Poly.atom(CTX.atom("real", name, meta=meta))


def complex_var(name):
    a = CTX.atom("cplx", name)
    if a.partner is None:
        b = CTX.atom("cplx", name + "~")
        a.partner = b.id
        b.partner = a.id
        a.meta = "main"
        b.meta = "conj"
    return Poly.atom(a)


# ---------------------------------------------------------------------------
# Booleans
# ---------------------------------------------------------------------------


class SymBool:
    """Symbolic boolean AST: op in {'lt','le','eq','and','or','not','var'}."""

    __slots__ = ("op", "args", "_key")

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (
                self.op,
                tuple(a.key() if isinstance(a, (SymBool, Poly)) else a for a in self.args),
            )
        return self._key

    def __eq__(self, o):
        return isinstance(o, SymBool) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f"{self.op}{self.args}"


def bnot(a):
    if isinstance(a, SymBool):
        if a.op == "not":
            return a.args[0]
        return SymBool("not", a)
    return not a


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a == b:
        return a
    return SymBool("and", a, b)


def bor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    if a == b:
        return a
    return SymBool("or", a, b)


def compare(op, a, b):
    """op in lt, le, eq; a, b Polys. Returns bool or SymBool."""
    d = a - b
    if d.isconst():
        c = d.constval()
        if op == "eq":
            return ciszero(c)
        if type(c) is GQ:
            raise Unsupported("ordering of complex numbers")
        return c < 0 if op == "lt" else c <= 0
    v = _const_approx(d)
    if v is not None and (abs(v) > 1e-9):
        if op == "eq":
            return False
        return v.real < 0
    if v is None and not inv_exponents(d) and len(d.t) > 1:
        # a positive factor times a constant
        k, mono, prim = content(d)
        if mono and type(k) is not GQ and all(CTX.atoms[a].kind in ("exp", "pi") or (CTX.atoms[a].kind == "real" and CTX.atoms[a].meta == "pos") for a, _ in mono):
            w = _const_approx(prim)
            if w is not None and abs(w) > 1e-9:
                return False if op == "eq" else (k * w.real) < 0
    if op == "eq":
        n, _ = clear(d)
        if not n.t:
            return True
        r = SymBool("eq", d)
    else:
        if not isreal_syn(d):
            d = re(d)
        r = SymBool(op, d)
    if CTX.oracle is not None:
        v = CTX.oracle(r)
        if v is not None:
            return v
    return r


def _const_approx(p):
    """Numeric value if p only has constant atoms (pi, surds, roots of unity, functions of those)."""
    for m in p.t:
        for a, _ in m:
            if CTX.atoms[a].kind in ("real", "cplx"):
                return None
    try:
        v = complex(evaluate(p, {}, {}))
    except (KeyError, ZeroDivisionError, OverflowError, ValueError, TypeError):
        return None
    if v != v or abs(v) == math.inf:
        return None
    return v


def _unit_of_angle(at):
    """exp(i * angle) for an inverse trigonometric atom, else None."""
    if at.kind != "fn" or at.name not in ("asin", "acos", "atan2"):
        return None
    if at.name == "atan2":
        y, x = at.arg
        r = sqrt_real(normalize(x * x + y * y))
        return div(x + I * y, r)
    (x,) = at.arg
    c = sqrt_real(normalize(ONE - x * x))
    return c + I * x if at.name == "asin" else x + I * c


def indicator(b):
    if b is True:
        return ONE
    if b is False:
        return ZERO
    if b.op == "not":
        return ONE - indicator(b.args[0])
    if b.op == "and":
        return indicator(b.args[0]) * indicator(b.args[1])
    if b.op == "or":
        x, y = indicator(b.args[0]), indicator(b.args[1])
        return x + y - x * y
    at = CTX.atom("bool", "b", b.key(), arg=b)
    at.name = f"b{at.id}"
    return Poly.atom(at)


def ite(b, x, y):
    if b is True:
        return x
    if b is False:
        return y
    if x.t == y.t:
        return x
    return y + indicator(b) * (x - y)


def fn_atom(name, args, real=True, partner_name=None):
    args = tuple(normalize(a) for a in args)
    key = tuple(a.key() for a in args)
    at = CTX.atom("fn" if real else "cfn", name, key, arg=args)
    if not real and at.partner is None:
        b = CTX.atom("cfn", name + "~", key, arg=args)
        at.partner = b.id
        b.partner = at.id
        at.meta = "main"
        b.meta = "conj"
    return Poly.atom(at)


# ---------------------------------------------------------------------------
# Numeric evaluation (used to validate the encoder)
# ---------------------------------------------------------------------------


def evaluate(p, env, cache=None):
    """Evaluate numerically; env maps free atom ids to complex numbers."""
    if cache is None:
        cache = {}
    tot = 0j
    for m, c in p.t.items():
        v = complex(float(cre(c)), float(cim(c)))
        for a, e in m:
            x = _eval_atom(a, env, cache)
            if e != 1:
                if CTX.atoms[a].kind in ("exp", "expi", "expc"):
                    import cmath

                    x = cmath.exp(float(e) * cache[("log", a)])
                else:
                    x = x ** (int(e) if e == int(e) else float(e))
            v *= x
        tot += v
    return tot


def _eval_atom(a, env, cache):
    import cmath

    if a in cache:
        return cache[a]
    at = CTX.atoms[a]
    k = at.kind
    if k in ("real", "cplx"):
        if a in env:
            v = env[a]
        elif at.partner is not None and at.partner in env:
            v = complex(env[at.partner]).conjugate()
        else:
            raise KeyError(at.name)
    elif k == "pi":
        v = math.pi
    elif k == "sqrt":
        z = evaluate(at.arg, env, cache)
        v = math.sqrt(max(z.real, 0.0))
    elif k == "csqrt":
        if at.meta == "conj":
            v = _eval_atom(at.partner, env, cache).conjugate()
        else:
            v = cmath.sqrt(evaluate(at.arg, env, cache))
    elif k in ("exp", "expi", "expc"):
        z = evaluate(at.arg, env, cache)
        if k == "expi":
            z = 1j * z
        cache[("log", a)] = z
        v = cmath.exp(z)
    elif k == "inv":
        v = 1 / evaluate(at.arg, env, cache)
    elif k == "bool":
        v = 1.0 if eval_bool(at.arg, env, cache) else 0.0
    elif k == "zeta":
        v = cmath.exp(2j * math.pi / at.meta)
    elif k in ("fn", "cfn"):
        name = at.name
        conjd = name.endswith("~")
        f = NUMFN.get(name.rstrip("~"))
        if f is None:
            raise KeyError(name)
        v = f(*[evaluate(x, env, cache) for x in at.arg])
        if conjd:
            v = complex(v).conjugate()
    else:
        raise KeyError(k)
    cache[a] = v
    return v


def eval_bool(b, env, cache=None):
    if cache is None:
        cache = {}
    if b is True or b is False:
        return b
    if b.op == "not":
        return not eval_bool(b.args[0], env, cache)
    if b.op == "and":
        return eval_bool(b.args[0], env, cache) and eval_bool(b.args[1], env, cache)
    if b.op == "or":
        return eval_bool(b.args[0], env, cache) or eval_bool(b.args[1], env, cache)
    v = evaluate(b.args[0], env, cache)
    if b.op == "lt":
        return v.real < 0
    if b.op == "le":
        return v.real <= 0
    if b.op == "eq":
        return abs(v) < 1e-12
    raise KeyError(b.op)


NUMFN = {}
