"""Harness layer: trace real code, execute symbolically, ask the solver, replay."""

from __future__ import annotations

import dataclasses
import json
import math
import random
import time
import traceback
from fractions import Fraction
from typing import Any, Callable, Optional

import jax
import jax.numpy as jnp
import numpy as np
import z3

from . import interp as IP
from . import poly as P
from . import smt
from .poly import GQ, Poly, SymBool, Unsupported

jax.config.update("jax_enable_x64", True)


# ---------------------------------------------------------------------------
# Input specifications
# ---------------------------------------------------------------------------


@dataclasses.dataclass
class Spec:
    shape: tuple
    kind: str = "real"  # real | pos | cplx | const | unit(phase)
    lo: float = -2.0
    hi: float = 2.0
    value: Any = None  # nested list for const (Fractions, ints, complex pairs)
    dtype: Any = None
    mask: Any = None  # optional bool array: True where symbolic; else `value` is used


def R(*shape, lo=-2.0, hi=2.0, **k):
    return Spec(tuple(shape), "real", lo, hi, **k)


def Pos(*shape, lo=0.3, hi=2.5, **k):
    return Spec(tuple(shape), "pos", lo, hi, **k)


def C(*shape, lo=-2.0, hi=2.0, **k):
    return Spec(tuple(shape), "cplx", lo, hi, **k)


def K(value, dtype=None):
    """Concretised input: exact rationals (or Gaussian rationals as complex/tuples)."""
    a = np.array(_map_nested(value), dtype=object)
    if isinstance(value, np.ndarray):
        a = np.empty(value.shape, dtype=object)
        for i in np.ndindex(value.shape):
            a[i] = _exact(value[i])
    return Spec(a.shape, "const", value=a, dtype=dtype)


def _exact(v):
    if isinstance(v, GQ) or isinstance(v, Fraction):
        return v
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (complex, np.complexfloating)):
        re_ = Fraction(float(v.real)).limit_denominator(10**6)
        im_ = Fraction(float(v.imag)).limit_denominator(10**6)
        return P.mkc(re_, im_)
    return P._n(Fraction(float(v)).limit_denominator(10**6))


def _map_nested(v):
    if isinstance(v, (list, tuple)):
        return [_map_nested(x) for x in v]
    if isinstance(v, np.ndarray):
        return v
    return _exact(v)


def rand_rational(rng, lo, hi, den=64):
    n = rng.randint(math.ceil(lo * den), math.floor(hi * den))
    return Fraction(n, den)


@dataclasses.dataclass
class Case:
    prop: str
    name: str
    inputs: dict
    body: Callable  # body(inp: dict of arrays) -> list of goals
    assume: Optional[Callable] = None  # assume(inp) -> list of bool arrays
    bounds: str = ""
    functions: tuple = ()
    tier: str = "quick"
    timeout_ms: int = 20000
    budget_s: float = 60.0
    contract_goals: bool = True
    tol: float = 1e-7
    validate: bool = True
    samples: int = 6
    reduce_to: tuple = ()  # names kept symbolic in fall-back concretisation
    replay_wrap: Any = None
    nan_ok: bool = False
    opaque_solve: int = 0  # linear systems of at least this size: memoised symbolic inverse
    opaque_max: int = 0
    let_terms: int = 0


def eq(label, lhs, rhs):
    return ("eq", label, lhs, rhs)


def ge(label, a, b=0.0):
    return ("ge", label, a, b)


def true(label, cond):
    return ("true", label, cond, None)


class StaticFail(Exception):
    """A trace-time (shape/type level) violation of the property."""


# ---------------------------------------------------------------------------
# Building symbolic inputs and concrete inputs
# ---------------------------------------------------------------------------


def sym_inputs(specs, fixed):
    """fixed: dict name -> object array of exact values to use instead of symbols."""
    out = {}
    vars_ = {}
    for name, sp in specs.items():
        a = np.empty(sp.shape, dtype=object)
        for idx in np.ndindex(sp.shape):
            vn = name + "".join(f"_{i}" for i in idx)
            if sp.kind == "const":
                a[idx] = Poly.const(sp.value[idx] if sp.shape else sp.value.item())
            elif name in fixed:
                f = fixed[name]
                a[idx] = Poly.const(f[idx] if sp.shape else f.item())
            elif sp.mask is not None and not sp.mask[idx]:
                a[idx] = Poly.const(_exact(np.asarray(sp.value, dtype=object)[idx]))
            elif sp.kind == "real":
                a[idx] = P.real_var(vn)
                vars_[(name, idx)] = a[idx]
            elif sp.kind == "pos":
                a[idx] = P.real_var(vn, meta="pos")
                vars_[(name, idx)] = a[idx]
            elif sp.kind == "cplx":
                a[idx] = P.complex_var(vn)
                vars_[(name, idx)] = a[idx]
            else:
                raise ValueError(sp.kind)
        out[name] = a
    return out, vars_


def np_dtype(sp):
    if sp.dtype is not None:
        return sp.dtype
    if sp.kind == "cplx":
        return np.complex128
    if sp.kind == "const":
        if any(type(x) is GQ for x in np.asarray(sp.value, dtype=object).reshape(-1)):
            return np.complex128
    return np.float64


def sample_inputs(specs, rng, fixed=None):
    """Exact random values for all inputs."""
    out = {}
    for name, sp in specs.items():
        a = np.empty(sp.shape, dtype=object)
        for idx in np.ndindex(sp.shape):
            if sp.kind == "const":
                v = sp.value[idx] if sp.shape else sp.value.item()
            elif sp.mask is not None and not sp.mask[idx]:
                v = _exact(np.asarray(sp.value, dtype=object)[idx])
            elif sp.kind == "cplx":
                v = P.mkc(rand_rational(rng, sp.lo, sp.hi), rand_rational(rng, sp.lo, sp.hi))
            else:
                v = P._n(rand_rational(rng, sp.lo, sp.hi))
                if sp.kind == "pos" and v <= 0:
                    v = Fraction(1, 64)
            a[idx] = v
        if fixed and name in fixed:
            a = fixed[name]
        out[name] = a
    return out


def to_float(specs, exact):
    out = {}
    for name, a in exact.items():
        dt = np_dtype(specs[name])
        f = np.empty(a.shape, dtype=np.complex128)
        for idx in np.ndindex(a.shape):
            c = a[idx]
            f[idx] = complex(float(P.cre(c)), float(P.cim(c)))
        if not np.issubdtype(dt, np.complexfloating):
            f = f.real
        out[name] = jnp.asarray(f.astype(dt))
    return out


def abstract_inputs(specs):
    return {n: jax.ShapeDtypeStruct(sp.shape, np_dtype(sp)) for n, sp in specs.items()}


# ---------------------------------------------------------------------------
# Concrete evaluation (replay)
# ---------------------------------------------------------------------------


def concrete_assume(case, exact):
    if case.assume is None:
        return True
    conds = case.assume(to_float(case.inputs, exact))
    return all(bool(np.all(np.asarray(c))) for c in conds)


def concrete_goals(case, exact):
    goals = case.body(to_float(case.inputs, exact))
    res = []
    for k, label, a, b in goals:
        a = np.asarray(a)
        b = None if b is None else np.asarray(b)
        res.append((k, label, a, b))
    return res


def violated(case, goals):
    """First violated goal at a concrete point, as (label, detail), else None."""
    for k, label, a, b in goals:
        if k == "true":
            if not np.all(a):
                return label, {"index": [int(i) for i in np.argwhere(~np.atleast_1d(a))[0]], "kind": "true"}
            continue
        if k == "eq":
            try:
                aa, bb = np.broadcast_arrays(np.asarray(a, dtype=complex), np.asarray(b, dtype=complex))
            except ValueError:
                return label, {"kind": "shape", "lhs_shape": list(a.shape), "rhs_shape": list(b.shape)}
            if aa.size == 0:
                continue
            fa, fb = np.isfinite(aa), np.isfinite(bb)
            if case.nan_ok:
                ok = fa & fb
                if not ok.any():
                    continue
                aa = np.where(ok, aa, 0)
                bb = np.where(ok, bb, 0)
            elif not (fa.all() and fb.all()):
                i = np.argwhere(np.atleast_1d(~(fa & fb)))[0]
                return label, {"kind": "nonfinite", "index": [int(x) for x in i]}
            scale = max(1.0, float(np.max(np.abs(aa))), float(np.max(np.abs(bb))))
            d = np.abs(aa - bb)
            # elementwise relative criterion with an absolute floor
            lim = case.tol * np.maximum(np.maximum(np.abs(aa), np.abs(bb)), 1e-3 * scale)
            lim = np.maximum(lim, 1e-10)
            bad = d > lim
            if bad.any():
                i = np.unravel_index(int(np.argmax(d)), d.shape)
                return label, {
                    "kind": "eq", "index": [int(x) for x in i],
                    "lhs": str(aa[i]), "rhs": str(bb[i]), "abs_diff": float(d[i]),
                }
        if k == "ge":
            a = np.real(a)
            b = np.real(b) if b is not None else 0.0
            d = np.asarray(a - b, dtype=float)
            if d.size and (not np.all(np.isfinite(d)) or np.min(d) < -1e-9 * max(1.0, np.max(np.abs(a)))):
                i = np.unravel_index(int(np.nanargmin(d)), d.shape)
                return label, {"kind": "ge", "index": [int(x) for x in i], "a_minus_b": float(d[i])}
    return None


# ---------------------------------------------------------------------------
# The check of one case
# ---------------------------------------------------------------------------


class Result:
    def __init__(self, case):
        self.case = case.name
        self.status = "undecided"
        self.goals = 0
        self.elements = 0
        self.trivial = 0
        self.solver = 0
        self.reduced = []
        self.detail = None
        self.replay = None
        self.notes = []
        self.prims = {}
        self.wall = 0.0
        self.vacuity = None
        self.validated = 0
        self.bounds = case.bounds
        self.functions = list(case.functions)

    def as_dict(self):
        return dict(self.__dict__)


def _frac_json(c):
    return [str(P.cre(c)), str(P.cim(c))]


def dump_inputs(exact):
    out = {}
    for n, a in exact.items():
        out[n] = {"shape": list(a.shape), "data": [_frac_json(c) for c in a.reshape(-1)]}
    return out


def load_inputs(d):
    out = {}
    for n, v in d.items():
        a = np.empty(len(v["data"]), dtype=object)
        for i, (r, m) in enumerate(v["data"]):
            a[i] = P.mkc(Fraction(r), Fraction(m))
        out[n] = a.reshape(v["shape"])
    return out


def run_case(case, seed=1, log=lambda *a: None):
    t0 = time.time()
    res = Result(case)
    rng = random.Random(f"{seed}:{case.prop}:{case.name}")
    try:
        _run_case(case, res, rng, log)
    except Exception as e:  # noqa: BLE001
        res.status = "error"
        res.detail = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1800:]}"
    res.wall = time.time() - t0
    return res


def sample_ok(case, rng, fixed=None, tries=200):
    for _ in range(tries):
        s = sample_inputs(case.inputs, rng, fixed)
        if concrete_assume(case, s):
            return s
    return None


def replay_points(case, rng, first=(), n=6):
    pts = list(first)
    for _ in range(n):
        s = sample_ok(case, rng)
        if s is not None:
            pts.append(s)
    return pts


def try_replay(case, rng, first=(), n=None):
    """Run the real code on candidate points; return (exact inputs, label, detail)."""
    for s in replay_points(case, rng, first, case.samples if n is None else n):
        try:
            if not concrete_assume(case, s):
                continue
        except Exception:  # noqa: BLE001
            continue
        try:
            g = concrete_goals(case, s)
        except StaticFail as e:
            return s, "static", {"kind": "static", "error": str(e)}
        except Exception as e:  # noqa: BLE001
            return s, "raises", {"kind": "exception", "error": f"{type(e).__name__}: {e}"}
        v = violated(case, g)
        if v is not None:
            return s, v[0], v[1]
    return None


def _run_case(case, res, rng, log):
    # 1. trace the real code from the current source
    kinds = []

    def fn(inp):
        goals = case.body(inp)
        kinds.clear()
        outs = []
        for k, label, a, b in goals:
            a = jnp.asarray(a)
            b = jnp.zeros(()) if b is None else jnp.asarray(b)
            if k == "eq" and a.shape != b.shape and a.ndim and b.ndim:
                try:
                    jnp.broadcast_shapes(a.shape, b.shape)
                except ValueError:
                    raise StaticFail(f"{label}: shapes {a.shape} vs {b.shape}")
            kinds.append((k, label))
            outs += [a, b]
        return outs

    def afn(inp):
        return [jnp.asarray(c) for c in (case.assume(inp) if case.assume else [])]

    absin = abstract_inputs(case.inputs)
    try:
        closed = jax.make_jaxpr(fn)(absin)
    except Exception as e:  # noqa: BLE001
        hit = try_replay(case, rng)
        if hit is not None:
            res.status = "violation"
            res.detail = {"goal": hit[1], **hit[2]}
            res.replay = dump_inputs(hit[0])
            return
        raise
    aclosed = jax.make_jaxpr(afn)(absin) if case.assume else None
    names = sorted(case.inputs)

    attempts = [(set(names), "full")]
    sub = list(case.reduce_to) or [n for n in names if case.inputs[n].kind != "const"]
    pending = None
    case._hint = None
    verdict, info = decide(case, res, rng, closed, aclosed, kinds, names, {}, log)
    if verdict == "undecided" and case._hint is not None:
        # the encoder's validation point contradicts a goal on the real code
        hit = try_replay(case, rng, [case._hint])
        if hit is not None:
            res.status = "violation"
            res.detail = {"goal": hit[1], **hit[2], "solver": "unknown", "full": info}
            res.replay = dump_inputs(hit[0])
            return
    if verdict == "holds":
        res.status = "holds"
        return
    if verdict == "violation":
        return
    # 2. fall-back: keep one input symbolic at a time (a smaller, stated bound)
    res.reduced.append(f"full symbolic input undecided: {info}")
    log("  fallback:", case.name, info)
    if not sub:
        hit = try_replay(case, rng, n=1)
        if hit is not None:
            res.status = "violation"
            res.detail = {"goal": hit[1], **hit[2]}
            res.replay = dump_inputs(hit[0])
        else:
            res.status = "undecided"
            res.detail = info
        return
    for n in sub:
        point = sample_ok(case, rng)
        if point is None:
            res.status = "undecided"
            res.detail = "no sample satisfies the assumptions"
            return
        fixed = {m: point[m] for m in names if m != n and case.inputs[m].kind != "const"}
        verdict, info = decide(case, res, rng, closed, aclosed, kinds, names, fixed, log)
        if verdict == "violation":
            return
        if verdict != "holds":
            # last resort: fix part of this input as well
            done = False
            sp = case.inputs[n]
            for _ in range(2):
                keep = None
                idxs = list(np.ndindex(sp.shape))
                k = rng.choice(idxs) if idxs else ()
                verdict2, info2 = decide(
                    case, res, rng, closed, aclosed, kinds, names, fixed, log, only=(n, k, point)
                )
                if verdict2 == "violation":
                    return
                if verdict2 == "holds":
                    res.reduced.append(f"decided with only {n}{list(k)} symbolic")
                    done = True
                    break
            if not done:
                # no symbolic decision possible at this bound
                hit = try_replay(case, rng, n=12)
                if hit is not None:
                    res.status = "violation"
                    res.detail = {"goal": hit[1], **hit[2]}
                    res.replay = dump_inputs(hit[0])
                    return
                res.status = "undecided"
                res.detail = info
                return
        else:
            res.reduced.append(f"decided with only {n} symbolic")
    res.status = "holds-reduced"


def _oracle(assumptions, cache):
    solver_cache = {}

    def f(b):
        k = b.key()
        if k in cache:
            return cache[k]
        if P.ctx().is_opaque(b):
            return None
        smt.STATS.oracle += 1
        r = None
        try:
            pol = [b.args[0]] if b.op in ("lt", "le", "eq") else []
            s1, _, _ = smt.check_full(lambda e: z3.Not(e.cond(b)), pol, assumptions, timeout_ms=1500)
            if s1 == z3.unsat:
                r = True
            else:
                s2, _, _ = smt.check_full(lambda e: e.cond(b), pol, assumptions, timeout_ms=1500)
                if s2 == z3.unsat:
                    r = False
        except (Unsupported, ZeroDivisionError):
            r = None
        cache[k] = r
        return r

    return f


def decide(case, res, rng, closed, aclosed, kinds, names, fixed, log, only=None):
    """Symbolic execution + solver on one choice of symbolic inputs."""
    P.reset()
    smt_deadline = time.time() + case.budget_s
    it = IP.Interp()
    it.deadline = smt_deadline
    it.opaque_solve = case.opaque_solve
    it.opaque_max = case.opaque_max
    it.let_terms = case.let_terms
    P.ctx().deadline = smt_deadline
    try:
        if only is not None:
            n, k, point = only
            f2 = dict(fixed)
            sp = case.inputs[n]
            mask = np.zeros(sp.shape, dtype=bool)
            mask[k] = True
            import copy

            specs = dict(case.inputs)
            specs[n] = dataclasses.replace(sp, mask=mask, value=point[n])
        else:
            specs = case.inputs
            f2 = fixed
        ins, vars_ = sym_inputs(specs, f2)
        args = [ins[n] for n in names]
        assumptions = []
        if aclosed is not None:
            for arr in it.run_closed(aclosed, args):
                for x in np.asarray(arr).reshape(-1):
                    if isinstance(x, SymBool):
                        assumptions.append(x)
                    elif not bool(x):
                        return "undecided", "assumptions constant false"
        P.ctx().oracle = _oracle(assumptions, {})
        outs = it.run_closed(closed, args)
    except Unsupported as e:
        return "undecided", f"unsupported: {e}"
    except ZeroDivisionError as e:
        # identically singular on the symbolic domain: see whether the real code fails
        hit = try_replay(case, rng)
        if hit is not None:
            res.status = "violation"
            res.detail = {"goal": hit[1], **hit[2]}
            res.replay = dump_inputs(hit[0])
            return "violation", None
        return "undecided", f"division by zero: {e}"
    except (RecursionError, MemoryError) as e:
        return "undecided", f"{type(e).__name__}"
    P.ctx().oracle = None
    P.ctx().deadline = smt_deadline
    for k, v in it.prims.items():
        res.prims[k] = res.prims.get(k, 0) + v
    res.notes = sorted(set(res.notes) | P.ctx().notes)

    contracts = []
    for call in it.eigcalls:
        if not call.symbolic or call.kind != "eig":
            continue
        n = call.matrix.shape[0]
        for i in range(n):
            for j in range(n):
                s = P.ZERO
                for k in range(n):
                    s = s + call.matrix[i, k] * call.v[k, j]
                contracts.append(s - call.v[i, j] * call.w[j])

    # vacuity: assumptions and denominators are jointly satisfiable (witness by sampling the
    # real code, otherwise by the solver)
    w = sample_ok(case, rng, {**fixed} if fixed else None)
    if w is None:
        st, _, _ = smt.check_full(lambda e: z3.BoolVal(True), [], assumptions, timeout_ms=10000)
        if st != z3.sat:
            return "undecided", f"vacuity witness not found ({st})"
    res.vacuity = "witness"

    # encoder validation at a random point: symbolic value == real code's value
    if case.validate and only is None and w is not None:
        bad = validate_point(case, names, ins, vars_, outs, kinds, it, rng, fixed, w)
        if isinstance(bad, tuple):
            res.status = "violation"
            res.detail = {"goal": bad[1], **bad[2]}
            res.replay = dump_inputs(bad[0])
            return "violation", None
        if bad is not None:
            return "undecided", f"encoder validation failed: {bad}"
        res.validated += 1
    elif only is None and not fixed and w is not None:
        try:
            if violated(case, concrete_goals(case, w)) is not None:
                case._hint = w
        except Exception:  # noqa: BLE001
            pass

    # goals
    trivial = []
    hard = []
    for gi, (kind, label) in enumerate(kinds):
        a, b = np.asarray(outs[2 * gi]), np.asarray(outs[2 * gi + 1])
        if kind == "true":
            for idx in np.ndindex(a.shape):
                x = a[idx]
                res.elements += 1
                if isinstance(x, SymBool):
                    hard.append(("true", label, idx, x, None))
                elif not bool(x):
                    hard.append(("true", label, idx, False, None))
            continue
        a = a if a.dtype == object else IP.lift_int(a)
        b = b if b.dtype == object else IP.lift_int(b)
        a, b = np.broadcast_arrays(a, b)
        for idx in np.ndindex(a.shape):
            res.elements += 1
            l, r = a[idx], b[idx]
            try:
                if kind == "eq":
                    L, Rr = smt.common_forms(l, r)
                    if (L - Rr).iszero():
                        fp = smt.factored_pair(l, r)
                        trivial.append((L, Rr, fp if fp is not None and (fp[1] or fp[3]) else None))
                    else:
                        hard.append(("eq", label, idx, L, Rr))
                else:
                    hard.append(("ge", label, idx, l, r))
            except Unsupported as e:
                return "undecided", f"{label}{list(idx)}: {e}"
    res.goals = len(kinds)
    # dispatch identities to the solver in batches
    seen = set()
    batch, size = [], 0
    uniq = []
    for L, Rr, fp in trivial:
        k = (L.key(), Rr.key())
        if k in seen:
            continue
        seen.add(k)
        uniq.append((L, Rr, fp))
    for L, Rr, fp in uniq:
        n = len(L.t) + len(Rr.t)
        if fp is not None and n < 400:
            # the solver multiplies the denominators out itself; fall back to expanded forms
            if smt.check_ring([fp], timeout_ms=3000) == z3.unsat:
                continue
        batch.append((L, Rr))
        size += n
        if size > 4000:
            if smt.check_ring(batch) != z3.unsat:
                return "undecided", "identity query not unsat"
            batch, size = [], 0
    if batch and smt.check_ring(batch) != z3.unsat:
        return "undecided", "identity query not unsat"
    res.trivial += len(trivial)

    # where the validation point already contradicts a goal on the real code, queries are kept short:
    # the point is replayed with the first goal the solver does not settle
    hint = getattr(case, "_hint", None)
    tmo = case.timeout_ms if hint is None else min(case.timeout_ms, 3000)
    doneh = set()
    for kind, label, idx, L, Rr in hard:
        if time.time() > smt_deadline:
            return "undecided", "time budget exhausted"
        if hint is not None and kind != "true" and len((L - Rr).t) > 300:
            status, model, enc = z3.unknown, None, None
        elif kind == "true":
            if L is False:
                status, model, enc = z3.sat, None, None
            else:
                if L.key() in doneh:
                    continue
                status, model, enc = smt.check_full(
                    lambda e: z3.Not(e.cond(L)), bool_polys(L), assumptions, (), tmo
                )
                if status == z3.unsat:
                    doneh.add(L.key())
        elif kind == "eq":
            d = L - Rr
            if d.key() in doneh:
                continue
            if contracts and not reachable_contract(d, contracts):
                cons = []
            else:
                cons = contracts
                d0 = smt.clear_laurent(P.clear(d)[0])
                d, den, used = reduce_by_contracts(d0, contracts)
                if d.iszero():
                    # d0 is a combination of the contracts: the solver checks the certificate
                    comb = P.ZERO
                    for mlt, c in used:
                        comb = comb + mlt * c
                    if smt.check_ring([(den * d0, comb)]) == z3.unsat:
                        doneh.add((L - Rr).key())
                        res.solver += 1
                        continue

            def neg(e, d=d):
                r, i = e.parts(d)
                c = [e.expr(x) != 0 for x in (r, i) if x.t]
                return z3.Or(*c) if c else z3.BoolVal(False)

            try:
                status, model, enc = smt.check_full(neg, [d], assumptions, cons, tmo)
            except Unsupported as e:
                return "undecided", f"{label}{list(idx)}: {e}"
            if status == z3.unsat:
                doneh.add(d.key())
                doneh.add((L - Rr).key())
        else:
            d = L - Rr
            if d.key() in doneh:
                continue

            def neg(e, d=d):
                r, i = e.parts(d)
                return e.expr(r) < 0

            try:
                status, model, enc = smt.check_full(neg, [d], assumptions, contracts if reachable_contract(d, contracts) else (), tmo)
            except Unsupported as e:
                return "undecided", f"{label}{list(idx)}: {e}"
            if status == z3.unsat:
                doneh.add(d.key())
        res.solver += 1
        if status == z3.unsat:
            continue
        if status == z3.sat or status == z3.unknown:
            first = [] if hint is None else [hint]
            if model is not None:
                first = first + model_points(case, names, vars_, model, enc, rng, fixed, only)
            hit = try_replay(case, rng, first)
            if hit is not None:
                res.status = "violation"
                res.detail = {"goal": hit[1], **hit[2], "solver": str(status), "symbolic_goal": f"{label}{list(idx)}"}
                res.replay = dump_inputs(hit[0])
                return "violation", None
            return "undecided", f"{label}{list(idx)}: solver {status}, no concrete reproduction"
    return "holds", None


def bool_polys(b):
    out = []
    st = [b]
    while st:
        x = st.pop()
        if isinstance(x, SymBool):
            st.extend(x.args)
        elif isinstance(x, Poly):
            out.append(x)
    return out


def reachable_contract(d, contracts):
    if not contracts:
        return False
    rel = smt.relevant([d])
    return any(rel & c.atoms() for c in contracts)


def contract_rules(contracts):
    """Orient each contract sum_k M_ik v_kj - v_ij w_j = 0 as a rewrite D * v_ij*w_j -> (M v)_ij.

    D is the common denominator of row i of M (a polynomial that is non-zero by assumption).
    """
    rules = []
    for c in contracts:
        c = smt.clear_laurent(P.clear(c)[0])
        key = None
        for m in c.t:
            names = {P.ctx().atoms[a].name: a for a, e in m}
            ws = [n for n in names if n.startswith("eigw")]
            vs = [n for n in names if n.startswith("eigv")]
            if len(ws) == 1 and len(vs) == 1:
                key = tuple(sorted(((names[ws[0]], 1), (names[vs[0]], 1))))
                break
        if key is None:
            continue
        for k, cc in ((key, c), (_conj_mono(key), P.conj(c))):
            D, rest = _split(cc, k)
            # the other terms of the contract must not contain the eliminated product
            if D.t and not any(_divides(k, mm) for mm in rest.t):
                rules.append((k, D, cc))
    return rules


def _divides(m, mm):
    dd = dict(mm)
    return all(dd.get(a, 0) >= e for a, e in m)


def _split(d, m):
    """d = A * m + B with no term of B divisible by m."""
    md = dict(m)
    A, B = {}, {}
    for mm, cc in d.t.items():
        if _divides(m, mm):
            q = {a: e - md.get(a, 0) for a, e in mm}
            q = tuple(sorted((a, e) for a, e in q.items() if e))
            A[q] = P.cadd(A.get(q, 0), cc)
        else:
            B[mm] = cc
    return Poly({k: v for k, v in A.items() if not P.ciszero(v)}), Poly(B)


def reduce_by_contracts(d, contracts):
    """Write den * d = rem + sum_i mult_i * contract_i; returns (rem, den, [(mult_i, contract_i)])."""
    used = []
    den = P.ONE
    rules = contract_rules(contracts)
    for _ in range(8):
        changed = False
        for m, D, c in rules:
            A, _B = _split(d, m)
            if not A.t:
                continue
            # D * d - A * c eliminates (one power of) the product
            if D.key() == P.ONE.key():
                d = d - A * c
            else:
                if len(d.t) * len(D.t) > 200000:
                    return d, den, used
                used = [(mlt * D, cc) for mlt, cc in used]
                den = den * D
                d = D * d - A * c
            used.append((A, c))
            changed = True
        if not changed:
            break
    return d, den, used


def _conj_mono(m):
    out = []
    for a, e in m:
        at = P.ctx().atoms[a]
        out.append((at.partner if at.partner is not None else a, e))
    return tuple(sorted(out))


def model_points(case, names, vars_, model, enc, rng, fixed, only):
    """Concrete inputs suggested by the solver's model (plus perturbed variants)."""
    pts = []
    base = sample_ok(case, rng) or sample_inputs(case.inputs, rng)
    if fixed:
        for n, v in fixed.items():
            base[n] = v
    if only is not None:
        base = {n: a.copy() for n, a in base.items()}
        base[only[0]] = only[2][only[0]].copy()
    pt = {n: a.copy() for n, a in base.items()}
    partial = {n: a.copy() for n, a in base.items()}
    for (n, idx), p in vars_.items():
        ((m, _),) = p.t.items()
        aid = m[0][0]
        at = P.ctx().atoms[aid]
        known = aid in enc.sub
        if at.kind == "cplx":
            if known:
                r, i = smt.split(enc.sub[aid][0])
                v = P.mkc(
                    smt.model_value(model, enc.expr(r)), smt.model_value(model, enc.expr(i))
                )
                v = P.mkc(_limit(P.cre(v)), _limit(P.cim(v)))
            else:
                v = base[n][idx]
        else:
            if known:
                v = P._n(_limit(smt.model_value(model, enc.expr(enc.sub[aid][0]))))
            else:
                v = base[n][idx]
        pt[n][idx] = v
    pts.append(pt)
    # variants: move a random subset of the variables back to generic values
    keys = list(vars_)
    for t in range(6):
        v = {n: a.copy() for n, a in pt.items()}
        g = sample_inputs(case.inputs, rng)
        for n, idx in keys:
            if rng.random() < 0.5:
                v[n][idx] = g[n][idx]
        pts.append(v)
    return pts


def _limit(f):
    f = Fraction(f)
    if f.denominator > 10**12:
        return f.limit_denominator(10**12)
    return f


def validate_point(case, names, ins, vars_, outs, kinds, it, rng, fixed, w):
    """Compare the symbolic result with the real code at point `w` (floats)."""
    s = {n: a.copy() for n, a in w.items()}
    try:
        goals = concrete_goals(case, s)
        if violated(case, goals) is not None:
            case._hint = s
    except StaticFail as e:
        return (s, "static", {"kind": "static", "error": str(e)})
    except Exception as e:  # noqa: BLE001
        return (s, "raises", {"kind": "exception", "error": f"{type(e).__name__}: {e}"})
    env = {}
    for (n, idx), p in vars_.items():
        ((m, _),) = p.t.items()
        c = s[n][idx]
        env[m[0][0]] = complex(float(P.cre(c)), float(P.cim(c)))
    cache = {}
    for call in it.eigcalls:
        if not call.symbolic:
            continue
        try:
            M = np.array(
                [P.evaluate(x, env, cache) for x in call.matrix.reshape(-1)]
            ).reshape(call.matrix.shape)
        except (KeyError, ZeroDivisionError, OverflowError):
            return None
        if call.kind == "solve":
            for r, xs in zip(call.rhs, call.sol):
                val = np.linalg.solve(M, np.array([P.evaluate(x, env, cache) for x in r]))
                for p, v in zip(xs, val):
                    ((m, _),) = p.t.items()
                    env[m[0][0]] = complex(v)
            cache = {}
            continue
        wv, vv = jnp.linalg.eig(jnp.asarray(M))
        for p, v in zip(call.w.reshape(-1), np.asarray(wv).reshape(-1)):
            ((m, _),) = p.t.items()
            env[m[0][0]] = complex(v)
        for p, v in zip(call.v.reshape(-1), np.asarray(vv).reshape(-1)):
            if not p.t:
                continue
            ((m, _),) = p.t.items()
            env[m[0][0]] = complex(v)
        cache = {}
    for gi, (kind, label) in enumerate(kinds):
        if kind == "true":
            continue
        for side in (0, 1):
            arr = np.asarray(outs[2 * gi + side])
            real = goals[gi][2 + side]
            if real is None:
                continue
            arr = arr if arr.dtype == object else IP.lift_int(arr)
            flat = arr.reshape(-1)
            rr = np.asarray(real, dtype=complex).reshape(-1)
            if len(rr) == 1 and len(flat) > 1:
                continue
            step = max(1, len(flat) // 24)
            scale = max(1.0, np.max(np.abs(rr[np.isfinite(rr)]))) if np.isfinite(rr).any() else 1.0
            for i in range(0, len(flat), step):
                try:
                    v = P.evaluate(flat[i], env, cache)
                except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                    continue
                if not np.isfinite(v) or not np.isfinite(rr[i]):
                    continue
                if abs(v - rr[i]) > 1e-5 * scale:
                    return f"{label} side {side} element {i}: symbolic {v} real {rr[i]}"
    return None


# ---------------------------------------------------------------------------
# Interface used by the worker
# ---------------------------------------------------------------------------


def _case_run(self, seed):
    return run_case(self, seed)


def _case_replay(self, inputs):
    exact = load_inputs(inputs)
    try:
        return violated(self, concrete_goals(self, exact))
    except StaticFail as e:
        return "static", str(e)
    except Exception as e:  # noqa: BLE001
        return "raises", f"{type(e).__name__}: {e}"


Case.run = _case_run
Case.replay = _case_replay
def _case_probe(self, seed):
    """After a killed symbolic run: does the real code fail concretely on a few points?"""
    rng = random.Random(f"{seed}:{self.prop}:{self.name}")
    hit = try_replay(self, rng, n=4)
    r = {"case": self.name, "status": "undecided"}
    if hit is not None:
        r.update(status="violation", detail={"goal": hit[1], **hit[2], "solver": "no answer"}, replay=dump_inputs(hit[0]))
    return r


Case.probe = _case_probe
Case.hard_s = lambda self: min(
    (1 + len(self.reduce_to or self.inputs)) * self.budget_s + 60, 3 * self.budget_s + 60
)
