"""Driver: run one property's cases in worker processes; write evidence; report.

Usage: python -m symfm.main <PROPERTY> [quick|thorough]
       python -m symfm.main replay <file>
"""

import json
import os
import queue
import re
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
LIMIT = {"quick": 700.0, "thorough": 5400.0}


class Worker:
    def __init__(self, prop, tier, seed, stop):
        self.args = [sys.executable, "-B", "-m", "symfm.worker", prop, tier, str(seed)]
        self.proc = None
        self.stop = stop

    def start(self):
        self.proc = subprocess.Popen(
            self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            text=True, cwd=VERIF, start_new_session=True,
        )
        return self.read(180)

    def read(self, timeout):
        box = []
        p = self.proc

        def rd():
            box.append(p.stdout.readline())

        t = threading.Thread(target=rd, daemon=True)
        t.start()
        t.join(timeout)
        if t.is_alive() or not box or not box[0]:
            self.kill()
            return None
        return json.loads(box[0])

    def kill(self):
        p, self.proc = self.proc, None
        if p is not None:
            try:
                os.killpg(p.pid, 9)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()

    def run(self, name, timeout):
        if self.stop.is_set():
            return {"case": name, "status": "undecided", "detail": "stopped: violation found"}
        if self.proc is None:
            h = self.start()
            if h is None or "load_error" in h:
                return {"case": name, "status": "error", "detail": str(h)}
        try:
            self.proc.stdin.write(name + "\n")
            self.proc.stdin.flush()
        except (BrokenPipeError, OSError, AttributeError, ValueError):
            self.kill()
            return {"case": name, "status": "undecided", "detail": "worker died"}
        r = self.read(timeout)
        if r is None and not name.startswith("probe:") and not self.stop.is_set():
            p = self.run("probe:" + name, 60)
            if p.get("status") == "violation":
                return p
        if r is None:
            return {"case": name, "status": "undecided", "detail": f"no answer within {timeout:.0f}s"}
        return r


def run_property(prop, tier, seed):
    t0 = time.time()
    stop = threading.Event()
    first = Worker(prop, tier, seed, stop)
    hello = first.start()
    if hello is None or "load_error" in hello:
        print(f"ERROR property={prop}: cannot load harness: {hello}")
        return 2, []
    todo = sorted(hello["cases"], key=lambda c: -c["cost"])
    only = os.environ.get("VERIF_CASE")
    if only:
        todo = [c for c in todo if re.search(only, c["name"])]
    q = queue.Queue()
    for c in todo:
        q.put(c)
    results = []
    lock = threading.Lock()
    deadline = t0 + LIMIT[tier]
    known = known_findings()
    grace = float(os.environ.get("VERIF_GRACE", "60"))  # once a violation is confirmed, the rest has this long
    nproc = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4)

    timer = []

    def halt():
        stop.set()
        for w in ws:
            w.kill()

    def loop(w):
        while True:
            try:
                c = q.get_nowait()
            except queue.Empty:
                break
            left = deadline - time.time()
            if left < 5 or stop.is_set():
                r = {"case": c["name"], "status": "undecided", "detail": "stopped: violation found" if stop.is_set() else "overall time limit"}
            else:
                r = w.run(c["name"], min(c["hard_s"], left))
            with lock:
                results.append(r)
                if r["status"] == "violation" and not any(matches(k, prop, r) for k in known) and not timer:
                    timer.append(threading.Timer(grace, halt))
                    timer[0].start()
                if os.environ.get("VERIF_VERBOSE"):
                    print(f"  {r['status']:14s} {r['case']} {r.get('wall', 0):.1f}s "
                          f"{str(r.get('reduced') or '')[:300]} {str(r.get('detail') or '')[:600]}", flush=True)
        w.kill()

    ws = [first] + [Worker(prop, tier, seed, stop) for _ in range(max(0, min(nproc, len(todo)) - 1))]
    ths = [threading.Thread(target=loop, args=(w,)) for w in ws]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for t in timer:
        t.cancel()
    return None, results


def known_findings():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def matches(k, prop, r):
    return k["property"] == prop and k["case"] == r["case"] and (
        not k.get("goal") or k["goal"] == (r.get("detail") or {}).get("goal")
    )


def main(argv):
    if argv and argv[0] == "replay":
        from symfm import replay

        return replay.main(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        meta = {p["id"]: p for p in (json.loads(x) for x in f if x.strip())}.get(prop, {})
    rc, results = run_property(prop, tier, seed)
    if rc is not None:
        write_evidence(prop, tier, seed, [], [], time.time() - t0, note="harness failed to load")
        return rc
    results.sort(key=lambda r: r["case"])
    known = known_findings()
    viol, knowns = [], []
    for r in results:
        if r["status"] != "violation":
            continue
        hit = [k for k in known if matches(k, prop, r)]
        if hit:
            knowns.append((hit[0], r))
            continue
        safe = re.sub(r"[^A-Za-z0-9_.-]", "_", r["case"])[:80]
        path = os.path.join(EVID, f"replay_{prop}_{safe}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "case": r["case"], "detail": r["detail"],
                       "inputs": r.get("replay")}, f, indent=1)
        viol.append((path, r))
    n = {s: sum(1 for r in results if r["status"] == s) for s in
         ("holds", "holds-reduced", "violation", "undecided", "error")}
    for k, r in knowns:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for path, r in viol:
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  case: {r['case']}  detail: {json.dumps(r['detail'], default=str)[:700]}")
    for r in results:
        if r["status"] in ("undecided", "error"):
            print(f"UNDECIDED property={prop} case={r['case']}: {str(r.get('detail'))[:400]}")
    wall = time.time() - t0
    write_evidence(prop, tier, seed, results, viol, wall, knowns=knowns)
    q = sum(r.get("stats", {}).get("queries", 0) for r in results)
    st = sum(r.get("stats", {}).get("time", 0.0) for r in results)
    print(f"{prop} [{tier}] {meta.get('title', '')}: cases={len(results)} {n} "
          f"solver_queries={q} solver_s={st:.1f} wall_s={wall:.1f}")
    if viol:
        return 1
    if n["holds"] + n["holds-reduced"] + len(knowns) == 0:
        return 2
    return 0


def write_evidence(prop, tier, seed, results, viol, wall, knowns=(), note=None):
    stats = {}
    for r in results:
        for k, v in r.get("stats", {}).items():
            stats[k] = round(stats.get(k, 0) + v, 4)
    fns = sorted({f for r in results for f in r.get("functions", [])})
    prims = {}
    for r in results:
        for k, v in (r.get("prims") or {}).items():
            prims[k] = prims.get(k, 0) + v
    assumptions = [
        "real arithmetic: floats of the traced program are read as exact reals (rounding is outside the bound)",
        "divisors and matrices inverted by the code are non-singular; exact LU/solve stands for jnp.linalg.solve",
        "shapes, expansions and concretised inputs are those listed under cases[].bounds",
    ] + sorted({x for r in results for x in (r.get("notes") or [])})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": "Bounded solver check: the functions listed were traced from /repo's current "
            "source, executed symbolically and every goal element was decided by Z3 for all values of the "
            "symbolic inputs of each case (cases[].bounds); a violation is only reported after the "
            "counterexample was replayed on the real code.",
            "samples": [
                {"case": r["case"], "bounds": r.get("bounds"), "status": r["status"]} for r in results[:5]
            ],
            "functions_encoded": fns,
            "cases_total": len(results),
            "cases_decided": sum(r["status"] in ("holds", "violation") for r in results),
            "cases_decided_reduced_bound": sum(r["status"] == "holds-reduced" for r in results),
            "cases_undecided": sum(r["status"] in ("undecided", "error") for r in results),
            "goal_elements": sum(r.get("elements", 0) for r in results),
            "encoder_validations": sum(r.get("validated", 0) for r in results),
            "queries_discharged": stats.get("queries", 0),
            "queries_unsat": stats.get("unsat", 0),
            "queries_sat": stats.get("sat", 0),
            "queries_unknown": stats.get("unknown", 0),
            "solver_seconds": stats.get("time", 0.0),
            "solver_stats": stats,
            "primitives_executed": prims,
            "cases": [
                {k: r.get(k) for k in ("case", "status", "bounds", "reduced", "wall", "elements",
                                       "trivial", "solver", "paths", "detail", "vacuity", "stats")}
                for r in results
            ],
        },
        "wall_s": round(wall, 2),
        "assumptions": assumptions,
        "violations": len(viol),
    }
    if viol:
        ev["coverage"]["violation_list"] = [
            {"case": r["case"], "replay": path, "detail": r["detail"]} for path, r in viol
        ]
    if knowns:
        ev["coverage"]["known_findings"] = [{"case": r["case"], "what": k["what"]} for k, r in knowns]
    if note:
        ev["coverage"]["note"] = note
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
