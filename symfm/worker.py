"""Worker process: decides cases named on stdin, one JSON result per line on stdout."""

import importlib
import json
import os
import sys


def load_cases(prop, tier):
    mod = importlib.import_module(f"symfm.props.{prop}")
    cases = mod.cases(tier)
    names = [c.name for c in cases]
    assert len(names) == len(set(names)), "duplicate case names"
    if tier == "thorough":  # deeper: five times the budget of each case, three times that of each query
        for c in cases:
            c.budget_s, c.timeout_ms = 5 * c.budget_s, 3 * c.timeout_ms
    return cases


def main():
    try:  # end with the parent
        import ctypes

        ctypes.CDLL("libc.so.6", use_errno=True).prctl(1, 9)
    except OSError:
        pass
    prop, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # anything printed by the code under test goes to stderr
    try:
        cases = load_cases(prop, tier)
    except Exception as e:  # noqa: BLE001
        import traceback

        out.write(json.dumps({"load_error": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"}) + "\n")
        out.flush()
        return
    out.write(
        json.dumps(
            {"cases": [{"name": c.name, "hard_s": c.hard_s(), "cost": getattr(c, "cost", 1.0)} for c in cases]}
        )
        + "\n"
    )
    out.flush()
    by = {c.name: c for c in cases}
    from symfm import smt

    for line in sys.stdin:
        name = line.strip()
        if not name:
            break
        smt.STATS.__init__()
        if name.startswith("probe:"):
            # the symbolic run of this case was killed: only look for a concrete failure
            c = by[name[6:]]
            r = c.probe(seed)
            out.write(json.dumps(r, default=str) + "\n")
            out.flush()
            continue
        r = by[name].run(seed)
        d = r.as_dict()
        d["stats"] = smt.STATS.as_dict()
        out.write(json.dumps(d, default=str) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
