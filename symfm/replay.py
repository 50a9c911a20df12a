"""Re-run a recorded counterexample against the real code (no symbolic execution)."""

import json
import sys


def main(path):
    from symfm import worker

    d = json.load(open(path))
    case = {c.name: c for c in worker.load_cases(d["property"], d["tier"])}[d["case"]]
    v = case.replay(d["inputs"])
    print("violated:" if v else "not violated", v)
    return 1 if v else 0
