"""Replay server: runs cases on the real, unmodified package with real numpy.

Protocol: one JSON object per line on stdin ({"case","inputs","variants"}), one JSON answer per line.
"""
from __future__ import annotations

import json
import math
import os
import sys
import warnings
from fractions import Fraction

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if sys.path and os.path.basename(sys.path[0]) == "symex":
    sys.path.pop(0)
sys.path.insert(0, HERE)


def obs_value(x, depth=0):
    import numpy as np

    if x.__class__.__name__ == "Out" and hasattr(x, "exc"):
        if x.exc is not None:
            return "!" + type(x.exc).__name__
        return obs_value(x.value)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, Fraction, np.number)):
        return float(x)
    if isinstance(x, str) or x is None:
        return x
    if isinstance(x, np.ndarray):
        return [obs_value(e, depth + 1) for e in np.asarray(x).flat]
    if isinstance(x, (list, tuple)):
        return [obs_value(e, depth + 1) for e in x]
    if depth < 3 and hasattr(x, "__dict__"):
        return {a: obs_value(v, depth + 1) for a, v in sorted(vars(x).items())
                if not callable(v) and not a.startswith("_")}
    return None


def run(case, inputs, variant, strict=False, loose=False):
    from symex.ctx import ConcCtx, Skip, StopCase

    ctx = ConcCtx({k: Fraction(v) for k, v in inputs.items()}, variant)
    ctx.set_strict(strict)
    ctx.loose = loose
    res = {"variant": variant}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                case.fn(ctx, **case.params)
            except StopCase:
                pass
    except Skip as e:
        res["skip"] = str(e)
    except Exception as e:
        import traceback

        ctx.violations.append(("no unexpected exception", f"{type(e).__name__}: {e} | " + traceback.format_exc(limit=-3)))
    # a violation recorded before the inputs left the assumed domain does not count
    res["violations"] = [] if "skip" in res else [[str(a), str(b)] for a, b in ctx.violations]
    res["checks"] = ctx.checks
    res["obs"] = [obs_value(o) for o in ctx.observations]
    return res


def answer(req):
    from symex.ctx import CASES

    case = CASES[req["case"]]
    order = [req["variant"]] if req.get("variant") else ["list"]
    if req.get("variants"):
        order = ["list", "ndarray", "tuple"]
        if all(Fraction(v).denominator == 1 and abs(Fraction(v)) < 2**53 for v in req["inputs"].values()):
            order.append("int")
    first = None
    for v in order:
        r = run(case, req["inputs"], v, bool(req.get("strict")), bool(req.get("loose")))
        if first is None:
            first = r
        if r["violations"]:
            return r
    return first


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    from symex import loader

    loader.load_concrete()
    import cases  # noqa: F401

    cases.load_all()
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    for line in sys.stdin:
        try:
            r = answer(json.loads(line))
        except Exception as e:  # pragma: no cover - reported to the caller
            import traceback

            r = {"error": traceback.format_exc()}

        def clean(x):
            if isinstance(x, float) and not math.isfinite(x):
                return None
            if isinstance(x, list):
                return [clean(e) for e in x]
            if isinstance(x, dict):
                return {k: clean(v) for k, v in x.items()}
            return x

        out.write(json.dumps(clean(r)) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
