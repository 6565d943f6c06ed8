"""Exploration of one case: enumerate paths, discharge obligations, replay counterexamples."""
from __future__ import annotations

import os
import random
import sys
import time
import traceback
from fractions import Fraction

from . import poly as P
from . import sym as S
from .ctx import CASES, StopCase, SymCtx
from .poly import Budget
from .sym import (ANY, FALSE, TRUE, ZER, Atom, Concretize, Control, Engine, F, FAnd, FOr, Infeasible, OutOfTime, Sym,
                  Violated, as_formula, f_and, f_not)


DEBUG = bool(os.environ.get("SKS_DEBUG"))


class Verifier(Engine):
    def __init__(self, replay, **k):
        self.replay = replay
        self.svd_registry = []
        self.svd_flip = None
        self.sort_unique = False
        self.violation = None
        self.notes = []
        self.undecided = []
        self.labels = {}
        self.case_id = None
        self.checking = True
        self.funcs = set()
        super().__init__(**k)

    def _profile(self, frame, event, _arg):
        if event == "call":
            c = frame.f_code
            if "/skspatial/" in c.co_filename and c.co_name[0] != "<":
                self.funcs.add(c.co_filename.rsplit("/skspatial/", 1)[1] + ":" + c.co_qualname)

    # ---- obligations
    def obligation(self, label, f, detail=""):
        st = self.stats
        rec = self.labels.setdefault(label, [0, 0, 0])
        parts = f.fs if isinstance(f, FAnd) else [f]
        for g in parts:
            st.obligations += 1
            rec[0] += 1
            h = self.simplify(g)
            if h is TRUE:
                st.by_normal_form += 1
                rec[1] += 1
                continue
            self._discharge(label, h, rec, detail)

    def _discharge(self, label, h, rec, detail):
        st = self.stats
        neg = self.simplify(f_not(h))
        if neg is FALSE:
            st.by_normal_form += 1
            rec[1] += 1
            return
        tried = []
        # a sample point already on this path may refute the obligation
        for k in self.alive:
            if self.sample_truth(k, neg) is True:
                if self._try(label, self.inputs_from_sample(k), tried):
                    return
                if len(tried) >= 2:
                    break
        fs = [neg] if neg is not TRUE else []
        if fs:
            r, _ = self.query(fs, self.check_ms)
            if r == "unsat":
                st.by_z3 += 1
                rec[2] += 1
                return
        elif self.pc:
            # the check failed outright: is this path feasible at all?
            r, _ = self.query(list(self.pc), self.check_ms)
            if r == "unsat":
                raise Infeasible()
        else:
            r = "sat"
        # candidate models: with margin, nice, plain
        for variant in (self._margin(neg), neg):
            if variant is None:
                continue
            try:
                rr, inp = self.nice_model([variant] if variant is not TRUE else [], self.check_ms)
            except OutOfTime:
                rr = "unknown"
            if rr == "sat":
                if self._try(label, inp, tried):
                    return
        for inp in self._random_candidates(fs):
            if self._try(label, inp, tried):
                return
        # differences below the coarse tolerance: the exact check is refuted, so compare just above rounding
        if r == "sat":
            for inp in list(tried)[:6]:
                if self._try(label, inp, tried, strict=True):
                    return
        if r == "sat":
            # is the path itself feasible?
            rp, _ = self.query([], self.check_ms) if False else ("sat", None)
            st.refuted_unconfirmed += 1
            self.undecided.append((label, "refuted but not reproduced", detail, repr(neg)[:300],
                                   [{k: str(v) for k, v in t.items()} for t in tried[:2]]))
        else:
            st.undecided += 1
            if DEBUG:
                print("UNKNOWN", label, "\n  neg", neg, "\n  pc", *self.pc, sep="\n     ", flush=True)
            self.undecided.append((label, "unknown", detail, repr(neg)[:300], []))

    def _margin(self, neg):
        """A robust version of the negated obligation."""
        if isinstance(neg, Atom):
            p, m = neg.p, neg.mask
            one = P.ONE
            alts = []
            if m & S.POS:
                alts.append(S.atom(p - one, 6))
            if m & S.NEG:
                alts.append(S.atom(p + one, 3))
            return S.f_or(alts) if alts else None
        if isinstance(neg, FOr):
            return S.f_or([x for x in (self._margin(g) for g in neg.fs) if x is not None]) if neg.fs else None
        if isinstance(neg, FAnd):
            out = [self._margin(g) for g in neg.fs]
            return None if any(x is None for x in out) else f_and(out)
        return None

    def _random_candidates(self, fs):
        """Small-integer points satisfying (numerically) the path condition and the negated obligation."""
        names = [(n, v) for n, v in self.inputs.items() if v is not None]
        rng = random.Random(f"{self.seed}/{len(self.trail)}")
        found = 0
        t0 = time.time()
        for _ in range(60):
            if found >= 3 or time.time() - t0 > 1.5:
                return
            env = {}
            for n, v in names:
                box = self.boxes.get(n)
                x = Fraction(rng.randint(-6, 6)) if rng.random() < 0.7 else Fraction(rng.randint(-64, 64), 8)
                if box:
                    if box[0] is not None and x < box[0]:
                        x = Fraction(box[0]) + abs(x)
                    if box[1] is not None and x > box[1]:
                        x = Fraction(box[1])
                env[v] = x
            i = len(self.sample_env)
            self.sample_env.append(env)
            try:
                ok = all(self.sample_truth(i, c) is True for c in self.pc) and all(self.sample_truth(i, c) is True for c in fs)
                inp = self.inputs_from_sample(i) if ok else None
            finally:
                self.sample_env.pop()
            if ok:
                found += 1
                yield inp

    def _try(self, label, inp, tried, strict=False, loose=False):
        if not strict:
            if inp in tried:
                return False
            tried.append(inp)
        res = self.replay(self.case_id, inp, strict=True) if strict else self.replay(self.case_id, inp, loose=loose)
        if strict and res.get("violations"):  # only the refuted check itself is compared that closely
            res["violations"] = [v for v in res["violations"] if v[0] == label]
        if res.get("violations"):
            self.violation = {"case": self.case_id, "inputs": {k: str(v) for k, v in inp.items()},
                              "label": label, "violations": res["violations"], "variant": res.get("variant", "list"),
                              "strict": strict, "loose": loose}
            raise Violated()
        return False

    # ---- driving
    def run_case(self, case, max_seconds, witnesses=4):
        S.set_engine(self)
        self.case_id = case.id
        self.reset_case()
        self.sort_unique = bool(case.opts.get("sort_unique"))
        self.make_samples(case.opts.get("samples", 40))
        self.deadline = time.time() + max_seconds
        stack = [[]]
        ended = 0
        self.reached = 0
        self.wit = []
        incomplete = None
        try:
            while stack:
                if self.stats.paths >= self.max_paths:
                    incomplete = f"path limit {self.max_paths}"
                    break
                if time.time() > self.deadline:
                    incomplete = "time limit"
                    break
                prefix = stack.pop()
                self.start_path(prefix)
                self._fb_set = set()
                self.svd_registry = []
                self.svd_flip = None
                self.stats.paths += 1
                ctx = SymCtx(self)
                status = "end"
                if self.stats.paths <= 8:
                    sys.setprofile(self._profile)
                try:
                    try:
                        case.fn(ctx, **case.params)
                    except StopCase:
                        pass
                    finally:
                        sys.setprofile(None)
                    self.reached += 1
                    ended += 1
                except Infeasible:
                    status = "infeasible"
                except Concretize as e:
                    status = "concretise"
                    self.stats.concretised += 1
                    self._concrete_points(str(e.why))
                except Budget as e:
                    status = "budget"
                    self.stats.budget_paths += 1
                    self.undecided.append(("path", "polynomial budget", str(e), "", []))
                    self._concrete_points("budget")
                except Exception as e:
                    # an exception escaping the case: the code under test raised unexpectedly (or a shim gap)
                    status = "exception"
                    tb = traceback.format_exc(limit=-6)
                    self.obligation("no unexpected exception", FALSE, f"{type(e).__name__}: {e}\n{tb}")
                if status == "end" and sum(w[1] for w in self.wit) < witnesses:
                    self._witness(ctx)
                # schedule the other side of every fork made beyond the prefix
                for i, _ in self.fork_points:
                    if i >= len(prefix):
                        t = list(self.trail[:i])
                        t.append((not self.trail[i][0], False))
                        stack.append(t)
        except Violated:
            pass
        except OutOfTime:
            incomplete = "time limit"
        if incomplete:
            self.undecided.append(("exploration", incomplete, f"{len(stack)} branches left", "", []))
        if self.violation is None:
            self._validate()
        return self.violation

    def _concrete_points(self, why):
        """The path needs a value the solver cannot keep symbolic: run it on concrete models instead."""
        pts = []
        for k in self.alive[:4]:
            pts.append(self.inputs_from_sample(k))
        r, inp = self.nice_model([], min(self.check_ms, 2000))
        if r == "sat":
            pts.append(inp)
        tried = []
        for p in pts:
            self._try(f"concretised path ({why})", p, tried, loose=True)
        self.notes.append(f"concretised: {why}")

    # ---- validation of the encoding against the real implementation
    def _witness(self, ctx):
        if self.alive:
            robust = False
            for k in self.alive[:12]:
                robust = all(self._robust(k, c) for c in self.pc)
                if robust:
                    break
            if not robust:
                k = self.alive[0]
            inp = self.inputs_from_sample(k)
            obs = None
            if ctx.observations:
                obs = []
                for o in ctx.observations:
                    obs.append(self._num(k, o))
            self.wit.append((inp, robust, obs))

    def _robust(self, k, f):
        if isinstance(f, Atom):
            x = self.sample_poly(k, f.p)
            if x is None or x == 0:
                return False
            c = max(abs(float(v)) for v in f.p.d.values())
            return abs(float(x)) > 1e-4 * c
        if isinstance(f, FAnd):
            return all(self._robust(k, g) for g in f.fs)
        if isinstance(f, FOr):
            return any(self.sample_truth(k, g) is True and self._robust(k, g) for g in f.fs)
        return True

    def _num(self, k, x, depth=0):
        import numpy as np

        if hasattr(x, "exc") and hasattr(x, "value") and x.__class__.__name__ == "Out":
            if x.exc is not None:
                return "!" + type(x.exc).__name__
            return self._num(k, x.value)
        if isinstance(x, Sym):
            n = self.sample_poly(k, x.n)
            if n is None:
                return 0.0 if x.n.is_zero() else None
            d = 1.0
            for f, e in x.den:
                fv = self.sample_poly(k, f)
                if fv is None or fv == 0:
                    return None
                d *= float(fv) ** e
            return float(n) / d
        if isinstance(x, F):
            t = self.sample_truth(k, x)
            return t
        if isinstance(x, (bool, np.bool_)):
            return bool(x)
        if isinstance(x, (int, float, np.number)):
            return float(x)
        if isinstance(x, str) or x is None:
            return x
        if isinstance(x, np.ndarray):
            return [self._num(k, e, depth + 1) for e in np.asarray(x).flat]
        if isinstance(x, (list, tuple)):
            return [self._num(k, e, depth + 1) for e in x]
        if x.__class__.__name__ == "LazyRank":
            return float(int(x))
        if depth < 3 and hasattr(x, "__dict__"):
            return {a: self._num(k, v, depth + 1) for a, v in sorted(vars(x).items())
                    if not callable(v) and not a.startswith("_")}
        return None

    def _validate(self):
        self.traces = 0
        self.mismatches = []
        for inp, robust, obs in self.wit:
            if not robust:
                continue
            res = self.replay(self.case_id, inp, variants=True, loose=True)
            if res.get("skip"):
                continue
            if res.get("violations"):
                self.violation = {"case": self.case_id, "inputs": {k: str(v) for k, v in inp.items()},
                                  "label": "path witness", "violations": res["violations"], "loose": True,
                                  "variant": res.get("variant", "list")}
                return
            self.traces += 1
            if obs is not None and not case_opt(self.case_id, "noobs"):
                d = compare(obs, res.get("obs"))
                if d:
                    self.mismatches.append((d, {k: str(v) for k, v in inp.items()}))


def case_opt(cid, name):
    return CASES[cid].opts.get(name)


def compare(a, b, path=""):
    """None when the symbolic observation (evaluated numerically) agrees with the real one."""
    if a is None or b is None:
        return None
    if isinstance(a, bool) or isinstance(b, bool):
        return None if bool(a) == bool(b) else f"{path}: {a} vs {b}"
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a and b != b:
            return None
        return None if a == b or abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b)) else f"{path}: {a} vs {b}"
    if isinstance(a, str) or isinstance(b, str):
        return None if a == b else f"{path}: {a} vs {b}"
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = compare(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a.keys() & b.keys():
            d = compare(a[k], b[k], f"{path}.{k}")
            if d:
                return d
    return None
