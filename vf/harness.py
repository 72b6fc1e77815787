"""Obligation bookkeeping, verdicts, evidence and reporting shared by all checks."""
import fnmatch
import json
import pickle
import select
import signal
import os
import sys
import time
import traceback
import warnings

from .engine import nf, nfeval
from .engine.nf import Arr, TopError, Expr
from .engine.interp import Interp, TopV, AV, Ref, Tup, is_num, num, AnalysisError, Crash

warnings.filterwarnings("ignore", category=DeprecationWarning)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")

# values given to symbolic sizes when two normal forms are told apart; trial t picks the t-th entry
SIZES = {
    "nao": (3, 3, 4, 3), "na": (2, 1, 2, 2), "nb": (1, 2, 2, 1), "nw": (2, 2, 1, 3), "nchol": (2, 3, 2, 2),
    "nm": (2, 3, 2, 1), "nf": (2, 3, 3, 2),
}
INTS = {}


def sizes_for(t):
    return {k: v[t % len(v)] for k, v in SIZES.items()}


class Check:
    def __init__(self, prop, tier="quick", seed=1):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.obs = []
        self.functions = set()
        self.t0 = time.time()
        self.anchors = {}
        self.assumptions = []
        self.rules = []
        self.extra = {}
        self.technique = ""
        self.level = "other"
        self.limit = int(os.environ.get("VF_LIMIT", "1000"))
        self.known = load_known(prop)
        self.jobs = int(os.environ.get("VF_JOBS", "0")) or min(8, os.cpu_count() or 1)
        self.running = {}
        self.step_limit = 400.0 if tier == "quick" else 800.0

    # ---------------------------------------------------------------- engine
    def interp(self, flags=None, overrides=None, root=None):
        it = Interp(root or REPO, flags=flags, specroot=os.path.join(VERIF, "spec"), overrides=overrides)
        self.cur = it
        return it

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    # ---------------------------------------------------------------- verdicts
    def put(self, name, status, how="", detail="", site=""):
        self.obs.append({"name": name, "status": status, "how": how, "detail": detail, "site": site})
        if os.environ.get("VF_VERBOSE"):
            print("  [%s] %s %s %s" % (status, name, how, detail[:600]))

    def held(self, name, how="", site=""):
        self.put(name, "held", how, "", site)

    def violated(self, name, detail, site=""):
        self.put(name, "violated", "", detail, site)

    def undecided(self, name, why, site=""):
        self.put(name, "undecided", "", why, site)

    def anchor(self, name, n):
        self.anchors[name] = self.anchors.get(name, 0) + n

    def guarded(self, name, fn, site=""):
        """run one analysis step in a process of its own; anything outside the analysable fragment is undecided, never an alarm"""
        if self.jobs <= 1:
            return self.run_step(name, fn, site)
        while len(self.running) >= self.jobs:
            self.reap()
        slot = len(self.obs)
        self.obs.append(None)
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                self.jobs, self.running = 1, {}
                self.obs, self.functions, self.extra = [], set(), {}
                self.run_step(name, fn, site)
                sys.stdout.flush()
                blob = pickle.dumps((self.obs, self.functions, self.rules, self.assumptions, self.extra))
                with os.fdopen(w, "wb") as f:
                    f.write(blob)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        self.running[r] = [pid, slot, name, site, time.time(), []]

    def reap(self):
        """collect results until at least one running step has ended"""
        done = False
        while self.running and not done:
            ready, _, _ = select.select(list(self.running), [], [], 5)
            now = time.time()
            for r in list(self.running):
                pid, slot, name, site, t, buf = self.running[r]
                if r in ready:
                    b = os.read(r, 1 << 20)
                    if b:
                        buf.append(b)
                        continue
                elif now - t < self.step_limit:
                    continue
                else:
                    os.kill(pid, signal.SIGKILL)
                    buf.clear()
                os.close(r)
                os.waitpid(pid, 0)
                del self.running[r]
                done = True
                if buf:
                    obs, fns, rules, assume, extra = pickle.loads(b"".join(buf))
                    self.functions |= fns
                    for x in rules:
                        self.rule(x)
                    for x in assume:
                        self.assume(x)
                    self.extra.update(extra)
                else:
                    obs = [{"name": name, "status": "undecided", "how": "", "site": site, "detail":
                            "no result (after %.0f s, limit %.0f s)" % (now - t, self.step_limit)}]
                self.obs[slot] = obs

    def drain(self):
        while self.running:
            self.reap()
        flat = []
        for o in self.obs:
            flat.extend(o if isinstance(o, list) else [o])
        self.obs = flat

    def run_step(self, name, fn, site):
        try:
            fn()
        except (TopError, AnalysisError, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError,
                AssertionError, NotImplementedError, ZeroDivisionError, MemoryError) as e:
            if os.environ.get("VF_VERBOSE"):
                traceback.print_exc()
            self.undecided(name, "%s: %s" % (type(e).__name__, str(e)[:300]), site)
        except Crash as e:
            self.violated(name, "the analysed code always fails here: %s" % str(e)[:400], site)
        it = getattr(self, "cur", None)
        if it is not None:
            self.functions |= set("%s:%s" % f for f in it.inlined)

    def as_arr(self, it, v):
        if isinstance(v, (Arr, TopV)):
            return v
        if isinstance(v, Expr):
            return Arr((), v)
        if v is None:
            return TopV("value is None")
        return it.arr(v)

    def equal(self, name, it, lhs, rhs, site="", ints=None, sizes=None, what="", wrong=None):
        """lhs (code) must denote the same function of the atoms as rhs (reference)"""
        a, b = self.as_arr(it, lhs), self.as_arr(it, rhs)
        for v in (a, b):
            if isinstance(v, TopV):
                self.undecided(name, "outside the analysed fragment: %s; %s" % (v.why, "; ".join(it.tops[-3:])), site)
                return False
        if a.key == b.key:
            self.held(name, "identical normal forms", site)
            return True
        if a.ndim != b.ndim:
            self.violated(name, "%s: rank %d instead of %d" % (what or "value", a.ndim, b.ndim), site)
            return False
        szf = (lambda t: dict(sizes_for(t), **(sizes or {}))) if not callable(sizes) else sizes
        r = nfeval.differ(a, b, seed=self.seed, sizes=szf, ints=dict(INTS, **(ints or {})))
        if r[0] == "same":
            self.held(name, "normal forms agree under random interpretation", site)
            return True
        if r[0] == "unknown":
            self.undecided(name, "normal forms differ but could not be told apart: " + r[1], site)
            return False
        self.violated(name, "%s computed by the code differs from the specified value; %s; code: %s; spec: %s" % (
            what or "the value", r[1], clip(a.key), clip(b.key)), site)
        if wrong is not None:
            # a recorded finding is tied to the value the code is known to produce; any other value is a new violation
            w = self.as_arr(it, wrong)
            same = not isinstance(w, TopV) and (a.key == w.key or nfeval.differ(
                a, w, seed=self.seed, sizes=szf, ints=dict(INTS, **(ints or {})))[0] == "same")
            self.obs[-1]["as_recorded"] = same
        return False

    def equal_fn(self, name, it, lhs, ref, dims, site="", what=""):
        """lhs (code) must take, at every assignment of the atoms, the values of a reference computed from the same
        assignment: ref(ev, trial, index)"""
        a = self.as_arr(it, lhs)
        if isinstance(a, TopV):
            return self.undecided(name, "outside the analysed fragment: %s; %s" % (a.why, "; ".join(it.tops[-3:])), site)
        bad = []
        trials = 2 if self.tier == "quick" else 5
        for t in range(trials):
            ev = nfeval.Ev((self.seed, t))
            ev.budget = 10 ** 9
            try:
                d, v = ev.arr(a)
            except (nfeval.EvalError, ZeroDivisionError, OverflowError, RecursionError, KeyError) as e:
                return self.undecided(name, "value not computable: %s: %s" % (type(e).__name__, e), site)
            if list(d) != list(dims):
                return self.violated(name, "shape %s instead of %s" % (list(d), list(dims)), site)
            if t == 0:
                ks = sorted(v)
                sample = [v[k].real for k in ks[::max(1, len(ks) // 8)]]
            want = {k: complex(ref(ev, t, k)) for k in v}
            scale = max([1e-8] + [abs(x) for x in v.values()] + [abs(x) for x in want.values()])
            k = next((k for k in v if abs(v[k] - want[k]) > 1e-6 * scale), None)
            if k is None:
                if not bad and t + 1 >= trials:
                    return self.held(name, "values agree with the reference at %d random assignments" % trials, site)
                continue
            bad.append("at %s: %s versus %s" % (k, nfeval.fmt(v[k]), nfeval.fmt(want[k])))
            if len(bad) == 2:
                self.violated(name, "%s computed by the code differs from the specified value; %s; code: %s" % (
                    what or "the value", bad[0], clip(a.key)), site)
                self.obs[-1]["sample"] = sample
                return None
        self.undecided(name, "told apart only once: " + bad[0], site)

    def nonneg(self, name, it, a, site=""):
        """every entry is real and >= 0: by the sign rules of the normal form, else by random interpretation"""
        if isinstance(a, TopV):
            self.undecided(name, "outside the analysed fragment: %s" % a.why, site)
            return
        if nf.ge0(a.body, {}) and a.body.is_real():
            self.held(name, "sign rules", site)
            return
        r = nfeval.negative(a, seed=self.seed, sizes=sizes_for)
        if r[0] == "no":
            self.held(name, "no negative value under random interpretation", site)
        elif r[0] == "yes":
            self.violated(name, "the value can be negative or complex: %s; code: %s" % (r[1], clip(a.key)), site)
        else:
            self.undecided(name, r[1], site)

    # ---------------------------------------------------------------- report
    def finish(self):
        self.drain()
        viol = [o for o in self.obs if o["status"] == "violated"]
        known, new = [], []
        for o in viol:
            if os.environ.get("VF_SAMPLE") and "sample" in o:
                print("SAMPLE", json.dumps([o["name"], ["%.8g" % x for x in o["sample"]]]))
            k = next((k for k in self.known if fnmatch.fnmatchcase(o["name"], k["match"]) and o.get("as_recorded", True)
                      and recorded(k, o)), None)
            (known if k else new).append(o)
            if k:
                o["status"] = "known"
        und = [o for o in self.obs if o["status"] == "undecided"]
        heldn = sum(o["status"] == "held" for o in self.obs)
        wall = time.time() - self.t0
        self.rule("per obligation: the value the code computes, as a normal form over free inputs, equals the value of the reference "
                  "formula for the same inputs (identical normal forms, or equal at random assignments of all inputs); a violation "
                  "needs two assignments that tell them apart, or a definite crash on the analysed path; what cannot be modelled is undecided")
        self.assume("exact arithmetic: rounding, overflow and convergence are outside the analysis")
        self.assume("calls into numpy, scipy, pyscf and MPI are modelled by their documented meaning")
        missing = [a for a, n in self.anchors.items() if n == 0]
        cov = {
            "explanation": "static analysis of /repo's current source; nothing of the repository is executed",
            "rules": self.rules,
            "obligations": len(self.obs),
            "held": heldn,
            "undecided": len(und),
            "violated": len(new),
            "known_findings": len(known),
            "functions_analysed": sorted(self.functions),
            "n_functions": len(self.functions),
            "anchors": self.anchors,
            "obligation_list": [{k: v for k, v in o.items() if v} for o in self.obs],
        }
        cov.update(self.extra)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 3),
            "violations": [clip(o["name"] + ": " + o["detail"], 1500) for o in new],
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        print("%s: %d obligations, %d held, %d undecided, %d violated, %d known; %d functions; %.1fs" % (
            self.prop, len(self.obs), heldn, len(und), len(new), len(known), len(self.functions), wall))
        for o in und:
            print("UNDECIDED %s: %s" % (o["name"], clip(o["detail"], 400)))
        for o in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, o["name"]))
        for i, o in enumerate(new):
            rd = os.path.join(d, "replay")
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, "%s-%d.json" % (self.prop, i))
            with open(p, "w") as f:
                json.dump({"property": self.prop, "obligation": o["name"], "site": o["site"], "detail": o["detail"],
                           "rules": self.rules,
                           "rerun": "cd /verif && python3 vf/run.py %s" % self.prop}, f, indent=1)
            if i < 6:
                print("FINDING %s [%s] %s" % (o["name"], o["site"], clip(o["detail"], 400)))
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
        if new:
            return 1
        if self.obs and heldn == 0 and not known:
            print("ERROR: nothing could be analysed (anchors missing: %s)" % missing)
            return 2
        if not self.obs:
            print("ERROR: no obligations")
            return 2
        return 0


def clip(s, n=700):
    s = str(s)
    return s if len(s) <= n else s[:n] + "..."


def recorded(k, o):
    """a finding recorded with values covers only a construct that still computes those values"""
    if "values" not in k:
        return True
    want = k["values"].get(o["name"])
    if want is None or "sample" not in o or len(want) != len(o["sample"]):
        return False
    want = [float(x) for x in want]
    scale = max(1e-8, max(abs(x) for x in want))
    return all(abs(x - y) < 1e-4 * scale for x, y in zip(want, o["sample"]))


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("kind") == "known":
                    out.append(d)
    return out
