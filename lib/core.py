"""Obligations, verdicts, evidence and exit codes shared by every check."""
import json
import os
import sys
import time
import traceback

import z3

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


class Check:
    def __init__(self, pid, tier="quick", level="other"):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.obl = []           # dicts: name, status, how, seconds
        self.violations = []    # (name, replay)
        self.known_hit = []
        self.undecided = []
        self.functions = {}
        self.bounds = []
        self.assumptions = []
        self.stubs = set()
        self.solver_s = 0.0
        self.queries = 0
        self.verdicts = {}
        self.replays = []
        self.extra = {}
        self.part = ""
        self.samples = []
        self.budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "6000"))
        try:
            self.known = [k for k in json.load(open(KNOWN)) if k["property"] == pid]
        except FileNotFoundError:
            self.known = []

    def left(self):
        return self.budget - (time.time() - self.t0)

    # ---------------------------------------------------------------- solver
    def solve(self, constraints, timeout=20000, tactic=None, want_model=False):
        """one solver query; returns 'unsat' | 'sat' | 'unknown' (and the model)"""
        s = z3.Tactic(tactic).solver() if tactic else z3.Solver()
        s.set("timeout", int(max(100, min(timeout, max(1.0, self.left()) * 1000))))
        for c in constraints:
            s.add(c)
        t = time.time()
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = "unknown"
        dt = time.time() - t
        self.solver_s += dt
        self.queries += 1
        self.verdicts[r] = self.verdicts.get(r, 0) + 1
        if want_model:
            return r, (s.model() if r == "sat" else None)
        return r

    # -------------------------------------------------------------- verdicts
    def ok(self, name, how="unsat", seconds=0.0):
        self.obl.append({"name": name, "status": "holds", "how": how})

    def undecide(self, name, why):
        self.obl.append({"name": name, "status": "undecided", "how": str(why)[:300]})
        self.undecided.append((name, str(why)[:300]))
        print("UNDECIDED property=%s %s: %s" % (self.pid, name, str(why)[:300]), flush=True)

    def violated(self, name, detail, replay=None, key=None):
        """a violation confirmed on the real code; replay = text of the counterexample"""
        for k in self.known:
            if k.get("status") == "known" and k.get("key") == (key or name):
                self.obl.append({"name": name, "status": "known-finding", "how": detail[:300]})
                self.known_hit.append(k)
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s%d.txt" % (self.pid, self.part, len(self.violations) + 1))
        with open(path, "w") as f:
            f.write("property %s, obligation %s\n%s\n\n%s\n" % (self.pid, name, detail, replay or ""))
        self.obl.append({"name": name, "status": "violated", "how": detail[:300]})
        self.violations.append((name, path))
        print("%s: %s" % (name, detail[:600]), flush=True)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def use(self, ex):
        for k, v in getattr(ex, "used", {}).items():
            self.functions[k] = self.functions.get(k, 0) + v

    # ------------------------------------------------------------- evidence
    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        n = len(self.obl)
        st = {}
        for o in self.obl:
            st[o["status"]] = st.get(o["status"], 0) + 1
        cov = {
            "explanation": "solver-based checking: the listed functions were translated from the current source on this run and "
                           "executed symbolically; each obligation is one assertion over all values within the bounds",
            "obligations": n, "by_status": st,
            "functions_encoded": sorted(self.functions), "bounds": self.bounds,
            "queries": self.queries, "query_verdicts": self.verdicts, "solver_s": round(self.solver_s, 3),
            "stubs": sorted(self.stubs), "counterexamples_replayed": len(self.replays),
            "samples": (self.samples or self.obl[:5])[:8],
            "undecided": [u[0] for u in self.undecided],
        }
        cov.update(self.extra)
        if self.level == "model_checking":
            cov.setdefault("states", 0)
            cov.setdefault("transitions", 0)
            cov.setdefault("traces_validated_against_impl", len(self.replays))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations %s, %d queries, solver %.1f s, wall %.1f s" % (
            self.pid, n, st, self.queries, self.solver_s, time.time() - self.t0), flush=True)
        return 1 if self.violations else 0


def guarded(chk, name, f, *a, **kw):
    """run one obligation; anything the encoder cannot handle makes it undecided, never an alarm"""
    try:
        return f(*a, **kw)
    except Exception as e:      # noqa
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        chk.undecide(name, "%s: %s" % (type(e).__name__, e))
        return None


FIELDS = ("obl", "violations", "known_hit", "undecided", "bounds", "assumptions", "replays", "samples")


def parallel(chk, jobs, workers=8):
    """run jobs = [(name, function, args)] in forked processes sharing this check's bookkeeping"""
    import pickle
    import select
    import repo
    repo.scratch()
    todo = list(enumerate(jobs))
    live = {}
    res = {}

    def start(i, job):
        name, f, args = job
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid:
            os.close(w)
            live[r] = (i, pid, b"", name)
            return
        code = 0
        try:
            os.close(r)
            repo.child()
            for k in FIELDS:
                setattr(chk, k, [])
            chk.part = "%s%d." % (chk.part, i)
            chk.functions, chk.verdicts, chk.extra, chk.stubs = {}, {}, {}, set()
            chk.queries, chk.solver_s = 0, 0.0
            guarded(chk, name, f, chk, *args)
            out = {k: getattr(chk, k) for k in FIELDS + ("functions", "verdicts", "extra", "stubs", "queries", "solver_s")}
            data = pickle.dumps(out)
            with os.fdopen(w, "wb") as fo:
                fo.write(data)
        except BaseException:       # noqa
            traceback.print_exc()
            code = 3
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            repo.child_done()
            os._exit(code)

    while todo or live:
        while todo and len(live) < workers:
            start(*todo.pop(0))
        rs, _, _ = select.select(list(live), [], [], max(1.0, chk.left()))
        if not rs and chk.left() < 0:
            for r, (i, pid, buf, name) in list(live.items()):
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                os.close(r)
                chk.undecide(name, "time budget")
            for i, j in todo:
                chk.undecide(j[0], "time budget")
            break
        for r in rs:
            i, pid, buf, name = live[r]
            d = os.read(r, 1 << 20)
            if d:
                live[r] = (i, pid, buf + d, name)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            try:
                res[i] = pickle.loads(buf)
            except Exception:
                chk.undecide(name, "worker died")
    for i in sorted(res):
        o = res[i]
        for k in FIELDS:
            getattr(chk, k).extend(x for x in o[k] if k not in ("bounds", "assumptions") or x not in getattr(chk, k))
        for k, v in o["functions"].items():
            chk.functions[k] = chk.functions.get(k, 0) + v
        for k, v in o["verdicts"].items():
            chk.verdicts[k] = chk.verdicts.get(k, 0) + v
        for k, v in o["extra"].items():
            chk.extra[k] = v + chk.extra[k] if isinstance(v, (int, float)) and k in chk.extra else v
        chk.stubs |= o["stubs"]
        chk.queries += o["queries"]
        chk.solver_s += o["solver_s"]
