"""Y01-Y08: the Python layer (coffe.pyx, representation.py, __main__.py)."""
import json
import os

import z3

import pymodel as pm
import pysym as P
import repo
from core import parallel

PRODS = list(pm.PRODUCTS)
SHORT = {"_background": "background", "_integral": "integrals", "_corrfunc": "correlation function", "_multipoles": "multipoles",
         "_average_multipoles": "redshift-averaged multipoles", "_covariance_multipoles": "covariance",
         "_average_covariance_multipoles": "redshift-averaged covariance", "_power": "power spectrum"}


class Layer:
    """everything regenerated from the current tree, shared by the obligations of one check"""

    def __init__(self, chk, deflt=True):
        self.lay = repo.Layout()
        self.M = repo.module()
        self.cf = pm.CFun(self.lay)
        self.reach = pm.closures(self.M, self.lay, self.cf)
        self.vals = pm.default_values(self.lay) if deflt else {}
        self.W = P.World(self.lay, self.cf)
        self.proto = self.cf

    def cfun(self):
        cf = pm.CFun(self.lay)
        for k in ("direct", "closure", "noclass", "bgreads"):
            setattr(cf, k, getattr(self.proto, k))
        cf.defaults = pm.put_defaults(self.vals, cf)
        self.W.cfun = cf
        return cf

    def members(self):
        """names of settable properties, setters, queries of the current class"""
        p = P.Path([])
        P.CUR = p
        try:
            self.cfun()
            C = self.W.load()["Coffe"]
        finally:
            P.CUR = None
        props, meths = [], []
        for n in dir(C):
            v = getattr(C, n)
            if isinstance(v, property):
                props.append((n, v.fset is not None))
            elif callable(v) and not n.startswith("_"):
                meths.append(n)
        return props, meths

    def state(self, p, lists=None, nlist=2, sizes=(0, 2)):
        """an object in an arbitrary state: every setting arbitrary, any subset of the products computed from them"""
        cf = self.cfun()
        g = self.W.load()
        obj = g["Coffe"]()
        par = obj._parameters
        ln = pm.lens(par)
        ls = {k: nlist for k in ln}
        ls.update(lists or {})
        pm.arbitrary(p, par, cf, ls)
        flag = z3.Int("power_spectrum_flag")
        p.add(z3.Or(flag == 0, flag == 1))
        object.__setattr__(obj, "_power_spectrum_flag", P.SymNum(flag, "int"))
        par.__dict__["_origin_user"] = z3.Bool("power_spectrum_supplied")
        s = pm.settings(par)
        for a in PRODS:
            st = getattr(obj, a)
            v = z3.Int("valid" + a)
            if pm.PRODUCTS[a] == "flag":
                p.add(z3.Or(v == 0, v == 1))
                st._f["flag"] = P.SymNum(v, "int")
                for n, k in st._k.items():
                    if k == "interp":
                        st._f[n].spline = P.Spline("old_" + n, size=10)
            else:
                p.add(z3.Or(*[v == n for n in sizes]))
                st._f["size"] = P.SymNum(v, "size_t" if False else "int")
                st._f["array"] = cf.mkarray(a, max(sizes), "old")
            if cf.closure[a] & {"power_spectrum", "power_spectrum_norm"}:
                p.add(z3.Implies(v != 0, flag != 0))
            cf.snap[id(obj), a] = {k: [x] for k, x in s.items() if k in cf.closure[a]}
        p.add(par.h.t > 0)
        p.add(aux(cf, obj))
        cf.snap[id(obj), "_power"] = {k: [x] for k, x in s.items() if k in cf.closure["_power"]}
        cf.pre = s
        return g, cf, obj


def aux(cf, obj):
    """invariant needed for the induction: outputs of contributions that need the divergent integral were computed with it"""
    c = obj._parameters.correlation_contrib
    need = z3.Or(*[P.term(getattr(c, n)) != 0 for n in ("d2", "g1", "g2", "g3", "g4", "g5")])
    done = z3.Or(*[P.term(cf.valid(obj, a)) != 0 for a in ("_corrfunc", "_multipoles", "_average_multipoles")])
    return z3.Implies(z3.And(done, need), P.term(obj._parameters.divergent) != 0)


def symbolic_inputs(name):
    """argument shapes tried for a property assignment: (label, builder(path))"""
    def num(p):
        return P.SymNum(z3.Real("v"), "float")

    def integer(p):
        return P.SymNum(z3.Int("v"), "int")

    def boolean(p):
        return P.SymBool(z3.Bool("v"))

    def reals(n):
        return lambda p: [P.SymNum(z3.Real("v%d" % i), "float") for i in range(n)]

    def ints(n):
        return lambda p: [P.SymNum(z3.Int("v%d" % i), "int") for i in range(n)]

    def text(s):
        return lambda p: s
    out = [("float", num), ("int", integer), ("bool", boolean)]
    for n in (0, 1, 2):
        out.append(("%d floats" % n, reals(n)))
    for n in (1, 2, 4):
        out.append(("%d ints" % n, ints(n)))
    for s in ("linear", "linear_class", "halofit", "hmcode", "gsl", "exponential", "standard", "fftlog", "bilinear", "bicubic", "no such value"):
        out.append((repr(s), text(s)))
    return out


def spline_inputs():
    def f(n, m):
        def mk(p):
            xs = [P.SymNum(z3.Real("x%d" % i), "float") for i in range(n)]
            return xs, [P.SymNum(z3.Real("y%d" % i), "float") for i in range(m)]
        return mk
    return [("%d+%d points" % (n, m), f(n, m)) for n, m in ((5, 5), (6, 6), (5, 4))]


def operations(layer):
    """(name, label, run(obj, path)) for every way to change a setting"""
    props, meths = layer.members()
    out = []
    for n, w in props:
        if not w:
            continue
        for lab, mk in symbolic_inputs(n):
            out.append((n, lab, lambda obj, p, n=n, mk=mk: setattr(obj, n, mk(p))))
    for n in meths:
        if n.startswith("set_") and n != "set_parameters":
            for lab, mk in spline_inputs():
                out.append((n, lab, lambda obj, p, n=n, mk=mk: getattr(obj, n)(*mk(p))))
    return out


def queries(layer):
    """(name, label, run) for every public computation"""
    props, meths = layer.members()

    def R(n):
        return P.SymNum(z3.Real(n), "float")

    def I(n):
        return P.SymNum(z3.Int(n), "int")
    args = {
        "compute_corrfunc": lambda: dict(z=R("qz"), r=R("qr"), mu=R("qmu")),
        "compute_multipole": lambda: dict(z=R("qz"), r=R("qr"), l=I("ql")),
        "integral": lambda: dict(r=R("qr"), n=2, l=2),
        "power_spectrum": lambda: dict(k=R("qk"), z=R("qz")),
        "cross_spectrum": lambda: dict(k=R("qk"), z1=R("qz"), z2=R("qz2")),
        "maximum_separation": lambda: dict(z_mean=R("qz"), deltaz=R("qdz")),
    }
    out = []
    for n in meths:
        if n.startswith("compute_") and n not in args:
            out.append((n, "", lambda obj, p, n=n: getattr(obj, n)()))
        elif n in args:
            out.append((n, "", lambda obj, p, n=n: getattr(obj, n)(**args[n]())))
        elif n in ("comoving_distance", "hubble_rate", "scale_factor", "hubble_rate_conformal", "hubble_rate_conformal_derivative",
                   "growth_factor", "growth_rate"):
            out.append((n, "", lambda obj, p, n=n: getattr(obj, n)(R("qz"))))
    out.append(("reset_contributions", "", lambda obj, p: obj.reset_contributions()))
    out.append(("parameters", "", lambda obj, p: obj.parameters))
    return out


# ------------------------------------------------------------------- replay
DRIVER = r'''
import json, sys, os
import numpy as np
import coffe
from coffe import Coffe
Z = list(np.linspace(0, 15, 40))
def power(c, amp=1.0):
    k = np.logspace(-4, 1.0, 300); q = k / 0.02
    c.set_power_spectrum_linear(list(k), list(amp * 1e4 * q / (1 + q**3) / (1 + q)))
def base(v):
    c = Coffe()
    c.background_sampling = 600
    c.set_parameters(integration_sampling=400, sep=[20.0, 60.0], mu=[0.2], l=[0, 2], z_mean=[1.0], deltaz=[0.2], z_min=[0.9], z_max=[1.1],
        number_density1=[1e-3], number_density2=[2e-3], pixelsize=[20.0], fsky=[0.3], m_ncdm=0.06)
    for j in (1, 2, 3, 4):
        getattr(c, "set_galaxy_bias%d" % j)(Z, [1 + 0.2 * j + 0.3 * z for z in Z])
    for j in (1, 2):
        getattr(c, "set_magnification_bias%d" % j)(Z, [0.13 * j + 0.21 * z for z in Z])
        getattr(c, "set_evolution_bias%d" % j)(Z, [0.3 * j + 0.1 * z for z in Z])
    for n in v.get("on", ()):
        setattr(c, n, True)
    for n, x in v.get("set", {}).items():
        setattr(c, n, x)
    if v.get("user"):
        power(c)
    return c
OUT = {
 "corrfunc": lambda c: [[x.z, x.r, x.mu, x.value] for x in c.compute_corrfunc_bulk()],
 "multipoles": lambda c: [[x.z, x.r, x.l, x.value] for x in c.compute_multipoles_bulk()],
 "average_multipoles": lambda c: [[x.z_min, x.z_max, x.r, x.l, x.value] for x in c.compute_average_multipoles_bulk()],
 "covariance": lambda c: [[x.z, x.r1, x.r2, x.l1, x.l2, x.value] for x in c.compute_covariance_bulk()],
 "average_covariance": lambda c: [[x.z_min, x.z_max, x.r1, x.r2, x.l1, x.l2, x.value] for x in c.compute_average_covariance_bulk()],
 "background": lambda c: [[f(z) for z in (0.1, 1.0, 3.0)] for f in (c.comoving_distance, c.hubble_rate, c.scale_factor, c.hubble_rate_conformal,
     c.hubble_rate_conformal_derivative, c.growth_factor, c.growth_rate)],
 "integral": lambda c: [c.integral(r=r, n=n, l=l) for r in (10.0, 80.0) for n, l in ((0, 0), (0, 2), (1, 1), (2, 2), (1, 3))],
 "power": lambda c: [c.power_spectrum(k, z) for k in (0.01, 0.3) for z in (0.0, 1.0)],
 "point_corrfunc": lambda c: c.compute_corrfunc(z=1.0, r=30.0, mu=0.3),
 "point_multipole": lambda c: c.compute_multipole(z=1.0, r=30.0, l=2),
}
def flat(x):
    return np.array(np.ravel(np.array(x, dtype=float)), dtype=float)
def get(c, n):
    try:
        return ("ok", flat(OUT[n](c)))
    except Exception as e:
        return ("raise", type(e).__name__)
def differ(a, b):
    if a[0] != b[0]:
        return True
    if a[0] == "raise":
        return a[1] != b[1]
    if a[1].shape != b[1].shape:
        return True
    return not np.allclose(a[1], b[1], rtol=1e-6, atol=1e-12 * max(1e-300, np.max(np.abs(b[1])) if b[1].size else 1), equal_nan=True)
'''


def alternatives(name):
    """python expressions, of the current value `old`, for a different acceptable value"""
    return ["(not old) if isinstance(old, bool) else None",
            "[float(x) * 1.07 for x in old] if isinstance(old, (list, np.ndarray)) and len(old) and isinstance(old[0], float) else None",
            "[float(x) for x in old] + [float(old[-1]) * 1.1] if isinstance(old, (list, np.ndarray)) and len(old) and isinstance(old[0], float) else None",
            "[2, 1, 2, 1] if isinstance(old, (list, np.ndarray)) and len(old) == 4 else None",
            "[0, 2, 4] if isinstance(old, (list, np.ndarray)) and len(old) and not isinstance(old[0], float) else None",
            "old * 1.13 if isinstance(old, float) and old else None",
            "old + 0.05 if isinstance(old, float) else None",
            "old * 0.5 if isinstance(old, float) and old else None",
            "max(1, int(old * 0.7)) if isinstance(old, int) and not isinstance(old, bool) and old > 2 else None",
            "old + 1 if isinstance(old, int) and not isinstance(old, bool) else None",
            "'gsl' if old == 'exponential' else 'exponential' if old == 'gsl' else None",
            "'fftlog' if old == 'standard' else 'standard' if old == 'fftlog' else None",
            "'bilinear' if old == 'bicubic' else 'bicubic' if old == 'bilinear' else None"]


VARIANTS = [
    {"on": ["has_rsd", "has_d1"], "user": 1},
    {"on": ["has_rsd", "has_d1", "has_lensing"], "user": 0, "set": {"l": [0, 1]}},
    {"on": ["has_rsd", "has_d1", "has_d2", "has_g1", "has_g2", "has_g3", "has_lensing"], "user": 1, "set": {"l": [0]}},
    {"on": ["has_rsd", "has_flatsky_local", "has_flatsky_nonlocal", "has_flatsky_local_nonlocal", "has_lensing"], "user": 1, "set": {"sep": [20.0]}},
    {"on": ["has_rsd", "has_binned_covariance"], "user": 1},
    {"on": ["has_rsd"], "user": 1, "set": {"covariance_integration_method": "fftlog", "covariance_integration_sampling": 300}},
    {"on": ["has_g4", "has_g5", "has_density"], "user": 1, "set": {"sep": [20.0], "l": [0]}},
]
SCEN = DRIVER + r'''
job = json.loads(sys.argv[1])
v, name, alts, names = job["variant"], job["op"], job["alts"], job["outputs"]
def apply(c, alt):
    if name.startswith("set_") and hasattr(c, name):
        if name == "set_power_spectrum_linear":
            power(c, 1.7)
        else:
            getattr(c, name)(Z, [0.37 + 0.6 * z for z in Z])
        return True
    old = getattr(c, name)
    new = eval(alt)
    if new is None:
        return False
    setattr(c, name, new)
    return True
found = []
for alt in (["0"] if name.startswith("set_") else alts):
    try:
        c = base(v)
        if not apply(c, alt):
            continue
    except (TypeError, ValueError, AttributeError):
        continue
    for n in names:
        ref = base(v); apply(ref, alt)
        want = get(ref, n)
        ref2 = base(v); apply(ref2, alt)
        if differ(get(ref2, n), want):
            continue
        used = base(v)
        before = [get(used, m) for m in names]
        if job["control"]:
            get(used, n)
            continue
        apply(used, alt)
        got = get(used, n)
        if differ(got, want):
            found.append([alt, n, str(got)[:200], str(want)[:200]])
            print("FOUND " + json.dumps(found[-1]), flush=True)
            sys.exit(0)
print("DONE")
'''


def run_job(code, job, timeout=200):
    """(returncode, stdout, stderr) of a replay script given one JSON job"""
    import subprocess
    import sys as _s
    d = pm.extension(True)
    env = dict(os.environ, PYTHONPATH=d, OMP_WAIT_POLICY="passive", OMP_NUM_THREADS="2", PYTHONDONTWRITEBYTECODE="1")
    try:
        r = subprocess.run([pm.VENV + "python", "-c", code, json.dumps(job)], env=env, cwd=repo.scratch(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace"), "timeout"


OUTS = {"_background": "background", "_integral": "integral", "_corrfunc": "corrfunc", "_multipoles": "multipoles",
        "_average_multipoles": "average_multipoles", "_covariance_multipoles": "covariance",
        "_average_covariance_multipoles": "average_covariance", "_power": "power"}


def replay_stale(chk, op, prods):
    """real run: compute, assign, compute again, against a fresh object with the same settings"""
    names = [OUTS[p] for p in prods]
    if "_integral" in prods or "_background" in prods or "_power" in prods:
        names += [n for n in ("multipoles", "corrfunc", "average_multipoles") if n not in names]
    for v in VARIANTS:
        job = {"variant": v, "op": op, "alts": alternatives(op), "outputs": names, "control": 0}
        rc, out, err = run_job(SCEN, job)
        chk.replays.append("%s %s" % (op, v))
        for l in out.split("\n"):
            if l.startswith("FOUND "):
                return v, json.loads(l[6:])
        if rc < 0 and run_job(SCEN, dict(job, control=1))[0] == 0:
            return v, ["", "crash", "signal %d" % -rc, ""]
    return None


def Y01(chk):
    layer = Layer(chk)
    chk.functions.update({f: 1 for s in layer.reach.values() for f in s})
    chk.functions["coffe.pyx:Coffe"] = 1
    chk.bounds.append("one assignment, setter call or query from an arbitrary state: every setting any value (real numbers for floating "
                      "point), any subset of the seven products and the power spectrum already computed, the power spectrum computed or "
                      "supplied; lists of 2 entries before, 0 to 4 after; sampled functions of 5 or 6 points")
    chk.assumptions.append("what a product depends on: the settings whose address is taken in the C functions reachable from the module that "
                           "computes it, plus those of the products it is built from; the on-demand power spectrum depends on the "
                           "cosmological and CLASS precision settings; C initialisers fill the product, free functions clear it")
    ops = operations(layer)
    by = {}
    for o in ops:
        by.setdefault(o[0], []).append(o)
    jobs = [(n, assign_job, (layer, n, l)) for n, l in by.items()]
    jobs += [(n, query_job, (layer, n, f)) for n, _, f in queries(layer)]
    groups = [jobs[i::8] for i in range(8)]
    parallel(chk, [("group %d" % i, run_group, (g,)) for i, g in enumerate(groups)])


def run_group(chk, jobs):
    from core import guarded
    for name, f, args in jobs:
        try:
            guarded(chk, name, f, chk, *args)
        except P.Unsupported as e:
            chk.undecide(name, e)


def inc(chk, p, c):
    """satisfiable together with the path condition (the path's own solver)"""
    import time
    t = time.time()
    p.s.push()
    p.s.add(c)
    r = str(p.s.check())
    m = p.s.model() if r == "sat" else None
    p.s.pop()
    chk.queries += 1
    chk.solver_s += time.time() - t
    return r, m


def invariant(chk, p, cf, obj):
    """products that are marked computed but differ from what the current settings give, with a satisfying assignment"""
    bad = {}
    for a in PRODS + ["_power"]:
        v = cf.valid(obj, a)
        vt = P.term(v) != 0
        cs = cf.stale(obj, a)
        if cf.closure[a] & {"power_spectrum", "power_spectrum_norm"} and a != "_power":
            cs.append(("power_spectrum", P.term(obj._power_spectrum_flag) == 0))
        if not cs:
            chk.queries += 0
            continue
        r, m = inc(chk, p, z3.And(vt, z3.Or(*[c for _, c in cs])))
        if r == "sat":
            bad[a] = [k for k, c in cs if z3.is_true(m.eval(c, model_completion=True))]
        elif r == "unknown":
            chk.undecide("%s" % a, "solver")
    x = z3.simplify(z3.Not(aux(cf, obj)))
    if not z3.is_false(x) and inc(chk, p, x)[0] == "sat":
        bad["_integral"] = bad.get("_integral", []) + ["divergent"]
    return bad


def assign_job(chk, layer, name, variants):
    bad, done, accepted, skipped = {}, 0, 0, []
    for _, lab, f in variants:
        def run(p):
            g, cf, obj = layer.state(p)
            p.keep = cf, obj
            f(obj, p)
        try:
            for p, kind, r in P.explore(run):
                if not hasattr(p, "keep"):
                    raise P.Unsupported("state construction: %r" % r)
                cf, obj = p.keep
                done += 1
                accepted += kind == "return"
                if kind == "fault":
                    bad.setdefault("fault", set()).add(str(r))
                    continue
                for a, ks in invariant(chk, p, cf, obj).items():
                    bad.setdefault(a, set()).update(ks)
                if cf.faults:
                    bad.setdefault("fault", set()).update(cf.faults)
                chk.queries += p.queries
        except P.Unsupported as e:
            skipped.append("%s: %s" % (lab, e))
    nm = "%s: no product outlives a change it depends on" % name
    chk.samples.append({"operation": name, "paths": done, "accepted": accepted, "argument shapes not explored": skipped})
    if not accepted:
        chk.undecide(nm, "no argument shape accepted; %s" % skipped)
        return
    if not bad:
        chk.ok(nm, "%d paths" % done)
        return
    pr = [a for a in bad if a in OUTS]
    hit = replay_stale(chk, name, pr)
    d = "; ".join("%s still marked computed though %s changed" % (SHORT.get(a, a), ", ".join(sorted(k))) for a, k in bad.items())
    if hit:
        v, (alt, n, got, want) = hit
        chk.violated(nm, "%s. Real run: configuration %s, all outputs computed, then %s = %s, then %s: got %s, a fresh object gives %s"
                     % (d, json.dumps(v), name, alt, n, got, want), key=name)
    else:
        chk.ok(nm, "%d paths; candidate without observable effect: %s" % (done, d[:200]))


QREPLAY = DRIVER + r'''
job = json.loads(sys.argv[1])
v, pre, names = job["variant"], job["pre"], job["outputs"]
def do(c, q):
    z = {"compute_corrfunc": lambda: c.compute_corrfunc(z=1.0, r=30.0, mu=0.3), "compute_multipole": lambda: c.compute_multipole(z=1.0, r=30.0, l=2),
         "integral": lambda: c.integral(r=20.0, n=2, l=2), "power_spectrum": lambda: c.power_spectrum(0.1, 1.0),
         "cross_spectrum": lambda: c.cross_spectrum(0.1, 1.0, 0.5), "maximum_separation": lambda: c.maximum_separation(1.0, 0.1),
         "parameters": lambda: c.parameters}
    if q in z:
        return z[q]()
    f = getattr(c, q)
    try:
        return f()
    except TypeError:
        return f(1.0)
for n in names:
    ref = base(v)
    if job["op"] in ("reset_contributions",):
        do(ref, job["op"])
    want = get(ref, n)
    if differ(get(base(v), n), want) and job["op"] != "reset_contributions":
        continue
    c = base(v)
    for q in pre:
        do(c, q)
    if job["control"]:
        continue
    do(c, job["op"])
    got = get(c, n)
    if differ(got, want):
        print("FOUND " + json.dumps([n, str(got)[:200], str(want)[:200]]), flush=True)
        sys.exit(0)
print("DONE")
'''


def query_job(chk, layer, name, f):
    bad, done = {}, 0

    def run(p):
        g, cf, obj = layer.state(p, nlist=1)
        p.keep = cf, obj
        f(obj, p)
    for p, kind, r in P.explore(run, limit=8000):
        if not hasattr(p, "keep"):
            raise P.Unsupported("state construction: %r" % r)
        cf, obj = p.keep
        done += 1
        if kind == "fault":
            bad.setdefault("fault", set()).add(str(r))
            continue
        for a, ks in invariant(chk, p, cf, obj).items():
            bad.setdefault(a, set()).update(ks)
        if cf.faults:
            bad.setdefault("fault", set()).update(cf.faults)
        chk.queries += p.queries
    nm = "%s: uses and leaves only products that match the settings" % name
    chk.samples.append({"operation": name, "paths": done})
    if not bad:
        chk.ok(nm, "%d paths" % done)
        return
    d = "; ".join("%s: %s" % (SHORT.get(a, a), ", ".join(sorted(k))) for a, k in bad.items())
    names = list(OUTS.values()) + ["point_corrfunc", "point_multipole"]
    for v in VARIANTS:
        for pre in ([], ["integral"], ["compute_multipoles_bulk"], ["comoving_distance"], ["power_spectrum"]):
            job = {"variant": v, "pre": pre, "op": name, "outputs": names, "control": 0}
            rc, out, err = run_job(QREPLAY, job)
            chk.replays.append("%s after %s" % (name, pre))
            for l in out.split("\n"):
                if l.startswith("FOUND "):
                    n, got, want = json.loads(l[6:])
                    chk.violated(nm, "%s. Real run: configuration %s, %s, then %s, then %s: got %s, a fresh object gives %s"
                                 % (d, json.dumps(v), pre, name, n, got, want), key=name)
                    return
            if rc not in (0, 1, 124) and run_job(QREPLAY, dict(job, control=1))[0] == 0:
                chk.violated(nm, "%s. Real run: configuration %s, %s, then %s: the process dies (%s) %s" % (d, json.dumps(v), pre, name, rc, err[-300:]), key=name)
                return
    chk.ok(nm, "%d paths; candidate without observable effect: %s" % (done, d[:200]))


# --------------------------------------------------- settings read back / frame / density budget
DENSITY = {"Omega0_m", "Omega0_cdm", "Omega0_baryon", "Omega0_nu", "Omega0_de"}
DENSITY_OF = {"omega_m": DENSITY - {"Omega0_baryon", "Omega0_nu"}, "omega_cdm": DENSITY - {"Omega0_baryon", "Omega0_nu"},
              "omega_baryon": {"Omega0_baryon", "Omega0_cdm"}, "omega_gamma": {"Omega0_gamma", "Omega0_de"},
              "h": {"h", "Omega0_nu", "Omega0_cdm"}, "m_ncdm": {"m_ncdm", "Omega0_nu", "Omega0_cdm"}}
LINKED = {"k_min": {"k_min_norm"}, "k_max": {"k_max_norm"}, "set_power_spectrum_linear": {"k_min", "k_max", "k_min_norm", "k_max_norm"}}
# set on behalf of a contribution that is switched on, never read back by the user
INTERNAL = {"divergent", "output_type", "power_spectrum", "power_spectrum_norm", "power_spectrum2d", "power_spectrum2d_norm", "have_class"}


def budget(s):
    """(name, condition) that must hold between the density settings"""
    t = {k: P.term(s[k][1], True) for k in DENSITY | {"Omega0_gamma", "h", "m_ncdm"}}
    return [("Omega_m = Omega_cdm + Omega_baryon + Omega_nu", t["Omega0_m"] == t["Omega0_cdm"] + t["Omega0_baryon"] + t["Omega0_nu"]),
            ("Omega_de = 1 - Omega_m - Omega_gamma", t["Omega0_de"] == 1 - t["Omega0_m"] - t["Omega0_gamma"]),
            ("Omega_de >= 0", t["Omega0_de"] >= 0),
            ("Omega_nu = m_ncdm / 93.14 / h^2", t["Omega0_nu"] * t["h"] * t["h"] * z3.RealVal("93.14") == t["m_ncdm"])]


def close(a, b):
    """condition: a reads back b, up to the tolerance under which an assignment counts as no change"""
    d = P.term(a, True) - P.term(b, True)
    w = P.term(a, True)
    eps = z3.RealVal("0.00000001") + z3.RealVal("0.00001") * z3.If(w >= 0, w, -w)
    return z3.And(d <= eps, -d <= eps)


def agrees(got, v):
    """condition that a setting reads back as v; None when v is a code whose meaning is another notation"""
    if isinstance(v, str) or isinstance(got, str):
        if isinstance(v, str) and isinstance(got, str):
            return z3.BoolVal(got == v)
        return None
    if v is None or (P.isinst(got, bool) and P.isinst(v, (list, tuple))):
        return P.term(got) == z3.IntVal(1 if v else 0) if P.isinst(got, bool) else z3.BoolVal(False)
    if P.isinst(v, (list, tuple)):
        if not P.isinst(got, (list, tuple)) or len(got) != len(v):
            return z3.BoolVal(False)
        cs = [agrees(a, b) for a, b in zip(got, v)]
        return None if None in cs else z3.And(*cs) if cs else z3.BoolVal(True)
    if P.isinst(got, bool):
        return P.term(got) == z3.If(P.term(v) != 0, 1, 0) if not isinstance(v, P.SymBool) else P.term(got) == P.term(v)
    if P.isinst(got, int) and not P.isinst(v, int):
        return P.term(got) == P.term(P.toint(v))
    return close(got, v)


def own_fields(layer, name):
    """C settings the getter of a property reads"""
    seen = set()

    def run(p):
        g, cf, obj = layer.state(p, nlist=1)
        real = P.CStruct.__getattr__

        def spy(self, n):
            if self._sname in layer.lay.structs and self._owner is None or self is obj._parameters:
                seen.add(n)
            return real(self, n)
        P.CStruct.__getattr__ = spy
        try:
            getattr(obj, name)
        finally:
            P.CStruct.__getattr__ = real
    for _ in P.explore(run, limit=50):
        pass
    return {k for k in seen}


def extra_inputs():
    def R(i):
        return P.SymNum(z3.Real("v%d" % i), "float")
    return [("None", lambda p: None), ("a list with text", lambda p: [R(0), "abc"]), ("nested list", lambda p: [[R(0)], R(1)]),
            ("4 floats", lambda p: [R(i) for i in range(4)])]


def sampled_inputs():
    def f(n, m, bad=None):
        def mk(p):
            xs = [P.SymNum(z3.Real("x%d" % i), "float") for i in range(n)]
            ys = [P.SymNum(z3.Real("y%d" % i), "float") for i in range(m)]
            if bad == "x":
                xs[-1] = None
            if bad == "y":
                ys[-1] = None
            return xs, ys
        return mk
    return [("%d+%d points" % (n, m), f(n, m)) for n, m in ((0, 0), (1, 1), (2, 2), (4, 4), (5, 5), (5, 4), (5, 6), (6, 6))] + [
        ("5+5 points, the last abscissa not a number", f(5, 5, "x")), ("5+5 points, the last value not a number", f(5, 5, "y"))]


def members_of(layer):
    props, meths = layer.members()
    return [n for n, w in props if w], [n for n in meths if n.startswith("set_") and n != "set_parameters"]


def py(m, v):
    """argument as a python literal under a model"""
    if isinstance(v, P.SymBool):
        return bool(z3.is_true(m.eval(v.t, model_completion=True)))
    if isinstance(v, P.SymNum):
        x = m.eval(v.t, model_completion=True)
        if v.kind == "int":
            return x.as_long()
        if z3.is_algebraic_value(x):
            x = x.approx(20)
        return float(x.as_fraction())
    if isinstance(v, (list, tuple)):
        return [py(m, w) for w in v]
    return v


RB = DRIVER + r'''
job = json.loads(sys.argv[1])
name, arg, kind = job["op"], job["arg"], job["kind"]
def eq(a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1.01e-8 + 1.01e-5 * np.abs(a)))
SPL = [n + str(i) for n, m in (("galaxy_bias", 4), ("magnification_bias", 2), ("evolution_bias", 2)) for i in range(1, m + 1)]
EXTRA = ["omega_de", "omega_nu", "big_omega_m", "big_omega_cdm"]
def state(c):
    d = dict(c.parameters)
    for n in EXTRA:
        d[n] = getattr(c, n)
    for n in SPL:
        d[n] = [list(getattr(c, n + "_redshifts")()), list(getattr(c, n + "_values")())]
    return d
def budget(c):
    if abs(c.omega_m - c.omega_cdm - c.omega_baryon - c.omega_nu) > 1e-9: return "omega_m differs from omega_cdm + omega_baryon + omega_nu"
    if abs(c.omega_de - (1 - c.omega_m - c.omega_gamma)) > 1e-9: return "omega_de differs from 1 - omega_m - omega_gamma"
    if c.omega_de < -1e-9: return "omega_de is negative"
    if abs(c.omega_nu * c.h**2 * 93.14 - c.m_ncdm) > 1e-9 * max(1, abs(c.m_ncdm)): return "omega_nu differs from m_ncdm / 93.14 / h^2"
def fail(*a):
    print("FOUND " + json.dumps([str(x)[:200] for x in a]), flush=True)
    sys.exit(0)
pres = [lambda c: None, lambda c: setattr(c, "m_ncdm", 1.5), lambda c: (setattr(c, "m_ncdm", 1.5), setattr(c, "h", 0.8)),
        lambda c: (setattr(c, "omega_m", 0.5), setattr(c, "omega_baryon", 0.2), setattr(c, "omega_gamma", 0.1))]
def assign(c, a):
    if name.startswith("set_"):
        getattr(c, name)(*a)
    else:
        setattr(c, name, a)
args = [arg]
if kind == "readback":
    for alt in job["alts"]:
        old = None if name.startswith("set_") else getattr(base({}), name)
        if old is not None:
            x = eval(alt)
            if x is not None:
                args.append(x)
    if name.startswith("set_"):
        k = np.logspace(-3, 0.5, 9) if "power" in name else np.linspace(0, 15, 9) ** 1.3 / 15**0.3
        args.append([list(k), list(1.0 + 0.3 * k)])
for pre in pres:
    for a in args:
        c = base({}); pre(c)
        if job["control"]:
            continue
        before = state(c)
        print("TRY", repr(a)[:300], file=sys.stderr, flush=True)
        try:
            assign(c, a)
        except (TypeError, ValueError, OverflowError, ZeroDivisionError) as e:
            after = state(c)
            if kind == "reject":
                if isinstance(e, ZeroDivisionError):
                    fail(repr(a), "raised %r" % e)
                for n in before:
                    if not eq(before[n], after[n]):
                        fail(repr(a), "rejected (%r) but %s changed from %s to %s" % (e, n, before[n], after[n]))
            continue
        except Exception as e:
            fail(repr(a), "raised %s: %s" % (type(e).__name__, e))
        if kind == "reject":
            continue
        after = state(c)
        if not name.startswith("set_") and not isinstance(a, str):
            got = after[name]
            if not isinstance(got, str):
                want = bool(a) if isinstance(got, bool) else int(a) if isinstance(got, int) and not isinstance(a, list) else a
                if isinstance(a, list) and len(np.asarray(got)) and np.asarray(got).dtype.kind in "iu":
                    want = [int(x) for x in a]
                if not eq(got, want):
                    fail(repr(a), "reads back as %r" % (got,))
        elif isinstance(a, str) and after[name] != a:
            fail(repr(a), "reads back as %r" % (after[name],))
        if name.startswith("set_") and "power" not in name:
            got = after[name[4:]]
            if not eq(got[0], a[0]) or not eq(got[1], a[1]):
                fail(repr(a), "%s reads back as %s" % (name[4:], got))
        if name.startswith("set_power"):
            got = [c.power_spectrum(float(k), 0.0) for k in a[0]]
            if not np.allclose(got, a[1], rtol=1e-6):
                fail(repr(a), "power_spectrum reads back as %s" % got)
        for n in before:
            if n not in job["may"] and not eq(before[n], after[n]):
                fail(repr(a), "%s changed from %s to %s" % (n, before[n], after[n]))
        if budget(c):
            fail(repr(a), budget(c))
print("DONE")
'''
# properties whose value may follow from an assignment
FOLLOW = {k: {"omega_" + f.split("_")[1] for f in v if f.startswith("Omega0_")} | {"big_omega_" + f.split("_")[1] for f in v if f.startswith("Omega0_")}
          for k, v in DENSITY_OF.items()}


def replay_assign(chk, name, kind, arg, alts=True):
    may = sorted({name} | FOLLOW.get(name, set()) | {k for k in LINKED.get(name, set())} | ({name[4:]} if name.startswith("set_") else set()))
    job = {"op": name, "arg": arg, "kind": kind, "alts": alternatives(name) if alts else [], "may": may, "control": 0}
    rc, out, err = run_job(RB, job)
    chk.replays.append("%s = %r" % (name, arg))
    for l in out.split("\n"):
        if l.startswith("FOUND "):
            return json.loads(l[6:])
    if rc not in (0, 124) and "Traceback" not in err and run_job(RB, dict(job, control=1))[0] == 0:
        t = [l for l in err.split("\n") if l.startswith("TRY")]
        return [t[-1][4:] if t else "?", "the process dies (%s)" % rc]
    return None


def shapes(layer, name):
    if name.startswith("set_"):
        return sampled_inputs()
    return symbolic_inputs(name) + extra_inputs()


def run_shapes(layer, name, invariants=True):
    """(label, argument, path, kind, result, object, settings before) for every path of an assignment"""
    for lab, mk in shapes(layer, name):
        def run(p):
            g, cf, obj = layer.state(p)
            p.pre = pm.settings(obj._parameters)
            if invariants:
                p.add(z3.And(*[c for _, c in budget(p.pre)[:3]]))
                # exact form of the neutrino density, which keeps the arithmetic linear in most queries
            a = mk(p)
            p.keep = cf, obj, a
            if name.startswith("set_"):
                getattr(obj, name)(*a)
            else:
                setattr(obj, name, a)
        for p, kind, r in P.explore(run):
            if not hasattr(p, "keep"):
                raise P.Unsupported("state construction: %r" % r)
            yield lab, p, kind, r


def Y02(chk):
    layer = Layer(chk)
    chk.functions["coffe.pyx:Coffe"] = 1
    chk.bounds.append("one assignment from an arbitrary state (any setting any value, densities consistent, any products computed); numbers of any "
                      "value, text options, lists of 0 to 4 entries, sampled functions of 5 and 6 points")
    chk.assumptions.append("floating point settings are real numbers; a list given to an integer setting is truncated entry by entry")
    ps, ss = members_of(layer)
    names = ps + ss
    groups = [names[i::8] for i in range(8)]
    parallel(chk, [("group %d" % i, run_group, ([(n, readback_job, (layer, n)) for n in g],)) for i, g in enumerate(groups)])


def settings_of(p, obj):
    """settings, and the memory fault met while reading them"""
    try:
        return pm.settings(obj._parameters), []
    except P.Unsupported as e:
        if not str(e).startswith("FAULT"):
            raise
        return dict(p.pre), [(str(e), z3.BoolVal(True))]


def readback_job(chk, layer, name):
    from core import guarded
    nm = "%s reads back what was assigned and leaves the other settings alone" % name
    setter = name.startswith("set_")
    own = {name[4:]} if setter else own_fields(layer, name)
    allowed = own | DENSITY_OF.get(name, set()) | LINKED.get(name, set()) | INTERNAL
    accepted, done, cand, strange = 0, 0, [], None
    for lab, p, kind, r in run_shapes(layer, name):
        done += 1
        cf, obj, a = p.keep
        chk.queries += p.queries
        if kind == "raise":
            if not isinstance(r, (TypeError, ValueError, OverflowError, ZeroDivisionError)):
                strange = (lab, r, p, a)
            continue
        accepted += 1
        conds = [(str(r), z3.BoolVal(True))] if kind == "fault" else []
        post, f = settings_of(p, obj)
        conds += f
        for k in post:
            if k.split(".")[0] in allowed or k.split(".")[-1] in allowed or k == "class_precision." + name:
                continue
            c = pm.ne(p.pre[k], post[k])
            if not z3.is_false(c):
                conds.append(("%s changes" % k, c))
        moved = [k for k in DENSITY | {"Omega0_gamma", "h", "m_ncdm"} if not z3.is_false(pm.ne(p.pre[k], post[k]))]
        if moved:
            nu = budget(p.pre)[3][1]
            for t, c in budget(post):
                conds.append((t + " is violated", z3.And(nu, z3.Not(c)) if "m_ncdm" in t else z3.Not(c)))
        try:
            if not setter:
                c = agrees(getattr(obj, name), a)
                if c is not None:
                    conds.append(("reads back differently", z3.Not(c)))
            else:
                it = obj._parameters.get("power_spectrum" if "power" in name else name[4:])
                s = it.spline
                if not isinstance(s, P.Spline) or s.xs is None or len(s.xs) != len(a[0]) or len(s.ys) != len(a[1]):
                    conds.append(("samples differ", z3.BoolVal(True)))
                else:
                    conds.append(("samples differ", z3.Or(*[P.term(u, True) != P.term(v, True) for u, v in zip(list(s.xs) + list(s.ys), list(a[0]) + list(a[1]))])))
                if "power" in name:
                    par = obj._parameters
                    conds.append(("range of wavenumbers differs", z3.Or(P.term(par.k_min, True) != P.term(a[0][0], True), P.term(par.k_max, True) != P.term(a[0][-1], True))))
        except P.Unsupported as e:
            if not str(e).startswith("FAULT"):
                raise
            conds.append((str(e), z3.BoolVal(True)))
        except Exception as e:      # noqa
            conds.append(("getter raises %r" % e, z3.BoolVal(True)))
        for t, c in conds:
            q, m = inc(chk, p, c)
            if q == "sat":
                cand.append((t, lab, py(m, a)))
            elif q == "unknown":
                chk.undecide(nm, "solver: %s, %s" % (t, lab))
    chk.samples.append({"operation": name, "paths": done, "accepted": accepted})
    if not accepted:
        q, m = inc(chk, p, z3.BoolVal(True))
        hit = None
        if strange:
            q, m = inc(chk, strange[2], z3.BoolVal(True))
            hit = replay_assign(chk, name, "readback", py(m, strange[3]) if m is not None else 1)
        hit = hit or replay_assign(chk, name, "readback", 1)
        if hit:
            chk.violated(nm, "no value can be assigned: %s %s" % tuple(hit), key=name)
        else:
            chk.undecide(nm, "no value accepted symbolically")
        return
    if not cand:
        chk.ok(nm, "%d paths" % done)
        return
    for t, lab, a in cand[:6]:
        hit = replay_assign(chk, name, "readback", a)
        if hit:
            chk.violated(nm, "%s (%s). Real run: %s = %s: %s" % (t, lab, name, hit[0], hit[1]), key=name)
            return
    chk.undecide(nm, "candidate not reproduced: %s" % (cand[:2],))


# ------------------------------------------------------------------ rejected assignments
def Y03(chk):
    layer = Layer(chk)
    chk.functions["coffe.pyx:Coffe"] = 1
    chk.bounds.append("one assignment from an arbitrary state; numbers of any value, text, None, lists of 0 to 4 entries including entries that are not "
                      "numbers, sampled functions of 0 to 6 points with any abscissae and mismatched lengths")
    chk.assumptions.append("the interpolation library ends the process when given fewer than 5 points or abscissae that do not increase strictly")
    ps, ss = members_of(layer)
    names = ps + ss
    groups = [names[i::8] for i in range(8)]
    parallel(chk, [("group %d" % i, run_group, ([(n, reject_job, (layer, n)) for n in g],)) for i, g in enumerate(groups)])


def reject_job(chk, layer, name):
    nm = "%s: a rejected value changes nothing, and no value ends the process" % name
    done, rejected, cand = 0, 0, []
    for lab, p, kind, r in run_shapes(layer, name):
        done += 1
        cf, obj, a = p.keep
        chk.queries += p.queries
        conds = [(f, z3.BoolVal(True)) for f in set(cf.faults)] + list(cf.aborts)
        if kind == "fault":
            conds.append((str(r), z3.BoolVal(True)))
        if kind == "raise":
            rejected += 1
            if not isinstance(r, (TypeError, ValueError, OverflowError)):
                conds.append(("raises %r" % r, z3.BoolVal(True)))
            post, f = settings_of(p, obj)
            conds += f
            for k in post:
                c = pm.ne(p.pre[k], post[k])
                if not z3.is_false(c):
                    conds.append(("rejected but %s changes" % k, c))
        for t, c in conds:
            q, m = inc(chk, p, c)
            if q == "sat":
                cand.append((t, lab, py(m, a)))
            elif q == "unknown":
                chk.undecide(nm, "solver: %s, %s" % (t, lab))
    chk.samples.append({"operation": name, "paths": done, "rejected": rejected})
    if not cand:
        chk.ok(nm, "%d paths, %d rejected" % (done, rejected))
        return
    for t, lab, a in cand[:6]:
        hit = replay_assign(chk, name, "reject", a)
        if hit:
            chk.violated(nm, "%s (%s). Real run: %s = %s: %s" % (t, lab, name, hit[0], hit[1]), key=name)
            return
    chk.undecide(nm, "candidate not reproduced: %s" % (cand[:2],))


# ------------------------------------------------------------------ settings files
RT = DRIVER + r'''
import tempfile, warnings
warnings.simplefilter("ignore")
job = json.loads(sys.argv[1])
SPL = [n + str(i) for n, m in (("galaxy_bias", 4), ("magnification_bias", 2), ("evolution_bias", 2)) for i in range(1, m + 1)]
def eq(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 6e-5 * np.maximum(np.abs(a), job["scale"]) + 1e-7 * (a != 0)))
def state(c):
    d = dict(c.parameters)
    for n in SPL:
        d[n] = [list(getattr(c, n + "_redshifts")()), list(getattr(c, n + "_values")())]
    return d
def fail(*a):
    print("FOUND " + json.dumps([str(x)[:200] for x in a]), flush=True)
    sys.exit(0)
sets = [job["sets"]]
if len(sets[0]) == 1 and not sets[0][0][0].startswith("set_"):
    for alt in job["alts"]:
        old = getattr(Coffe(), sets[0][0][0])
        x = eval(alt)
        if x is not None:
            sets.append([[sets[0][0][0], x]])
for s in sets:
    c = Coffe()
    try:
        for n, a in s:
            if n.startswith("set_"):
                getattr(c, n)(*a)
            else:
                setattr(c, n, a)
    except (TypeError, ValueError, OverflowError):
        continue
    want = state(c)
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, "settings.cfg")
        try:
            c.to_file(f)
            got = state(Coffe.from_file(f))
        except Exception as e:
            fail(s, "raises %r" % e)
    for n in want:
        if not eq(want[n], got[n]):
            fail(s, "%s was %s and is read back as %s" % (n, want[n], got[n]))
print("DONE")
'''


def values_of(obj, biases):
    """what a settings file stands for"""
    d = dict(obj.parameters)
    for n in biases:
        d[n + "_redshifts"] = list(getattr(obj, n + "_redshifts")())
        d[n + "_values"] = list(getattr(obj, n + "_values")())
    return d


def Y04(chk):
    layer = Layer(chk)
    chk.functions["coffe.pyx:Coffe.to_file"] = chk.functions["coffe.pyx:Coffe.from_file"] = 1
    chk.bounds.append("settings reached from the defaults by one assignment of any accepted value (each setting in turn, lists of 0 to 4 entries, "
                      "sampled biases of 5 and 6 points), and by assigning all densities, h and the neutrino mass together")
    chk.assumptions.append("text formatting of numbers is exact; the power spectrum is not part of a settings file")
    ps, ss = members_of(layer)
    ss = [s for s in ss if "power" not in s]
    dens = ["h", "m_ncdm", "omega_gamma", "omega_m", "omega_baryon"]
    todo = [([n], n) for n in ps + ss] + [(dens, "densities")]
    todo.sort(key=lambda t: -len(t[0]))
    groups = [todo[i::8] for i in range(8)]
    parallel(chk, [("group %d" % i, run_group, ([(l, roundtrip_job, (layer, n, l, ss)) for n, l in g],)) for i, g in enumerate(groups)])


def roundtrip_job(chk, layer, names, label, ss):
    nm = "%s survives writing and reading a settings file" % label
    biases = [s[4:] for s in ss]
    done, cand = 0, []
    combos = [[(n, lab, mk)] for n in names for lab, mk in (shapes(layer, n))] if len(names) == 1 else [
        [(n, "float", lambda p, n=n: P.SymNum(z3.Real("v_" + n), "float")) for n in names]]
    for combo in combos:
        def run(p):
            cf = layer.cfun()
            g = layer.W.load()
            obj = g["Coffe"]()
            args = []
            p.keep = cf, g, obj, args
            p.stage = 0
            for n, lab, mk in combo:
                a = mk(p)
                args.append((n, a))
                if n.startswith("set_"):
                    getattr(obj, n)(*a)
                else:
                    setattr(obj, n, a)
            if len(combo) > 1:
                # a consistent set of densities
                s = pm.settings(obj._parameters)
                p.add(z3.And(*[P.term(s[k][1], True) >= 0 for k in ("Omega0_m", "Omega0_gamma", "Omega0_cdm", "Omega0_baryon", "m_ncdm")]))
            p.stage = 1
            want = values_of(obj, biases)
            obj.to_file("settings.cfg")
            p.stage = 2
            new = g["Coffe"].from_file("settings.cfg")
            p.stage = 3
            return want, values_of(new, biases)
        for p, kind, r in P.explore(run, limit=1500):
            if not hasattr(p, "keep"):
                raise P.Unsupported("state construction: %r" % r)
            if getattr(p, "stage", 0) == 0:
                continue
            done += 1
            chk.queries += p.queries
            cf, g, obj, args = p.keep
            conds = []
            if kind != "return":
                conds.append(("%s %r" % (kind, r), z3.BoolVal(True)))
            else:
                want, got = r
                for k in want:
                    if k not in got:
                        conds.append((k + " is lost", z3.BoolVal(True)))
                        continue
                    conds += [("%s differs" % k, z3.Not(c)) for c in [same(want[k], got[k], len(combo) > 1 or k.startswith("omega"))] if not z3.is_true(c)]
            for t, c in conds:
                q, m = inc(chk, p, c)
                if q == "sat":
                    cand.append((t, combo[0][1], [[n, py(m, a)] for n, a in args]))
                elif q == "unknown":
                    chk.undecide(nm, "solver: %s" % t)
    chk.samples.append({"settings": names, "paths": done})
    if not cand:
        chk.ok(nm, "%d paths" % done)
        return
    for t, lab, sets in cand[:6]:
        job = {"sets": sets, "alts": alternatives(names[0]), "scale": 1.0 if len(names) > 1 or names[0].startswith("omega") else 0.0}
        rc, out, err = run_job(RT, job)
        chk.replays.append("%r" % (sets,))
        for l in out.split("\n"):
            if l.startswith("FOUND "):
                chk.violated(nm, "%s (%s). Real run: %s: %s" % (t, lab, *json.loads(l[6:])), key=label)
                return
    chk.undecide(nm, "candidate not reproduced: %s" % (cand[:2],))


def same(a, b, density):
    if isinstance(a, str) or isinstance(b, str):
        return z3.BoolVal(a == b)
    if P.isinst(a, (list, tuple)):
        if not P.isinst(b, (list, tuple)) or len(a) != len(b):
            return z3.BoolVal(False)
        cs = [same(x, y, density) for x, y in zip(a, b)]
        return z3.simplify(z3.And(*cs)) if cs else z3.BoolVal(True)
    d = P.term(a, True) - P.term(b, True)
    w = P.term(a, True)
    eps = z3.RealVal("0.0001") if density else z3.RealVal("0.00000002") + z3.RealVal("0.00002") * z3.If(w >= 0, w, -w)
    return z3.simplify(z3.And(d <= eps, -d <= eps))


# ------------------------------------------------------------------ result objects
RESULT = {"compute_corrfunc_bulk": ("_corrfunc", {"z": "coords.z_mean", "r": "coords.separation", "mu": "coords.mu", "value": "value"}),
          "compute_multipoles_bulk": ("_multipoles", {"z": "coords.z_mean", "r": "coords.separation", "l": "coords.l", "value": "value"}),
          "compute_average_multipoles_bulk": ("_average_multipoles", {"z_min": "coords.z_min", "z_max": "coords.z_max", "r": "coords.separation",
                                                                      "l": "coords.l", "value": "value"}),
          "compute_covariance_bulk": ("_covariance_multipoles", {"z": "coords.z_mean", "r1": "coords.separation1", "r2": "coords.separation2",
                                                                 "l1": "coords.l1", "l2": "coords.l2", "value": "value"}),
          "compute_average_covariance_bulk": ("_average_covariance_multipoles", {
              "z_min": "coords.z_min", "z_max": "coords.z_max", "r1": "coords.separation1", "r2": "coords.separation2", "l1": "coords.l1",
              "l2": "coords.l2", "value": "value"})}
KINDS = {"cf": "compute_corrfunc_bulk", "mp": "compute_multipoles_bulk", "avg_mp": "compute_average_multipoles_bulk",
         "cov": "compute_covariance_bulk", "avg_cov": "compute_average_covariance_bulk"}
BGCOL = {"z": None, "a": "scale_factor", "H": "hubble_rate", "conformal_H": "hubble_rate_conformal",
         "conformal_H_prime": "hubble_rate_conformal_derivative", "D1": "growth_factor", "f": "growth_rate", "comoving_distance": "comoving_distance"}
COLS = r'''
import json, sys, os, types, tempfile
import numpy as np
import coffe
import coffe.__main__ as cli
from coffe import Coffe
job = json.loads(sys.argv[1])
Z = list(np.linspace(0, 15, 40))
def make():
    c = Coffe(background_sampling=300, integration_sampling=400, sep=[20.0, 60.0], mu=[0.2, 0.7], l=[0, 2], z_mean=[1.0, 1.3], deltaz=[0.2, 0.1],
        z_min=[0.9, 1.4], z_max=[1.1, 1.7], number_density1=[1e-3, 2e-3], number_density2=[2e-3, 1e-3], pixelsize=[20.0, 10.0], fsky=[0.3, 0.4], has_density=True, has_rsd=True)
    c.set_galaxy_bias1(Z, [1.2 + 0.3 * z for z in Z])
    k = np.logspace(-4, 1.0, 300); q = k / 0.02
    c.set_power_spectrum_linear(list(k), list(1e4 * q / (1 + q**3) / (1 + q)))
    return c
def fail(*a):
    print("FOUND " + json.dumps([str(x)[:300] for x in a]), flush=True)
    sys.exit(0)
fn, kind, names = job["function"], job["kind"], job["names"]
grid = {"compute_corrfunc_bulk": [(("z", z), ("mu", m), ("r", r)) for z in (1.0, 1.3) for m in (0.2, 0.7) for r in (20.0, 60.0)],
 "compute_multipoles_bulk": [(("z", z), ("l", l), ("r", r)) for z in (1.0, 1.3) for l in (0, 2) for r in (20.0, 60.0)],
 "compute_average_multipoles_bulk": [(("z_min", a), ("z_max", b), ("l", l), ("r", r)) for a, b in ((0.9, 1.1), (1.4, 1.7)) for l in (0, 2) for r in (20.0, 60.0)],
 "compute_covariance_bulk": [(("z", z), ("l1", l), ("l2", m), ("r1", r), ("r2", s)) for z in (1.0, 1.3) for l in (0, 2) for m in (0, 2) for r in (20.0, 60.0) for s in (20.0, 60.0)],
 "compute_average_covariance_bulk": [(("z_min", a), ("z_max", b), ("l1", l), ("l2", m), ("r1", r), ("r2", s)) for a, b in ((0.9, 1.1), (1.4, 1.7)) for l in (0, 2) for m in (0, 2) for r in (20.0, 60.0) for s in (20.0, 60.0)]}
c = make()
if fn:
    res = list(getattr(c, fn)())
    have = sorted(str(sorted((n, round(float(getattr(x, n)), 9)) for n in names if n != "value")) for x in res)
    want = sorted(str(sorted((n, round(float(v), 9)) for n, v in g)) for g in grid[fn])
    if have != want:
        fail("coordinates of the results of %s are %s" % (fn, have[:4]), "expected %s" % want[:4])
    for x in res:
        d = x.to_dict()
        if sorted(d) != sorted(names) or any(d[n] != getattr(x, n) for n in names):
            fail("to_dict of a result of %s gives %s" % (fn, d), "attributes %s" % {n: getattr(x, n) for n in names})
    if fn == "compute_corrfunc_bulk":
        for x in res:
            v = c.compute_corrfunc(z=x.z, r=x.r, mu=x.mu)
            if abs(v - x.value) > 1e-6 * abs(v): fail("value %s at %s" % (x.value, d), "compute_corrfunc gives %s" % v)
    if fn == "compute_multipoles_bulk":
        for x in res:
            v = c.compute_multipole(z=x.z, r=x.r, l=x.l)
            if abs(v - x.value) > 1e-6 * abs(v): fail("value %s at %s" % (x.value, d), "compute_multipole gives %s" % v)
if kind:
    class Stand:
        from_file = staticmethod(lambda f: c)
    cli.Coffe = Stand
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, "out")
        cli.compute_output(types.SimpleNamespace(settings="x", output=f, kind=kind))
        head = [h.strip().strip("#").strip() for h in open(f).readline().split("\t")]
        data = np.atleast_2d(np.loadtxt(f))
    head = [h.split("[")[0].split(")")[-1] for h in head]
    if kind == "bg":
        zs = np.linspace(0, 15, 300)
        for j, h in enumerate(head):
            n = {"a": "scale_factor", "H": "hubble_rate", "conformal_H": "hubble_rate_conformal", "conformal_H_prime": "hubble_rate_conformal_derivative",
                 "D1": "growth_factor", "f": "growth_rate", "comoving_distance": "comoving_distance"}.get(h)
            want = zs if h == "z" else np.array([getattr(c, n)(z) for z in zs])
            if data.shape[0] != 300 or not np.allclose(data[:, j], want, rtol=1e-8):
                fail("column %s" % h, "first entries %s instead of %s" % (data[:3, j], want[:3]))
    else:
        res = list(getattr(c, job["bulk"])())
        for j, h in enumerate(head):
            n = "value" if h.endswith("value") else h
            want = np.array([float(getattr(x, n)) for x in res])
            if data.shape != (len(res), len(head)) or not np.allclose(data[:, j], want, rtol=1e-8):
                fail("column %s" % h, "first entries %s instead of %s" % (data[:3, j] if data.shape[1] > j else None, want[:3]))
print("DONE")
'''


def replay_cols(chk, fn, kind, names):
    rc, out, err = run_job(COLS, {"function": fn, "kind": kind, "names": sorted(names), "bulk": KINDS.get(kind, "")})
    chk.replays.append("%s %s" % (fn, kind))
    for l in out.split("\n"):
        if l.startswith("FOUND "):
            return json.loads(l[6:])
    return ["the real run fails", err[-300:]] if rc not in (0, 124) else None


def Y05(chk):
    layer = Layer(chk)
    chk.functions.update({"coffe.pyx:" + f: 1 for f in RESULT})
    chk.functions.update({"representation.py": 1, "__main__.py:compute_output": 1})
    chk.bounds.append("arrays of 3 results with arbitrary coordinates and values, freshly computed or computed before, arbitrary settings; "
                      "background tables of 4 rows")
    chk.assumptions.append("which coordinates the C arrays carry is A02 (signals) and C01 (covariance)")
    jobs = [(f, result_job, (layer, f)) for f in RESULT] + [("command line " + k, column_job, (layer, k)) for k in list(KINDS) + ["bg"]]
    parallel(chk, [(n, run_group, ([(n, f, a)],)) for n, f, a in jobs])


def expected_rows(cf, obj, attr, fields):
    a = getattr(obj, attr)
    n = a.size
    n = P.CUR.value_of(n.t) if isinstance(n, P.SymNum) else n
    return [{k: a.array[i].get(f) for k, f in fields.items()} for i in range(n)]


def differs(a, b):
    """condition that two values differ, None when they are the same term"""
    if not P.isnum(a) or not P.isnum(b):
        return z3.BoolVal(True)
    c = z3.simplify(P.term(a, True) != P.term(b, True))
    return None if z3.is_false(c) else c


def result_job(chk, layer, fn):
    attr, fields = RESULT[fn]
    nm = "%s returns one object per computed entry with its own coordinates and value" % fn
    done, cand = 0, []

    def run(p):
        g, cf, obj = layer.state(p, nlist=1, sizes=(0, 3))
        cf.sizes = {attr: 3}
        p.keep = cf, obj
        return getattr(obj, fn)()
    for p, kind, r in P.explore(run, limit=8000):
        if kind != "return":
            continue
        done += 1
        cf, obj = p.keep
        rows = expected_rows(cf, obj, attr, fields)
        conds = []
        if len(rows) != len(r):
            conds.append(("%d objects for %d entries" % (len(r), len(rows)), z3.BoolVal(True)))
        else:
            for i, (x, w) in enumerate(zip(r, rows)):
                try:
                    d = x.to_dict()
                    if sorted(d) != sorted(fields):
                        conds.append(("to_dict gives %s" % sorted(d), z3.BoolVal(True)))
                    for k in fields:
                        for src, v in (("attribute", getattr(x, k)), ("to_dict", d.get(k))):
                            c = differs(v, w[k])
                            if c is not None:
                                conds.append(("%s %s of entry %d" % (src, k, i), c))
                except Exception as e:      # noqa
                    conds.append(("%r" % e, z3.BoolVal(True)))
        for t, c in conds:
            q, m = inc(chk, p, c)
            if q == "sat":
                cand.append(t)
            elif q == "unknown":
                chk.undecide(nm, "solver: " + t)
        chk.queries += p.queries + 1
    chk.samples.append({"function": fn, "paths": done})
    if not done:
        chk.undecide(nm, "no path returns")
    elif not cand:
        chk.ok(nm, "%d paths" % done)
    else:
        hit = replay_cols(chk, fn, "", fields)
        if hit:
            chk.violated(nm, "%s. Real run: %s, %s" % (cand[0], hit[0], hit[1]), key=fn)
        else:
            chk.undecide(nm, "candidate not reproduced: %s" % cand[:3])


def column_job(chk, layer, kind):
    nm = "command line, kind %s: every column holds what its header names" % kind
    src = open(os.path.join(repo.REPO, "python", "coffe", "__main__.py")).read()
    code = compile(src, "__main__.py", "exec")
    done, cand = 0, []
    saved = {}

    class NP(P.FakeNP):
        @staticmethod
        def transpose(x):
            return P.NDArr([P.NDArr(r) for r in zip(*x)])

        @staticmethod
        def savetxt(f, data, header="", **kw):
            saved["x"] = (f, data, header, kw)

    def run(p):
        saved.clear()
        g, cf, obj = layer.state(p, nlist=1, sizes=(0, 2))
        p.keep = cf, obj
        if kind == "bg":
            obj._parameters.put("background_bins", 4)

        class Stand:
            from_file = staticmethod(lambda f: obj)
        import types

        def imp(name, *a, **k):
            if name == "coffe":
                return types.SimpleNamespace(Coffe=Stand)
            if name == "numpy":
                return NP()
            return __import__(name, *a, **k)
        b = layer.W.builtins()
        b["__import__"] = imp
        ns = {"__builtins__": b, "__name__": "coffe.__main__"}
        exec(code, ns)
        ns["compute_output"](types.SimpleNamespace(settings="in", output="out", kind=kind))
        return dict(saved)
    for p, k, r in P.explore(run, limit=8000):
        if k != "return":
            continue
        done += 1
        cf, obj = p.keep
        conds = []
        if "x" not in r or r["x"][0] != "out":
            conds.append(("nothing written", z3.BoolVal(True)))
        else:
            f, data, header, kw = r["x"]
            head = [h.split("[")[0].split(")")[-1] for h in header.split("\t")]
            if kind == "bg":
                zs = NP().linspace(0, 15, 4)
                if sorted(head) != sorted(BGCOL) or len(data) != 4:
                    conds.append(("columns %s, %d rows" % (head, len(data)), z3.BoolVal(True)))
                rows = [{h: (z if BGCOL.get(h) is None else getattr(obj, BGCOL[h])(z)) for h in head} for z in zs]
            else:
                fields = RESULT[KINDS[kind]][1]
                names = ["value" if h.endswith("value") else h for h in head]
                if sorted(names) != sorted(fields):
                    conds.append(("columns %s" % head, z3.BoolVal(True)))
                rows = expected_rows(cf, obj, RESULT[KINDS[kind]][0], fields)
                rows = [{h: w.get("value" if h.endswith("value") else h) for h in head} for w in rows]
                fm = kw.get("fmt")
                if isinstance(fm, list):
                    for h, s in zip(head, fm):
                        if "d" in s.lower() and not h.startswith("l"):
                            conds.append(("column %s loses its digits" % h, z3.BoolVal(True)))
            if len(data) != len(rows):
                conds.append(("%d rows for %d entries" % (len(data), len(rows)), z3.BoolVal(True)))
            else:
                for i, (x, w) in enumerate(zip(data, rows)):
                    if len(x) != len(head):
                        conds.append(("%d columns, %d headers" % (len(x), len(head)), z3.BoolVal(True)))
                        continue
                    for h, v in zip(head, x):
                        c = differs(v, w[h])
                        if c is not None:
                            conds.append(("column %s of row %d" % (h, i), c))
        for t, c in conds:
            q, m = inc(chk, p, c)
            if q == "sat":
                cand.append(t)
            elif q == "unknown":
                chk.undecide(nm, "solver: " + t)
        chk.queries += p.queries + 1
    chk.samples.append({"kind": kind, "paths": done})
    if not done:
        chk.undecide(nm, "no path returns")
    elif not cand:
        chk.ok(nm, "%d paths" % done)
    else:
        hit = replay_cols(chk, "", kind, [])
        if hit:
            chk.violated(nm, "%s. Real run: %s, %s" % (cand[0], hit[0], hit[1]), key=kind)
        else:
            chk.undecide(nm, "candidate not reproduced: %s" % cand[:3])


# ------------------------------------------------------------------ point queries
POINT = DRIVER + r'''
job = json.loads(sys.argv[1])
def fail(*a):
    print("FOUND " + json.dumps([str(x)[:300] for x in a]), flush=True)
    sys.exit(0)
for v in job["variants"]:
    c = base(dict(v, user=1))
    q = job["op"]
    k = np.logspace(-4, 1.0, 300); x = k / 0.02
    P = dict(zip(k, 1e4 * x / (1 + x**3) / (1 + x)))
    D = c.growth_factor
    near = lambda a, b: abs(a - b) <= 2e-5 * abs(b) + 1e-12
    if q == "power_spectrum":
        for kk in list(P)[50:250:40]:
            for z in (0.0, 1.3):
                if not near(c.power_spectrum(float(kk), z), P[kk] * D(z)**2): fail("k=%r z=%r" % (kk, z), "%r instead of P(k) D1(z)^2 = %r" % (c.power_spectrum(float(kk), z), P[kk] * D(z)**2))
    if q == "cross_spectrum":
        for kk in list(P)[50:250:40]:
            for z, w in ((0.0, 1.3), (0.7, 0.2)):
                if not near(c.cross_spectrum(float(kk), z, w), P[kk] * D(z) * D(w)): fail("k=%r z1=%r z2=%r" % (kk, z, w), "%r instead of P(k) D1(z1) D1(z2) = %r" % (c.cross_spectrum(float(kk), z, w), P[kk] * D(z) * D(w)))
    if q == "maximum_separation":
        for z, d in ((1.0, 0.2), (0.5, 0.3)):
            w = 2 * (c.comoving_distance(z + d) - c.comoving_distance(z))
            if not near(c.maximum_separation(z, d), w): fail("z_mean=%r deltaz=%r" % (z, d), "%r instead of %r" % (c.maximum_separation(z, d), w))
    if q == "compute_corrfunc":
        c.mu = [0.2, -0.4]; c.sep = [20.0, 35.0]; c.z_mean = [1.0, 1.4]; c.deltaz = [0.2, 0.1]
        for e in c.compute_corrfunc_bulk():
            w = c.compute_corrfunc(z=e.z, r=e.r, mu=e.mu)
            if not near(w, e.value): fail("z=%r r=%r mu=%r" % (e.z, e.r, e.mu), "%r instead of %r" % (w, e.value))
    if q == "compute_multipole":
        c.l = [0, 1, 2]; c.sep = [20.0, 35.0]; c.z_mean = [1.0, 1.4]; c.deltaz = [0.2, 0.1]
        for e in c.compute_multipoles_bulk():
            w = c.compute_multipole(z=e.z, r=e.r, l=e.l)
            if abs(w - e.value) > 1e-3 * abs(e.value) + 1e-9: fail("z=%r r=%r l=%r" % (e.z, e.r, e.l), "%r instead of %r" % (w, e.value))
    if q == "integral":
        from scipy.integrate import quad
        from scipy.special import spherical_jn
    h = 1e-3
    if q in ("scale_factor", "hubble_rate", "hubble_rate_conformal", "hubble_rate_conformal_derivative", "comoving_distance", "growth_factor", "growth_rate"):
        p = {n: getattr(c, n) for n in ("scale_factor", "hubble_rate", "hubble_rate_conformal", "hubble_rate_conformal_derivative", "comoving_distance", "growth_factor", "growth_rate")}
        H0 = c.h / 2997.92458
        for z in (0.2, 1.3, 3.0):
            a = 1 / (1 + z)
            H = H0 * np.sqrt(c.omega_m / a**3 + c.omega_gamma / a**4 + c.omega_de)
            dH = (p["hubble_rate_conformal"](z + h) - p["hubble_rate_conformal"](z - h)) / 2 / h
            want = {"scale_factor": a, "hubble_rate": H, "hubble_rate_conformal": a * H, "hubble_rate_conformal_derivative": -H * dH,
                    "comoving_distance": sum(0.5 * (1 / np.interp(x, [x], [H0 * np.sqrt(c.omega_m * (1 + x)**3 + c.omega_gamma * (1 + x)**4 + c.omega_de)]) + 1 / (H0 * np.sqrt(c.omega_m * (1 + x + z / 2000)**3 + c.omega_gamma * (1 + x + z / 2000)**4 + c.omega_de))) * z / 2000 for x in np.arange(2000) * z / 2000)}
            if q in want:
                got = p[q](z)
                if abs(got - float(np.ravel(want[q])[0])) > 3e-3 * abs(got): fail("z=%r" % z, "%r instead of %r" % (got, want[q]))
        if q == "growth_factor" and (abs(p[q](0.0) - 1) > 1e-3 or not p[q](1.0) < 0.75 or not p[q](1.0) > 0.4): fail("z=0, 1", "%r %r is not the growth factor" % (p[q](0.0), p[q](1.0)))
        if q == "growth_rate":
            for z in (0.2, 1.3):
                w = -(1 + z) * (np.log(p["growth_factor"](z + h)) - np.log(p["growth_factor"](z - h))) / 2 / h
                if abs(p[q](z) - w) > 1e-2 * w: fail("z=%r" % z, "%r instead of %r" % (p[q](z), w))
    for n in ("galaxy_bias1", "galaxy_bias2", "galaxy_bias3", "galaxy_bias4", "magnification_bias1", "magnification_bias2", "evolution_bias1", "evolution_bias2"):
        if q == n:
            xs = [0.1 * i for i in range(100)]
            getattr(c, "set_" + n)(xs, [0.3 + x * x for x in xs])
            if not near(getattr(c, n)(1.7), 0.3 + 1.7**2): fail("z=1.7", "%r instead of %r" % (getattr(c, n)(1.7), 0.3 + 1.7**2))
    if q == "integral":
        for n, l in ((0, 0), (0, 2), (0, 4), (1, 1), (1, 3), (2, 0), (2, 2), (3, 1)):
            r = 30.0
            lk = np.linspace(np.log(k[0]), np.log(k[-1]), 60000); kk = np.exp(lk); y = kk / 0.02; p = 1e4 * y / (1 + y**3) / (1 + y)
            # the library tabulates k^2 P j_l(kr) / (kr)^n / 2 pi^2
            f = kk**3 * p * spherical_jn(l, kk * r) / (kk * r)**n / 2 / np.pi**2
            w = float(np.sum(0.5 * (f[1:] + f[:-1])) * (lk[1] - lk[0]))
            got = c.integral(r=r, n=n, l=l)
            if abs(got - w) > 2e-2 * abs(w) + 1e-6: fail("r=%r n=%r l=%r" % (r, n, l), "%r instead of %r" % (got, w))
print("DONE")
'''
BGNAME = {"comoving_distance": "comoving_distance", "hubble_rate": "Hz", "scale_factor": "a", "hubble_rate_conformal": "conformal_Hz",
          "hubble_rate_conformal_derivative": "conformal_Hz_prime", "growth_factor": "D1", "growth_rate": "f"}


def Y07(chk):
    layer = Layer(chk)
    props, meths = layer.members()
    chk.functions["coffe.pyx:Coffe"] = 1
    chk.bounds.append("one call from an arbitrary state, any arguments the query accepts; interpolants and the line-of-sight integrator are uninterpreted functions")
    chk.assumptions.append("the tabulated functions themselves are B01 (background) and I01 (integrals), the integrator is A01")
    names = [n for n in list(BGNAME) + ["power_spectrum", "cross_spectrum", "maximum_separation", "integral", "compute_corrfunc", "compute_multipole"]
             + [m for m in meths if "bias" in m and not m.startswith("set_") and m[-1].isdigit()]]
    groups = [names[i::8] for i in range(8)]
    parallel(chk, [("group %d" % i, run_group, ([(n, point_job, (layer, n)) for n in g],)) for i, g in enumerate(groups)])


def point_job(chk, layer, name):
    nm = "%s returns the quantity it names" % name
    e = layer.lay.enums

    def R(n):
        return P.SymNum(z3.Real(n), "float")
    z, w, k, r, mu, l = R("qz"), R("qz2"), R("qk"), R("qr"), R("qmu"), P.SymNum(z3.Int("ql"), "int")
    args = {"power_spectrum": dict(k=k, z=z), "cross_spectrum": dict(k=k, z1=z, z2=w), "maximum_separation": dict(z_mean=z, deltaz=w),
            "integral": None, "compute_corrfunc": dict(z=z, r=r, mu=mu), "compute_multipole": dict(z=z, r=r, l=l)}
    combos = [dict(r=r, n=n, l=m) for n in range(-2, 5) for m in range(0, 5)] if name == "integral" else [args.get(name, dict(z=z))]
    done, cand = 0, []

    def bg(cf, obj, f, x):
        return P.term(getattr(obj._background, f).spline(x), True)
    for kw in combos:
        def run(p):
            g, cf, obj = layer.state(p, nlist=1)
            p.keep = cf, obj
            return getattr(obj, name)(**kw)
        for p, kind, res in P.explore(run, limit=8000):
            if kind != "return":
                continue
            done += 1
            cf, obj = p.keep
            conds = [(f, z3.BoolVal(True)) for f in set(cf.faults)]
            try:
                if name in BGNAME:
                    want = bg(cf, obj, BGNAME[name], z)
                elif name in ("power_spectrum", "cross_spectrum"):
                    par = obj._parameters
                    lin = P.term(par.pk_type) == e["COFFE_PK_LINEAR"]
                    want = P.term(par.power_spectrum.spline(k), True) * bg(cf, obj, "D1", z) * bg(cf, obj, "D1", z if name[0] == "p" else w)
                    if name[0] == "p":
                        f2 = z3.Function("spline2d_power_spectrum2d", z3.RealSort(), z3.RealSort(), z3.RealSort())
                        want = z3.If(lin, want, f2(z.t, k.t))
                elif name == "maximum_separation":
                    want = 2 * (bg(cf, obj, "comoving_distance", z + w) - bg(cf, obj, "comoving_distance", z))
                elif name == "integral":
                    want = P.term(P.Spline("integral(%s,%s)" % (kw["n"], kw["l"]), size=10)(r), True)
                elif name in ("compute_corrfunc", "compute_multipole"):
                    mp = name == "compute_multipole"
                    want = 0
                    parts = [e[x] for x in ("NONINTEGRATED", "SINGLE_INTEGRATED", "DOUBLE_INTEGRATED")]
                    out = e["MULTIPOLES" if mp else "CORRFUNC"]
                    for part in parts:
                        f = z3.Function("part_%s_%s" % (part, out), *([z3.RealSort()] * 5), z3.IntSort(), z3.RealSort())
                        zero = z3.RealVal(0)
                        want = want + f(z.t, zero, zero, r.t, zero if mp else mu.t, l.t if mp else z3.IntVal(0))
                else:
                    want = P.term(obj._parameters.get(name).spline(z), True)
                c = differs(res, P.SymNum(want, "float"))
                if c is not None:
                    conds.append(("value", c))
            except P.Unsupported as x:
                chk.undecide(nm, x)
            for t, c in conds:
                q, m = inc(chk, p, c)
                if q == "sat":
                    cand.append(t)
                elif q == "unknown":
                    chk.undecide(nm, "solver: " + t)
            chk.queries += p.queries + 1
    chk.samples.append({"query": name, "paths": done})
    if not done:
        chk.undecide(nm, "no path returns")
    elif not cand:
        chk.ok(nm, "%d paths" % done)
    else:
        rc, out, err = run_job(POINT, {"op": name, "variants": VARIANTS[:3]})
        chk.replays.append(name)
        for line in out.split("\n"):
            if line.startswith("FOUND "):
                chk.violated(nm, "%s. Real run: %s(%s): %s" % (cand[0], name, *json.loads(line[6:])), key=name)
                return
        chk.undecide(nm, "candidate not reproduced: %s %s" % (cand[:3], err[-200:]))


# ------------------------------------------------------------------ kind of output
MODE = DRIVER + r'''
job = json.loads(sys.argv[1])
def fail(*a):
    print("FOUND " + json.dumps([str(x)[:300] for x in a]), flush=True)
    sys.exit(0)
L = (0, 2)
X, W = np.polynomial.legendre.leggauss(24)
def make(opt, on=("has_lensing",)):
    c = base({"user": 1})
    c.has_density = "has_density" in on
    c.has_rsd = False
    for n in on: setattr(c, n, True)
    c.has_flatsky_nonlocal = "nonlocal" in opt
    c.has_flatsky_local_nonlocal = "mixed" in opt
    c.z_mean = [1.0]; c.deltaz = [0.1]; c.z_min = [0.98]; c.z_max = [1.02]; c.l = list(L); c.sep = [40.0, 90.0]; c.mu = [0.1, 0.4]
    return c
CALLS = {
 "compute_corrfunc": lambda c: [[c.compute_corrfunc(z=1.0, r=r, mu=m) for m in (0.1, 0.4)] for r in (40.0, 90.0)],
 "compute_corrfunc_bulk": lambda c: [[[e.value for e in c.compute_corrfunc_bulk() if e.mu == m and e.r == r][0] for m in (0.1, 0.4)] for r in (40.0, 90.0)],
 "compute_multipole": lambda c: [[c.compute_multipole(z=1.0, r=r, l=l) for l in L] for r in (40.0, 90.0)],
 "compute_multipoles_bulk": lambda c: [[[e.value for e in c.compute_multipoles_bulk() if e.l == l and e.r == r][0] for l in L] for r in (40.0, 90.0)],
 "compute_average_multipoles_bulk": lambda c: [[[e.value for e in c.compute_average_multipoles_bulk() if e.l == l and e.r == r][0] for l in L] for r in (40.0, 90.0)],
}
def covariance(c):
    return [e.value for e in c.compute_covariance_bulk()] + [e.value for e in c.compute_average_covariance_bulk()]
def proj(c):
    out = []
    for r in (40.0, 90.0):
        v = [c.compute_corrfunc(z=1.0, r=r, mu=float(x)) for x in X]
        out.append([(2 * l + 1) / 2 * sum(w * y * np.polynomial.legendre.Legendre.basis(l)(x) for w, y, x in zip(W, v, X)) for l in L])
    return out
def far(a, b, tol):
    a = np.array(a, dtype=float); b = np.array(b, dtype=float)
    return np.max(np.abs(a - b)) > tol * np.max(np.abs(b))
for opt, on in (("nonlocal", ("has_lensing",)), ("mixed", ("has_lensing", "has_density"))):
    ref = {}
    def only(c, f):
        # density-lensing: what either adds alone is taken off
        v = np.array(f(c), dtype=float)
        if "has_density" in on:
            for o in on:
                v = v - np.array(f(make(opt, (o,))), dtype=float)
        return v
    ref = {n: only(make(opt, on), f) for n, f in CALLS.items()}
    where = "plane-parallel options: %s" % (opt or "none")
    for n, v in ref.items():
        if not np.all(np.isfinite(v)) or np.max(np.abs(v)) == 0: fail(where, n, "lensing adds nothing: %s" % v)
    if far(ref["compute_corrfunc_bulk"], ref["compute_corrfunc"], 1e-2): fail(where, "compute_corrfunc differs from compute_corrfunc_bulk", ref["compute_corrfunc"], ref["compute_corrfunc_bulk"])
    if far(ref["compute_multipoles_bulk"], ref["compute_multipole"], 1e-2): fail(where, "compute_multipole differs from compute_multipoles_bulk", ref["compute_multipole"], ref["compute_multipoles_bulk"])
    pr = only(make(opt, on), proj)
    if opt and far(ref["compute_multipoles_bulk"], pr, 0.15): fail(where, "multipoles are not the projection of the correlation function", ref["compute_multipoles_bulk"], pr)
    d = make("", ("has_density",))
    # the weight of the average, from a contribution without options
    d = CALLS["compute_average_multipoles_bulk"](d)[0][0] / CALLS["compute_multipoles_bulk"](d)[0][0]
    if opt and far(ref["compute_average_multipoles_bulk"] / d, ref["compute_multipoles_bulk"], 0.2): fail(where, "redshift-averaged multipoles of a thin bin differ from the multipoles", ref["compute_average_multipoles_bulk"], ref["compute_multipoles_bulk"])
    if opt != "nonlocal": continue
    # every order of two requests, with contributions that are integrated numerically next to the plane-parallel ones
    on2 = ("has_lensing", "has_g4")
    cov0 = covariance(make(opt, on2))
    ref = {n: np.array(f(make(opt, on2)), dtype=float) for n, f in CALLS.items()}
    for first in list(CALLS) + ["covariance"]:
        for again in (0, 1):
            if again and first not in ("compute_corrfunc", "covariance"): continue
            c = make(opt, on2)
            (covariance if first == "covariance" else CALLS[first])(c)
            for n, f in CALLS.items():
                if n == first: continue
                if again:
                    power(c)
                    print("AT " + json.dumps([where, "%s after %s and a new power spectrum" % (n, first)]), flush=True)
                a = np.array(f(c), dtype=float); b = ref[n]
                if far(a, b, 1e-6): fail(where, "%s after %s" % (n, first), a.tolist(), b.tolist())
            if far(covariance(c), cov0, 1e-6): fail(where, "covariance after %s" % first)
print("DONE")
'''


MODE_RUN = []


def Y06(chk):
    layer = Layer(chk)
    chk.functions["coffe.pyx:Coffe"] = 1
    chk.bounds.append("one request or assignment from an arbitrary state (every product computed before or not), any arguments accepted; "
                      "the mode in between requests is the one of a new object, which every request is shown to restore")
    chk.assumptions.append("what each mode evaluates is S06, A01 and I01")
    ops = [(n, lab, f) for n, lab, f in queries(layer)]
    sets = operations(layer)
    nw = 8
    jobs = [("mode of " + n, mode_job, (layer, n, f)) for n, lab, f in ops] + \
        [("mode after setting " + n + " " + lab, mode_job, (layer, n, f)) for n, lab, f in sets]
    heavy = [j for j in jobs if "compute_" in j[0]]
    light = [j for j in jobs if j not in heavy]
    parts = [heavy[i::nw] + light[i::nw] for i in range(nw)]
    parallel(chk, [("group %d" % i, run_group, (g,)) for i, g in enumerate(parts)])


def mode_job(chk, layer, name, f):
    nm = "%s: evaluated in the mode of its output, mode restored" % name
    e = layer.lay.enums
    M = e["MULTIPOLES"]
    done, cand, seen = 0, [], set()

    def run(p):
        g, cf, obj = layer.state(p, nlist=1, sizes=(0, 1))
        obj._parameters.put("output_type", M)
        p.keep = cf, obj
        return f(obj, p)
    for p, kind, r in P.explore(run, limit=8000):
        cf, obj = p.keep
        done += 1
        bad = []
        if obj._parameters.output_type != M:
            bad.append("leaves the output type changed")
        for who, t, want in cf.modes:
            seen.add(who)
            if who == "coffe_integrals_init" and t != M:
                bad.append("tables of the multipoles not requested")
            if want is not None and (t == M) != (want == M):
                bad.append("%s for output %s while %s is selected" % (who, want, t))
        if bad:
            q, m = inc(chk, p, z3.BoolVal(True))
            if q == "sat":
                cand += bad
            elif q == "unknown":
                chk.undecide(nm, "solver: " + bad[0])
        chk.queries += p.queries
    chk.samples.append({"request": name, "paths": done, "evaluations": sorted(seen)})
    if not done:
        chk.undecide(nm, "no path")
    elif not cand:
        chk.ok(nm, "%d paths" % done)
    else:
        if not MODE_RUN:
            MODE_RUN.append(run_job(MODE, {}, timeout=500))
        rc, out, err = MODE_RUN[0]
        chk.replays.append(name)
        for line in out.split("\n"):
            if line.startswith("FOUND "):
                chk.violated(nm, "%s. Real run: %s" % (cand[0], "; ".join(json.loads(line[6:]))), key=name)
                return
        if rc < 0:
            at = [line[3:] for line in out.split("\n") if line.startswith("AT ")]
            chk.violated(nm, "%s. The real run ends with signal %d%s" % (cand[0], -rc, ": " + at[-1] if at else ""), key=name)
            return
        chk.undecide(nm, "candidate not reproduced: %s %s" % (cand[:3], err[-300:]))
