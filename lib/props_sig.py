"""S01-S06: the two-point integrands (functions.c)."""
import itertools

import sig
from sig import *
from core import guarded

PAIRS = list(itertools.combinations_with_replacement(FLAGS, 2))
ALLFLAT = dict(flatsky_local=1, flatsky_local_nonlocal=1, flatsky_nonlocal=1)


def base(chk):
    chk.stubs.update(["GSL spline evaluation (uninterpreted functions of their argument; the 2-d renormalisation table symmetric, see I02)",
                      "libm sqrt/pow (uninterpreted where not polynomial)", "gsl_sf_legendre_P*, gsl_sf_fact, gsl_sf_choose (exact polynomials / integers)"])
    chk.assumptions += ["doubles are modelled as exact reals", "CLASS and CUBA code paths are not compiled in this build and lie outside the encoding"]


def S01(chk):
    base(chk)
    chk.bounds += ["all 10 single and 45 two-contribution selections, full sky and plane-parallel; together with S02 this covers every selection",
                   "positive separation, generic geometry (r2 > 1e-12), any redshift, angle, biases and background"]
    s = Sig(chk)
    for flat in (False, True):
        kw = ALLFLAT if flat else {}
        for k in (0, 1, 2):
            for fl in [(f,) for f in FLAGS] + list(itertools.combinations(FLAGS, 2)):
                if not any(s.kind(a, b) == k for a in fl for b in fl):
                    continue
                name = "%s %s%s" % (FUNC[k][10:], "+".join(fl), " flat" if flat else "")
                guarded(chk, name, exchange, s, name, k, fl, dict(kw, only_cross_correlations=1) if len(fl) == 2 else kw)


def exchange(s, name, k, fl, kw):
    e = s.env(fl, **kw)
    ex = e.ex
    chi, chis, ct = s.geometry(e)
    ex.assume_sign(sep, ">")
    flat = bool(kw.get("flatsky_local"))
    if flat:
        ex.assume_sign(mu, ">")
    xs = [x1, x2][:k]
    if k == 1:
        s.theory_pair(e, "den", "len", chis, ct)
    if k == 2:
        s.theory_pair(e, "len", "len", chis, ct)
    e2 = Env(s.M, s.L, ints(fl, **kw), nl=ALL_NL, swap=True, ex=ex)
    # both programs read the same symbolic universe; the second sees the populations exchanged

    def run(env, m, x):
        ex.stubs.update({"gsl_spline_eval": env.s_spline, "gsl_spline2d_eval": env.s_spline2d})
        return s.call(env, k, [zm, m, sep], x)
    a = run(e, mu, xs)
    b = run(e2, -mu, xs[::-1])
    sym = flat and k == 2 and fl == ("len",)
    if sym:
        # the plane-parallel integrand depends on one fraction only: compare the symmetrised integrands
        c = run(e2, -mu, xs)
        d = run(e, mu, xs[::-1])
        a, b = a + d, b + c

    def replay(pts):
        return s.native([(k, fl, kw, False, [p[n] for n in s.argnames(k)]) for p in pts])

    def replay_flat(pts):
        u = s.native([(k, fl, kw, False, [p["z_mean"], p["mu"], p["sep"], p["x1"], p["x2"]]) for p in pts])
        v = s.native([(k, fl, kw, False, [p["z_mean"], p["mu"], p["sep"], p["x2"], p["x1"]]) for p in pts])
        return [None if x is None or y is None else x + y for x, y in zip(u, v)]
    s.equal(name, e, a, b, [], replay_flat if sym else replay, key=name,
            detail="exchanging the two populations and the orientation changes the result")


# ------------------------------------------------------------------------ S02
def has_flag(x, memo):
    i = x.get_id()
    if i in memo:
        return memo[i]
    n = x.decl().name() if x.num_args() == 0 else ""
    memo[i] = n.startswith("flag_") or n == "only_cross" or any(has_flag(c, memo) for c in x.children())
    return memo[i]


LIN = {}


def lin(x, memo):
    k = x.get_id()
    if k not in LIN:
        LIN[k] = (x, lin_(x, memo))
    return LIN[k][1]


def lin_(x, memo):
    """x as a list of (guard, opaque term): sum of ite(guard, term, 0)"""
    T = z3.BoolVal(True)
    if not has_flag(x, memo):
        return [(T, x)]
    k = x.decl().kind()
    if k == z3.Z3_OP_ITE:
        c, a, b = x.children()
        if has_flag(c, memo):
            A, B = lin(a, memo), lin(b, memo)
            key = lambda p: (p[0].get_id(), p[1].get_id())
            kb = {}
            for p in B:
                kb.setdefault(key(p), []).append(p)
            out = []
            for p in A:
                q = kb.get(key(p))
                if q:
                    q.pop()
                    out.append(p)
                else:
                    out.append((z3.And(c, p[0]), p[1]))
            for q in kb.values():
                out += [(z3.And(z3.Not(c), g), t) for g, t in q]
            return out
    if k == z3.Z3_OP_ADD:
        return [p for c in x.children() for p in lin(c, memo)]
    if k == z3.Z3_OP_UMINUS:
        return [(g, -t) for g, t in lin(x.arg(0), memo)]
    if k == z3.Z3_OP_SUB:
        ch = x.children()
        out = list(lin(ch[0], memo))
        for c in ch[1:]:
            out += [(g, -t) for g, t in lin(c, memo)]
        return out
    if k == z3.Z3_OP_MUL:
        w = [c for c in x.children() if has_flag(c, memo)]
        r = [c for c in x.children() if not has_flag(c, memo)]
        if len(w) == 1:
            f = r[0] if r else None
            for c in r[1:]:
                f = f * c
            return [(g, t if f is None else f * t) for g, t in lin(w[0], memo)]
        out = [(z3.BoolVal(True), z3.RealVal(1))]
        for c in x.children():
            out = [(z3.And(g, h), t * u) for g, t in out for h, u in lin(c, memo)]
            if len(out) > 400:
                raise Unsupported("too many products of selections")
        return out
    raise Unsupported("selection flag inside " + x.decl().name())


def S02(chk):
    base(chk)
    chk.bounds += ["all 2^10 contribution selections, both settings of the cross-only option, eight plane-parallel settings: one query per integrand with the selection symbolic",
                   "values of the individual terms are opaque (any reals)"]
    s = Sig(chk)
    for k in (0, 1, 2):
        for fs in itertools.product((0, 1), repeat=3):
            for out in (1, 2):
                name = "%s flat=%d%d%d output=%d" % (FUNC[k][10:], *fs, out)
                guarded(chk, name, additive, s, name, k, fs, out)


def additive(s, name, k, fs, out):
    chk = s.chk
    kw = dict(zip(("flatsky_local", "flatsky_local_nonlocal", "flatsky_nonlocal"), fs))
    kw["output_type"] = s.L.enums["CORRFUNC" if out == 1 else "MULTIPOLES"]
    d = ints((), **kw)
    fv = {f: z3.BitVec("flag_" + f, 32) for f in FLAGS}
    oc = z3.BitVec("only_cross", 32)
    for f in FLAGS:
        d["correlation_contrib." + f] = fv[f]
    d["only_cross_correlations"] = oc
    e = Env(s.M, s.L, d, nl=ALL_NL)
    ex = e.ex
    s.region(e, k)
    chi, chis, ct = s.geometry(e)
    if k == 1:
        s.theory_pair(e, "den", "len", chis, ct)
    if k == 2:
        s.theory_pair(e, "len", "len", chis, ct)
    r = s.call(e, k, xs=[x1, x2][:k])
    if not isz(r):
        r = toz(r)
    LIN.clear()
    parts = lin(r, {})
    # opaque terms, equal polynomials share a name
    opq = {}
    total = []
    for g, t in parts:
        n = ex.nf(t)
        if z3.is_rational_value(n):
            total.append((g, n))
            continue
        key = n.sexpr()
        v = opq.setdefault(key, z3.Real("T%d" % len(opq)))
        total.append((g, v))
    R = z3.Sum([z3.If(g, v, z3.RealVal(0)) for g, v in total]) if total else z3.RealVal(0)
    bit = lambda b: z3.BitVecVal(1 if b else 0, 32)

    def at(sel, cross):
        return z3.substitute(R, *[(fv[f], bit(f in sel)) for f in FLAGS], (oc, bit(cross)))
    spec = []
    for f in FLAGS:
        spec.append(z3.If(z3.And(fv[f] == 1, oc == 0), at((f,), 0), z3.RealVal(0)))
    for a, b in itertools.combinations(FLAGS, 2):
        spec.append(z3.If(z3.And(fv[a] == 1, fv[b] == 1), at((a, b), 1), z3.RealVal(0)))
    dom = [z3.ULE(v, 1) for v in list(fv.values()) + [oc]]
    # a single contribution contributes nothing when only cross terms are wanted
    q = [z3.Or(R != z3.Sum(spec), z3.Or([at((f,), 1) != 0 for f in FLAGS]))]
    res, m = chk.solve(dom + q, 60000, want_model=True)
    chk.extra["opaque_terms"] = max(chk.extra.get("opaque_terms", 0), len(opq))
    if res == "unsat":
        chk.ok(name)
        return
    if res != "sat":
        chk.undecide(name, res)
        return
    sel = tuple(f for f in FLAGS if m.eval(fv[f], True).as_long() == 1)
    cross = m.eval(oc, True).as_long()
    # replay: the compiled program at a few points
    cands = [(sel, cross)] + [((f,), 1) for f in FLAGS]
    pts = [dict(z_mean=0.9, mu=0.4, sep=0.15, x1=0.55, x2=0.7), dict(z_mean=1.4, mu=0.75, sep=0.05, x1=0.3, x2=0.4)]
    for sel, cross in cands:
        for p in pts:
            args = [p[n] for n in s.argnames(k)]
            calls = [(k, sel, dict(kw, only_cross_correlations=cross), False, args)]
            if not (len(sel) == 1 and cross):
                if not cross:
                    calls += [(k, (f,), dict(kw, only_cross_correlations=0), False, args) for f in sel]
                calls += [(k, ab, dict(kw, only_cross_correlations=1), False, args) for ab in itertools.combinations(sel, 2)]
            v = s.native(calls)
            if any(x is None for x in v):
                continue
            scale = max(abs(x) for x in v)
            if abs(v[0] - math.fsum(v[1:])) > 1e-7 * scale and scale > 0:
                chk.replays.append(name)
                chk.violated(name, "selection %s (cross-only=%d): result %.10g is not the sum %.10g of its parts" % ("+".join(sel), cross, v[0], math.fsum(v[1:])),
                             "inputs %r\nflags %r" % (p, kw), name)
                return
    chk.undecide(name, "solver counterexample not reproduced: %s cross=%d" % (sel, cross))


# ------------------------------------------------------------------- S03, S04
def _theory(chk, want):
    base(chk)
    chk.bounds += ["contribution pairs one at a time (their sum is covered by S02), both orientations and the two populations distinct",
                   "positive separation, 0 < mu < 0.999, distinct source positions; every value of redshift, separation, angle, line-of-sight fractions, "
                   "biases, background and power-spectrum integrals", "the two mirror-image orientations are related by S01"]
    chk.assumptions.append("the tabulated integrals obey the spherical-Bessel recurrence I(n,l-1)+I(n,l+1)=(2l+1)I(n+1,l)")
    s = Sig(chk)
    for X, Y in PAIRS:
        if want(s.kind(X, Y)):
            guarded(chk, "%s-%s" % (X, Y), s.pair_theory, X, Y)


def S03(chk):
    _theory(chk, lambda k: k == 0)


def S04(chk):
    _theory(chk, lambda k: k > 0)
    s = Sig(chk)
    for X, Y in PAIRS:
        if "len" in (X, Y) and s.kind(X, Y) == 1:
            guarded(chk, "%s-%s parallel" % (X, Y), s.pair_parallel, X, Y)


def S05(chk):
    base(chk)
    L = (0, 2, 4, 6) if chk.tier == "quick" else (0, 2, 4, 6, 8, 10)
    chk.bounds += ["plane-parallel option on; every mean redshift, angle and separation; multipoles l in %s, power series in (k r) to order 16" % (L,)]
    chk.assumptions += ["a = 1/(1+z) (property B01)"]
    s = Sig(chk)
    for X, Y in itertools.combinations_with_replacement(("den", "rsd", "d1"), 2):
        guarded(chk, "flat %s-%s" % (X, Y), sig.flat_local, s, X, Y)
    guarded(chk, "flat den-len", sig.flat_den_len, s)
    for X in ("rsd", "d1"):
        guarded(chk, "flat zero", sig.flat_zero, s, X)
    guarded(chk, "flat len-len", sig.flat_len_len, s)
    for w in ("len-len", "den-len"):
        for l in L:
            guarded(chk, "flat multipole", sig.flat_multipole, s, w, l)


def S06(chk):
    base(chk)
    chk.bounds += ["exactly coinciding source positions: zero separation, or aligned lines of sight meeting at one depth; all 55 contribution pairs"]
    s = Sig(chk)
    for X, Y in PAIRS:
        for case in {0: ["local"], 1: ["r21", "r22", "both", "sep0"], 2: ["double"]}[s.kind(X, Y)]:
            guarded(chk, "%s-%s:%s" % (X, Y, case), s.pair_degenerate, X, Y, case)
