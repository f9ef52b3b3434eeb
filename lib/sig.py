"""Shared machinery for the properties of the two-point integrands
(src/functions.c): one symbolic run of the real function, an independent
specification, a solver query, and replay of a disagreement on compiled code."""
import random
import time
from fractions import Fraction

import z3

import repo
from env import *
from symex import *
from theory import Theory
from world import World, Native

Q = Fraction
LOC = ["den", "rsd", "d1", "d2", "g1", "g2", "g3"]
INT = ["len", "g4", "g5"]
FUNC = {0: "functions_nonintegrated", 1: "functions_single_integrated", 2: "functions_double_integrated"}
mu, sep, zm, x1, x2 = [z3.Real(n) for n in ("mu", "sep", "z_mean", "x1", "x2")]
ONE = z3.RealVal(1)
INPUTS = ("z_mean", "mu", "sep", "x1", "x2")


def ints(fl, **kw):
    d = {"correlation_contrib." + f: int(f in fl) for f in FLAGS}
    d.update(dict(only_cross_correlations=0, flatsky_local=0, flatsky_local_nonlocal=0, flatsky_nonlocal=0, output_type=1,
                  divergent=1, b_derivative=0, f_derivative=0, b_tilde_derivative=0, f_tilde_derivative=0))
    d.update(kw)
    return d


class Sig:
    def __init__(self, chk, L=None, M=None):
        self.chk = chk
        self.L = L or repo.Layout()
        self.M = M or repo.module()
        self.world = World()

    def env(self, fl, swap=False, ex=None, **kw):
        return Env(self.M, self.L, ints(fl, **kw), nl=ALL_NL, swap=swap, ex=ex)

    def geometry(self, e, mu=mu, sep=sep, mu_region="inner"):
        ex = e.ex
        chi = ex.uf("bg.comoving_distance", zm)
        c1, c2 = chi - sep * mu / 2, chi + sep * mu / 2
        d = 2 * chi * chi - mu * mu * sep * sep / 2
        ct = (2 * chi * chi - sep * sep + mu * mu * sep * sep / 2) * toz(ex.mkinv(d))
        return chi, (c1, c2), ct

    def region(self, e, kind, inner=True):
        """generic separations: sep>0, 0<mu<0.999, light cones apart"""
        ex = e.ex
        ex.assume_sign(sep, ">")
        if inner:
            ex.assume_sign(mu, ">")
            ex.assume_sign(mu - toz(Q(999, 1000)), "<")

    def call(self, e, kind, args=None, xs=()):
        fn = FUNC[kind]
        a = args or [zm, mu, sep]
        r, st = e.ex.call(e.st, fn, [e.par, e.bg, e.integral] + list(a) + list(xs))
        self.chk.use(e.ex)
        return toz(r)

    # ------------------------------------------------------------- decisions
    def axioms(self, ex, rules=()):
        c = [z3.Real(n) * d == 1 for n, d in ex.inv.items()]
        c += [a == b for a, b in rules]
        c += list(ex.sign_list)
        return c

    def clear(self, ex, p):
        """multiply out reciprocals of sums"""
        p = dict(p)
        while True:
            ids = {a for m in p for a, n in m if ex.atomlist[a].decl().name() in ex.inv
                   and ex.inv[ex.atomlist[a].decl().name()].num_args() > 1}
            if not ids:
                return p
            a = max(ids)
            K = max(dict(m).get(a, 0) for m in p)
            D = ex.poly(ex.inv[ex.atomlist[a].decl().name()])
            pw = [{(): Fraction(1)}]
            for _ in range(K):
                pw.append(ex.pmul(pw[-1], D))
            groups = {}
            for m, c in p.items():
                d = dict(m)
                k = d.pop(a, 0)
                groups.setdefault(k, {})[tuple(sorted(d.items()))] = c
            out = {}
            for k, g in groups.items():
                for m, c in ex.pmul(g, pw[K - k]).items():
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
            p = out

    def equal(self, name, e, code, spec, rules=(), replay=None, key=None, detail="", timeout=12000, sample=None):
        """decide code == spec for every value in the region; replay(point) -> native value"""
        chk, ex = self.chk, e.ex
        rules = [(toz(a), toz(b)) for a, b in rules]
        code, spec = toz(code), toz(spec)
        ax = self.axioms(ex, rules)
        # vacuity: the region must be inhabited
        r, m = chk.solve(ax + [code != spec], timeout, want_model=True)
        if r == "unsat":
            chk.ok(name, "solver: no point of the region disagrees")
            return True
        if r == "unknown":
            p = ex.poly(z3.substitute(code - spec, *rules)) if rules else ex.poly(code - spec)
            p = self.clear(ex, p)
            d = ex.from_poly(p)
            r = chk.solve([d != 0, *ex.sign_list], 5000) if p else chk.solve([z3.RealVal(0) != 0])
            if r == "unsat":
                chk.ok(name, "solver: cleared difference is zero")
                return True
        return self.witness(name, e, code, spec, m, replay, key, detail, sample)

    def thresholds(self, ex, t):
        """rational constants compared with anything, to aim witnesses at branches"""
        out, seen, todo = set(), set(), [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
                for c in x.children():
                    if z3.is_rational_value(c):
                        out.add(float(Fraction(c.numerator_as_long(), c.denominator_as_long())))
            todo += x.children()
            nm = x.decl().name() if x.num_args() == 0 else None
            if nm in ex.bysym:
                todo += [a for a in ex.bysym[nm][1] if isz(a)]
        return sorted(out)

    def points(self, e, m, code, n=300, sample=None):
        if sample and "fixed" in sample:
            yield from sample["fixed"]
            return
        rnd = random.Random(self.chk.seed)
        ths = self.thresholds(e.ex, code)
        dom = {"z_mean": (0.3, 1.8), "mu": (0.05, 0.95), "sep": (0.02, 0.4), "x1": (0.1, 0.9), "x2": (0.1, 0.9)}
        if sample:
            dom = {**dom, **sample}
        if m is not None:
            p = {}
            for v in INPUTS:
                x = m.eval(z3.Real(v))
                if z3.is_rational_value(x):
                    p[v] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            q = {v: p.get(v, sum(dom[v]) / 2) if isinstance(dom[v], tuple) else dom[v] for v in INPUTS}
            yield q
        for i in range(n):
            p = {v: (rnd.uniform(*d) if isinstance(d, tuple) else d) for v, d in dom.items()}
            if ths and i % 3:
                v = rnd.choice([k for k in INPUTS])
                if isinstance(dom[v], tuple):
                    t = rnd.choice(ths)
                    p[v] = abs(t) * rnd.uniform(0.8, 1.2) + rnd.choice((0, 0, 1e-3))
            yield p

    def in_domain(self, p):
        return 0.01 < p["z_mean"] < 4 and 0 <= p["sep"] < 1 and -1 <= p["mu"] <= 1 and 0 <= p["x1"] <= 1 and 0 <= p["x2"] <= 1

    def numeric(self, ex, t, p, cache=None):
        return self.world.ev(t, ex, p, {} if cache is None else cache)

    def witness(self, name, e, code, spec, m, replay, key, detail, sample=None):
        chk, ex = self.chk, e.ex
        found = []
        for p in self.points(e, m, code, sample=sample):
            if not self.in_domain(p):
                continue
            try:
                cache = {}
                if not all(self.numeric(ex, s, p, cache) for s in ex.sign_list):
                    continue
                c, s = self.numeric(ex, code, p, cache), self.numeric(ex, spec, p, cache)
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            if not (abs(c) < 1e300 and abs(s) < 1e300):
                continue
            if abs(c - s) > 2e-3 * max(abs(c), abs(s)) and max(abs(c), abs(s)) > 1e-14:
                found.append((p, c, s))
                if len(found) >= 3:
                    break
        if not found:
            chk.undecide(name, "solver reports a difference but no admissible numeric witness was found")
            return None
        if replay is None:
            chk.undecide(name, "no replay available for the witness %r" % (found[0],))
            return None
        got = replay([f[0] for f in found])
        for (p, c, s), g in zip(found, got):
            if g is None:
                continue
            chk.replays.append(name)
            if abs(g - s) > 1e-3 * max(abs(g), abs(s)) and abs(g - c) <= 1e-3 * max(abs(g), abs(c)):
                chk.violated(name, "%s: compiled code returns %.10g, specification requires %.10g" % (detail or name, g, s),
                             "inputs %r (smooth test universe, lib/world.py)\ncode (compiled) %.17g\ncode (encoded) %.17g\nrequired %.17g"
                             % (p, g, c, s), key)
                return False
        chk.undecide(name, "witness %r not reproduced by the compiled code (%r)" % (found[0], got))
        return None

    def reals(self):
        return {k: self.world.default("par." + k) for k in ("h", "Omega0_cdm", "Omega0_baryon")}

    def native(self, calls):
        """calls: (kind or fn name, flags, kw, swap, point, argnames or literal list)"""
        out = []
        for fn, fl, kw, swap, args in calls:
            out.append((fn if isinstance(fn, str) else FUNC[fn], ints(fl, **kw), self.reals(), swap,
                        ["%.17g" % a if not isinstance(a, str) else a for a in args]))
        rc, vals, err = Native(self.world).run(out, ALL_NL)
        return vals + [None] * (len(out) - len(vals))

    # -------------------------------------------------------------- theory
    def ops(self, ex, X, i, chi, x, z=None):
        """operators of source X of population i at distance chi: (coefficient, n.grad count, Laplacian count), distance"""
        U = ex.uf
        z = U("bg.z_as_chi", chi) if z is None else z
        H0h2 = toz(Fraction(100000, 299792458)) * z3.Real("par.h")
        H0h2 = H0h2 * H0h2
        om = z3.Real("par.Omega0_cdm") + z3.Real("par.Omega0_baryon")
        D = U("bg.D1", z)
        f, H, G = U("bg.f", z), U("bg.conformal_Hz", z), U("bg.G%d" % i, z)
        s, fe = U("par.magnification_bias%d" % i, z), U("par.evolution_bias%d" % i, z)
        ia = toz(ex.mkinv(U("bg.a", z)))
        P = toz(Fraction(3, 2)) * om * H0h2
        if X in LOC:
            o = {"den": lambda: [(D * U("par.galaxy_bias%d" % i, z), 0, 1)],
                 "rsd": lambda: [(D * f, 2, 0)],
                 "d1": lambda: [(D * H * f * G, 1, 0)],
                 "d2": lambda: [(-D * (3 - fe) * H * H * f, 0, 0)],
                 "g1": lambda: [(D * P * ia * (1 + G), 0, 0)],
                 "g2": lambda: [(D * P * ia * (5 * s - 2), 0, 0)],
                 "g3": lambda: [(D * P * ia * (f - 1), 0, 0)]}[X]()
            return o, chi
        lam = chi * x
        zl = U("bg.z_as_chi", lam)
        Dl = U("bg.D1", zl)
        ial = toz(ex.mkinv(U("bg.a", zl)))
        if X == "len":
            c = -P * (2 - 5 * s) * (1 - x) * chi * Dl * ial
            return [(c * lam, 0, 1), (-c * lam, 2, 0), (-2 * c, 1, 0)], lam
        if X == "g4":
            return [(2 * P * (2 - 5 * s) * Dl * ial, 0, 0)], lam
        return [(2 * P * G * chi * U("bg.conformal_Hz", zl) * (U("bg.f", zl) - 1) * Dl * ial, 0, 0)], lam

    def kind(self, X, Y):
        return (X in INT) + (Y in INT)

    def theory_pair(self, e, X, Y, chis, ct, region=True, xs=(x1, x2), zero=(), geo=None):
        """specification of <X1 Y2> + <Y1 X2> and the substitution rules; also fixes the region's signs"""
        ex, th = e.ex, Theory(e.ex)
        c1, c2 = chis
        ren2 = lambda a, b: e.s_spline2d(ex, e.st, [e.spline(e.st, "I(4,0):renormalization"), a, b])[0]

        def one(A, B, xa, xb, r_arg, r2, ren):
            o1, l1 = self.ops(ex, A, 1, c1, xa)
            o2, l2 = self.ops(ex, B, 2, c2, xb)
            return th.correlate(o1, o2, th.basis(r_arg, ren), l1, l2, ct, r2, ex.mkinv(r2))
        k = self.kind(X, Y)
        pairs = [(X, Y)] if X == Y else [(X, Y), (Y, X)]
        if k == 0:
            sp = 0
            for A, B in pairs:
                sp = sp + one(A, B, ONE, ONE, sep, sep * sep, ren2(c1, c2))
            return toz(sp), th.reduce(sep, sep * sep)
        if k == 1:
            if X in INT:
                X, Y = Y, X
            x = xs[0]
            l1, l2 = c1 * x, c2 * x
            r21 = ex.nf(c1 * c1 + l2 * l2 - 2 * c1 * l2 * ct)
            r22 = ex.nf(l1 * l1 + c2 * c2 - 2 * l1 * c2 * ct)
            if region:
                ex.assume_sign(r21, ">")
                ex.assume_sign(r22, ">")
            s21 = s_sqrt(ex, None, [r21])[0]
            s22 = s_sqrt(ex, None, [r22])[0]
            sp = one(X, Y, ONE, x, s21, r21, ren2(l2, c1)) + one(Y, X, x, ONE, s22, r22, ren2(l1, c2))
            return toz(sp), th.reduce(s21, r21) + th.reduce(s22, r22)
        l1, l2 = c1 * xs[0], c2 * xs[1]
        r2 = ex.nf(l1 * l1 + l2 * l2 - 2 * l1 * l2 * ct)
        if region:
            ex.assume_sign(r2, ">")
            for eps in (Fraction(1, 10 ** 12), Fraction(1, 10 ** 20)):
                ex.assume_sign(r2 - toz(eps), ">")
        s = s_sqrt(ex, None, [r2])[0]
        sp = 0
        for A, B in pairs:
            sp = sp + one(A, B, xs[0], xs[1], s, r2, ren2(l1, l2))
        return toz(sp), th.reduce(s, r2)

    def argnames(self, k):
        return ["z_mean", "mu", "sep"] + ["x1", "x2"][:k]

    def replayer(self, k, fl, kw, swap=False):
        def f(pts):
            return self.native([(k, fl, kw, swap, [p[a] for a in self.argnames(k)]) for p in pts])
        return f

    def pair_theory(self, X, Y):
        """S03/S04: the program's pair equals linear theory on the generic region"""
        name = "%s-%s" % (X, Y)
        k = self.kind(X, Y)
        kw = {"only_cross_correlations": 1} if X != Y else {}
        e = self.env((X, Y), **kw)
        self.region(e, k)
        chi, chis, ct = self.geometry(e)
        spec, rules = self.theory_pair(e, X, Y, chis, ct)
        code = self.call(e, k, xs=[x1, x2][:k])
        if (X, Y) == ("d1", "d1"):
            mm = (toz(chis[1]) * toz(ct) - toz(chis[0])) * (toz(chis[1]) - toz(chis[0]) * toz(ct))
            return known_quadrupole(self, name, e, code, spec, rules, self.replayer(k, (X, Y), kw), ct, mm, sep, sep * sep, chis=chis)
        return self.equal(name, e, code, spec, rules, self.replayer(k, (X, Y), kw), key=name,
                          detail="contribution pair %s differs from linear theory" % name)

    # ---------------------------------------------------- degenerate branches
    def limit_basis(self, e, lam):
        """the radial functions at coinciding points (moments of the power spectrum)"""
        ex = e.ex
        I = lambda n, l: ex.uf("I(%d,%d)" % (n, l), z3.RealVal(0))
        ren = e.s_spline(ex, e.st, [e.spline(e.st, "I(4,0):renormalization_zero_separation"), lam])[0]
        B = {"40": ren, "31": I(3, 1), "22": I(2, 2), "13": z3.RealVal(0), "04": z3.RealVal(0)}
        rules = [(I(1, 1), 5 * I(2, 2)), (I(0, 0), 15 * I(2, 2)), (I(2, 0), 3 * I(3, 1)), (I(1, 3), z3.RealVal(0)),
                 (I(0, 2), z3.RealVal(0)), (I(0, 4), z3.RealVal(0)),
                 (ren, I(4, 0) - e.s_spline2d(ex, e.st, [e.spline(e.st, "I(4,0):renormalization"), lam, lam])[0])]
        return B, rules

    def limit_pair(self, e, A, B, c1, c2, xa, xb):
        """<A1 B2> when the two source positions coincide (parallel lines of sight)"""
        ex, th = e.ex, Theory(e.ex)
        o1, l1 = self.ops(ex, A, 1, c1, xa)
        o2, l2 = self.ops(ex, B, 2, c2, xb)
        bas, rules = self.limit_basis(e, l1)
        ur = {"1": z3.RealVal(0), "2": z3.RealVal(0)}
        uu = {("1", "1"): Q(1), ("2", "2"): Q(1), ("1", "2"): Q(-1)}
        out = z3.RealVal(0)
        for k1, d1, p1 in o1:
            for k2, d2, p2 in o2:
                if p1 + p2 + d1 + d2 > 4:
                    raise Unsupported("too many derivatives")
                out = out + toz(k1) * toz(k2) * th.deriv(bas, ["1"] * d1 + ["2"] * d2, ur, uu, z3.RealVal(0), z3.RealVal(0), p1 + p2)
        return out, rules

    DEG = {"r21": dict(mu=1), "r22": dict(mu=-1), "both": {}, "sep0": {}, "double": {}, "local": {}}

    def pair_degenerate(self, X, Y, case):
        """S06: the branch taken at coinciding positions equals the limit of the regular formula"""
        name = "%s-%s:%s" % (X, Y, case)
        k = self.kind(X, Y)
        kw = {"only_cross_correlations": 1} if X != Y else {}
        e = self.env((X, Y), **kw)
        ex = e.ex
        chi = ex.uf("bg.comoving_distance", zm)
        ex.assume_sign(chi, ">")
        q = z3.Real("q")
        if k == 1 and X in INT:
            X, Y = Y, X
        pairs = [(X, Y)] if X == Y else [(X, Y), (Y, X)]
        if case in ("r21", "r22"):
            m = ONE if case == "r21" else -ONE
            s = 2 * (q - chi)
            c1, c2 = (2 * chi - q, q) if case == "r21" else (q, 2 * chi - q)
            x = (2 * chi - q) * toz(ex.mkinv(q))
            ex.assume_sign(q, ">")
            ex.assume_sign(s, ">")
            ex.assume_sign(2 * chi - q, ">")
            # the second correlation is regular: both points on one line of sight
            if case == "r21":
                la, lb = c1 * x, c2
            else:
                la, lb = c1, c2 * x
            rr = ex.nf(la * la + lb * lb - 2 * la * lb)
            ex.assume_sign(rr, ">")
            code = self.call(e, 1, [zm, m, s], [x])
            sr = s_sqrt(ex, None, [rr])[0]
            th = Theory(ex)
            lim = (X, Y, ONE, x) if case == "r21" else (Y, X, x, ONE)
            reg = (Y, X, x, ONE) if case == "r21" else (X, Y, ONE, x)
            v1, rules = self.limit_pair(e, lim[0], lim[1], c1, c2, lim[2], lim[3])
            o1, l1 = self.ops(ex, reg[0], 1, c1, reg[2])
            o2, l2 = self.ops(ex, reg[1], 2, c2, reg[3])
            ren = e.s_spline2d(ex, e.st, [e.spline(e.st, "I(4,0):renormalization"), l1, l2])[0]
            v2 = th.correlate(o1, o2, th.basis(sr, ren), l1, l2, ONE, rr, ex.mkinv(rr))
            spec = v1 + v2
            rules = rules + th.reduce(sr, rr)
            pt = lambda p: [p["z_mean"], 1.0 if case == "r21" else -1.0, p["sep"], p["x1"]]
        elif case == "both":        # separation zero, source on the galaxy
            code = self.call(e, 1, [zm, mu, z3.RealVal(0)], [ONE])
            a, rules = self.limit_pair(e, X, Y, chi, chi, ONE, ONE)
            b, _ = self.limit_pair(e, Y, X, chi, chi, ONE, ONE)
            spec = a + b
            pt = lambda p: [p["z_mean"], p["mu"], 0.0, 1.0]
        elif case == "sep0":        # separation zero, source in front of the galaxy
            ex.assume_sign(x1, ">")
            ex.assume_sign(x1 - 1, "<")
            lam = chi * x1
            rr = ex.nf(chi * chi + lam * lam - 2 * chi * lam)
            ex.assume_sign(rr, ">")
            code = self.call(e, 1, [zm, mu, z3.RealVal(0)], [x1])
            sr = s_sqrt(ex, None, [rr])[0]
            th = Theory(ex)
            spec = 0
            for A, B, xa, xb in ((X, Y, ONE, x1), (Y, X, x1, ONE)):
                o1, l1 = self.ops(ex, A, 1, chi, xa)
                o2, l2 = self.ops(ex, B, 2, chi, xb)
                ren = e.s_spline2d(ex, e.st, [e.spline(e.st, "I(4,0):renormalization"), l1, l2])[0]
                spec = spec + th.correlate(o1, o2, th.basis(sr, ren), l1, l2, ONE, rr, ex.mkinv(rr))
            rules = th.reduce(sr, rr)
            pt = lambda p: [p["z_mean"], p["mu"], 0.0, p["x1"]]
        elif case == "double":      # separation zero, same depth
            ex.assume_sign(x1, ">")
            code = self.call(e, 2, [zm, mu, z3.RealVal(0)], [x1, x1])
            spec = 0
            for A, B in pairs:
                v, rules = self.limit_pair(e, A, B, chi, chi, x1, x1)
                spec = spec + v
            pt = lambda p: [p["z_mean"], p["mu"], 0.0, p["x1"], p["x1"]]
        else:                       # local contributions at zero separation
            code = self.call(e, 0, [zm, mu, z3.RealVal(0)])
            spec = 0
            for A, B in pairs:
                v, rules = self.limit_pair(e, A, B, chi, chi, ONE, ONE)
                spec = spec + v
            pt = lambda p: [p["z_mean"], p["mu"], 0.0]
        old, self.world = self.world, LinearWorld()
        try:
            def replay(pts):
                return self.native([(k, (X, Y), kw, False, pt(p)) for p in pts])
            dy = LinearWorld.points(case)
            return self.equal(name, e, code, spec, rules, replay, key=name, sample={"fixed": dy},
                              detail="value of %s at coinciding positions is not the limit of its neighbourhood" % name)
        finally:
            self.world = old


# ------------------------------------------------------------------ flat sky
def flat_local(self, X, Y, **kw):
    """S05: plane-parallel option for local pairs = all functions at the mean redshift, one common line of sight"""
    name = "flat %s-%s" % (X, Y)
    kw = dict(kw, flatsky_local=1)
    if X != Y:
        kw["only_cross_correlations"] = 1
    e = self.env((X, Y), **kw)
    ex, th = e.ex, Theory(e.ex)
    ex.assume_sign(sep, ">")
    chi = ex.uf("bg.comoving_distance", zm)
    code = self.call(e, 0)
    B = th.basis(sep)
    ur = {"1": -mu * sep, "2": mu * sep}
    uu = {("1", "1"): Q(1), ("2", "2"): Q(1), ("1", "2"): Q(-1)}
    spec = z3.RealVal(0)
    for A, C in ([(X, Y)] if X == Y else [(X, Y), (Y, X)]):
        o1, _ = self.ops(ex, A, 1, chi, ONE, z=zm)
        o2, _ = self.ops(ex, C, 2, chi, ONE, z=zm)
        for k1, d1, p1 in o1:
            for k2, d2, p2 in o2:
                spec = spec + toz(k1) * toz(k2) * th.deriv(B, ["1"] * d1 + ["2"] * d2, ur, uu, sep * sep, ex.mkinv(sep * sep), p1 + p2)
    rules = th.reduce(sep, sep * sep)
    rep = self.replayer(0, (X, Y), kw)
    if (X, Y) == ("d1", "d1"):
        return known_quadrupole(self, name, e, code, spec, rules, rep, ONE, sep * sep * mu * mu, sep, sep * sep, z=zm, chis=(chi, chi))
    return self.equal(name, e, code, spec, rules, rep, key=name, detail="plane-parallel contribution %s-%s differs" % (X, Y))


def known_quadrupole(self, name, e, code, spec, rules, rep, ct, mm, r, r2, z=None, chis=None):
    """d1-d1: recorded finding: the quadrupole bracket has the opposite sign (the shipped benchmarks encode it)"""
    ex = e.ex
    I = lambda n, l: ex.uf("I(%d,%d)" % (n, l), r)
    c1 = self.ops(ex, "d1", 1, chis[0], ONE, z)[0][0][0]
    c2 = self.ops(ex, "d1", 2, chis[1], ONE, z)[0][0][0]
    # spec = c1 c2 (ct I31 - mm I22);  I31 = (I20 + r2 I22)/3
    ct, mm = toz(ct), toz(mm)
    mono = toz(c1) * toz(c2) * ct * (3 * I(3, 1) - toz(r2) * I(2, 2)) / 3
    wrong = 2 * mono - spec
    chk = self.chk
    r1 = chk.solve(self.axioms(ex, rules) + [code != spec], 12000)
    if r1 == "unsat":
        chk.ok(name, "solver")
        return True
    r2_ = chk.solve(self.axioms(ex, rules) + [code != wrong], 12000)
    if r2_ == "unsat":
        return self.witness(name, e, code, spec, None, rep, name + " quadrupole sign",
                            "Doppler1-Doppler1 quadrupole has the wrong sign")
    return self.equal(name, e, code, spec, rules, rep, key=name, detail="contribution d1-d1 differs")


def ren_free(self, name):
    return None


def flat_den_len(self):
    """S05: density-lensing, plane-parallel (average over the two orientations)"""
    name = "flat den-len"
    kw = dict(flatsky_local_nonlocal=1, only_cross_correlations=1)
    e = self.env(("den", "len"), **kw)
    ex = e.ex
    ex.assume_sign(sep, ">")
    ex.assume_sign(mu, ">")
    ex.assume_sign(mu - 1, "<")
    code = self.call(e, 1, xs=[x1])
    return self.equal(name, e, code, spec_den_len(self, e, mu * sep * J0(e, sep * s_sqrt(ex, None, [1 - mu * mu])[0])), a_rules(e, [zm]),
                      self.replayer(1, ("den", "len"), kw), key=name, detail="plane-parallel density-lensing differs")


def J0(e, y):
    """Int k P(k) J0(k y) dk (the program's I(1/2,-1/2))"""
    return e.ex.uf("I(1/2,-1/2)", y)


def a_rules(e, zs):
    """a = 1/(1+z)"""
    ex = e.ex
    return [(toz(ex.mkinv(ex.uf("bg.a", z))), 1 + toz(z)) for z in zs]


def potential(ex):
    H0h = toz(Fraction(100000, 299792458)) * z3.Real("par.h")
    return toz(Fraction(3, 2)) * (z3.Real("par.Omega0_cdm") + z3.Real("par.Omega0_baryon")) * H0h * H0h


def spec_den_len(self, e, kern):
    """Limber: lensing of the farther galaxy by the overdensity of the nearer, averaged over orientations"""
    ex = e.ex
    U = ex.uf
    D, ia = U("bg.D1", zm), toz(ex.mkinv(U("bg.a", zm)))
    s1, s2 = U("par.magnification_bias1", zm), U("par.magnification_bias2", zm)
    b1, b2 = U("par.galaxy_bias1", zm), U("par.galaxy_bias2", zm)
    P = potential(ex)
    return -P * ia * D * D * kern * (z3.Real("1/pi") / 2) * ((2 - 5 * s2) * b1 + (2 - 5 * s1) * b2) / 2


def spec_len_len(self, e, kern):
    ex = e.ex
    U = ex.uf
    chi = U("bg.comoving_distance", zm)
    z = U("bg.z_as_chi", chi * x1)
    D, ia = U("bg.D1", z), toz(ex.mkinv(U("bg.a", z)))
    s1, s2 = U("par.magnification_bias1", zm), U("par.magnification_bias2", zm)
    P = potential(ex)
    return P * P * (2 - 5 * s1) * (2 - 5 * s2) * x1 * x1 * (1 - x1) * (1 - x1) * chi * chi * chi * D * D * ia * ia * kern * z3.Real("1/pi") / 2


def flat_zero(self, X):
    """S05: rsd-lensing and Doppler-lensing vanish in the plane-parallel limit"""
    name = "flat %s-len" % X
    kw = dict(flatsky_local_nonlocal=1, only_cross_correlations=1)
    e = self.env((X, "len"), **kw)
    e.ex.assume_sign(sep, ">")
    code = self.call(e, 1, xs=[x1])
    return self.equal(name, e, code, z3.RealVal(0), [], self.replayer(1, (X, "len"), kw), key=name)


def flat_len_len(self):
    name = "flat len-len"
    kw = dict(flatsky_nonlocal=1)
    e = self.env(("len",), **kw)
    ex = e.ex
    ex.assume_sign(sep, ">")
    ex.assume_sign(x1, ">")
    code = self.call(e, 2, xs=[x1, x2])
    chi = ex.uf("bg.comoving_distance", zm)
    kern = J0(e, x1 * sep * s_sqrt(ex, None, [1 - mu * mu])[0])
    return self.equal(name, e, code, spec_len_len(self, e, kern), a_rules(e, [ex.uf("bg.z_as_chi", chi * x1)]),
                      self.replayer(2, ("len",), kw), key=name, detail="plane-parallel lensing-lensing differs")


def legendre(l):
    """coefficients of P_l"""
    p0, p1 = [Q(1)], [Q(0), Q(1)]
    if l == 0:
        return p0
    for n in range(1, l):
        a = [Q(0)] + [Q(2 * n + 1, n + 1) * c for c in p1]
        for i, c in enumerate(p0):
            a[i] -= Q(n, n + 1) * c
        p0, p1 = p1, a
    return p1


def fact(n):
    r = 1
    for i in range(2, n + 1):
        r *= i
    return r


def multipole_series(l, power, M):
    """(2l+1)/2 Int P_l(mu) |mu|^power J0(y sqrt(1-mu^2)): coefficients of y^(2m), m < M"""
    P = legendre(l)
    out = []
    for m in range(M):
        tot = Q(0)
        for i, c in enumerate(P):
            if not c:
                continue
            for j in range(m + 1):      # (1-mu^2)^m
                b = Q(fact(m), fact(j) * fact(m - j)) * (-1) ** j
                n = i + power + 2 * j
                if (i + (0 if power else 0)) % 2 == 0:      # even integrand: twice the half interval
                    tot += c * b * 2 * Q(1, n + 1)
        out.append(Q(2 * l + 1, 2) * tot * Q((-1) ** m, fact(m) ** 2 * 4 ** m))
    return out


def flat_multipole(self, which, l, M=9):
    """S05: plane-parallel multipoles are the Legendre components of the plane-parallel correlation"""
    name = "flat %s multipole l=%d" % (which, l)
    nl = [(1, l, 0, 0)] + [(l - 2 * k + 3, l - 2 * k + 1, 1, 1) for k in range(l // 2 + 1)]
    e = Env(self.M, self.L, ints(("den", "len"), flatsky_nonlocal=1, flatsky_local_nonlocal=1), nl=nl)
    ex = e.ex
    ex.assume_sign(sep, ">")
    y = z3.Real("y")        # k r, so the statement is one about every mode of the power spectrum
    tp = 2 * z3.Real("pi") * z3.Real("pi")
    itp = z3.Real("1/pi") * z3.Real("1/pi") / 2
    if which == "len-len":
        ex.assume_sign(x1, ">")
        r, _ = ex.call(e.st, "functions_flatsky_lensing_lensing_multipoles", [e.par, e.bg, e.integral, zm, sep, l & 0xffffffff, x1])
        chi = ex.uf("bg.comoving_distance", zm)
        R = x1 * sep
        atom = ex.uf("I(1,%d)" % l, R)
        # I(1,l)(R) = 1/(2 pi^2) Int k^2 P j_l(kR)/(kR); per mode k P: R^-1 j_l(y)/(2 pi^2); stored times R when n > l
        ser = [Q(0)] * M
        for m in range(M):
            if l // 2 + m < M:
                d = 1
                for q in range(1, 2 * l + 2 * m + 2, 2):
                    d *= q
                ser[l // 2 + m] = Q((-1) ** m, fact(m) * 2 ** m * d)
        jl = poly_y(ser, y)
        rules = [(atom, itp * jl * (1 if l < 1 else toz(ex.mkinv(R))))]
        rules += a_rules(e, [ex.uf("bg.z_as_chi", chi * x1)])
        spec = spec_len_len(self, e, poly_y(multipole_series(l, 0, M), y))
    else:
        r, _ = ex.call(e.st, "functions_flatsky_density_lensing_multipoles", [e.par, e.bg, e.integral, zm, sep, l & 0xffffffff])
        sq = s_sqrt(ex, None, [2 * z3.Real("pi")])[0]
        rules = []
        for n, ll, sn, sl in nl[1:]:
            p = (ll + 1) // 2       # J_p(y)/y^p, stored times r
            ser = [Q((-1) ** m, fact(m) * fact(m + p) * 2 ** (2 * m + p)) for m in range(M)]
            rules.append((ex.uf("I(%d/2,%d/2)" % (n, ll), sep), itp * sq / 2 * poly_y(ser, y)))
        rules += a_rules(e, [zm])
        spec = spec_den_len(self, e, sep * poly_y(multipole_series(l, 1, M), y))
    self.chk.use(ex)
    code = tp * toz(r)
    d = ex.poly(z3.substitute(code - spec, *[(toz(a), toz(b)) for a, b in rules]))
    # powers of y up to 2(M-1) are exact; products never mix two series
    d = self.clear(ex, d)
    d = ex.from_poly(d) if d else z3.RealVal(0)
    if self.chk.solve([d != 0], 8000) == "unsat":
        self.chk.ok(name, "solver: Legendre component, power series to order %d" % (2 * M - 2))
        return True
    return flat_multipole_replay(self, name, which, l, e, toz(r), nl)


def flat_multipole_replay(self, name, which, l, e, r, nl):
    """numeric witness: the multipole function on the compiled code against quadrature of the definition"""
    import math
    from world import bessel_J
    w = FlatWorld()
    old, self.world = self.world, w
    try:
        p = {"z_mean": 1.0, "sep": 0.12, "x1": 0.6, "mu": 0.5, "x2": 0.5}
        fn = "functions_flatsky_lensing_lensing_multipoles" if which == "len-len" else "functions_flatsky_density_lensing_multipoles"
        args = ["%.17g" % p["z_mean"], "%.17g" % p["sep"], str(l)] + (["%.17g" % p["x1"]] if which == "len-len" else [])
        rc, vals, err = Native(w).run([(fn, ints(("den", "len"), flatsky_nonlocal=1, flatsky_local_nonlocal=1), self.reals(), False, args)], nl)
        got = 2 * math.pi ** 2 * vals[0]
        R = p["sep"] * (p["x1"] if which == "len-len" else 1)
        P = legendre(l)
        n, acc = 4000, 0.0
        for i in range(n):
            m = (i + 0.5) / n
            pl = sum(float(c) * m ** j for j, c in enumerate(P))
            acc += pl * w.func("I(1/2,-1/2)", [R * math.sqrt(1 - m * m)]) * (1 if which == "len-len" else m * p["sep"]) / n
        kern = z3.Real("kern")
        e2 = Env(self.M, self.L, ints(()), nl=nl)
        sp = spec_len_len(self, e2, kern) if which == "len-len" else spec_den_len(self, e2, kern)
        want = w.ev(sp, e2.ex, {**p, "kern": (2 * l + 1) * acc}, {})
        self.chk.replays.append(name)
        if abs(got - want) > 1e-3 * max(abs(got), abs(want)):
            self.chk.violated(name, "plane-parallel %s multipole l=%d: compiled code %.10g, Legendre component of the correlation %.10g" % (which, l, got, want),
                              "inputs %r" % p, name)
            return False
        self.chk.undecide(name, "difference not reproduced (%.10g, %.10g)" % (got, want))
    finally:
        self.world = old


def poly_y(ser, y):
    t = z3.RealVal(0)
    p = z3.RealVal(1)
    for c in ser:
        t = t + toz(c) * p
        p = p * y * y
    return t


class FlatWorld(World):
    """universe in which the half-integer transforms are consistent with each other"""

    def func(self, name, args):
        import math
        from world import bessel_J, sph_j
        x = args[0]
        if name.startswith("I(") and ":" not in name:
            n, l = name[2:-1].split(",")
            hn, hl = n.endswith("/2"), l.endswith("/2")
            n, l = int(n.split("/")[0]), int(l.split("/")[0])
            if hl and (n, l) == (1, -1):
                return sum(w * bessel_J(0, k * x) for k, w in self.modes)
            if hl:
                p = (l + 1) // 2
                return sum(w * math.sqrt(math.pi / 2) / (2 * math.pi ** 2) * (bessel_J(p, k * x) / (k * x) ** p if k * x > 1e-9 else 1 / fact(p) / 2 ** p) for k, w in self.modes)
            if n == 1:
                # per mode k P: j_l(k x)/x, stored times x for l = 0
                return sum(w / (2 * math.pi ** 2) * (sph_j(l, k * x) / (x if (l > 0 and x > 1e-12) else (1e-12 if l > 0 else 1))) for k, w in self.modes)
        return super().func(name, args)


class LinearWorld(World):
    """a universe in which distances are exact in binary, so coincidences can be hit exactly"""

    def func(self, name, args):
        if name in ("bg.comoving_distance", "bg.z_as_chi"):
            return args[0]
        return super().func(name, args)

    @staticmethod
    def points(case):
        if case in ("r21", "r22"):
            # far point q, near point 2 chi - q, ratio exact
            out = []
            for chi, q in ((0.75, 1.0), (1.5, 2.0), (0.625, 1.0), (0.5625, 1.0)):
                out.append({"z_mean": chi, "q": q, "sep": 2 * (q - chi), "x1": (2 * chi - q) / q, "mu": 0.5, "x2": 0.5})
            return out
        return [{"z_mean": z, "mu": 0.5, "sep": 0.0, "x1": x, "x2": x, "q": 1.0} for z, x in ((0.75, 0.5), (1.25, 0.25), (1.5, 0.75))]


def pair_parallel(self, X, Y):
    """aligned lines of sight (mu = 1): the separate small-angle branch equals the theory there"""
    name = "%s-%s aligned" % (X, Y)
    kw = {"only_cross_correlations": 1} if X != Y else {}
    e = self.env((X, Y), **kw)
    ex = e.ex
    ex.assume_sign(sep, ">")
    chi, chis, ct = self.geometry(e, mu=ONE)
    ct = ex.nf(ct)
    c1, c2 = chi - sep / 2, chi + sep / 2
    spec, rules = self.theory_pair(e, X, Y, (c1, c2), ONE)
    code = self.call(e, 1, [zm, ONE, sep], [x1])
    rep = lambda pts: self.native([(1, (X, Y), kw, False, [p["z_mean"], 1.0, p["sep"], p["x1"]]) for p in pts])
    return self.equal(name, e, code, spec, rules, rep, key=name, detail="aligned contribution pair differs from linear theory")


Sig.pair_parallel = pair_parallel
