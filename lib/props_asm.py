"""A01-A03: assembling contributions, projections and grids into results
(src/signal.c, corrfunc.c, multipoles.c, average_multipoles.c)."""
import itertools
import math
import random
from fractions import Fraction

import z3

import repo
import sig
import world
from core import parallel
from env import *
from gslmodel import Eq, mentions
from symex import *
from symex import isz, toz

LOC, INTG = sig.LOC, sig.INT
KINDS = {0: "functions_nonintegrated", 1: "functions_single_integrated", 2: "functions_double_integrated"}


def pairs_of(kind):
    if kind == 0:
        return [(LOC[i], LOC[j]) for i in range(7) for j in range(i, 7)]
    if kind == 1:
        return [(a, b) for a in LOC for b in INTG]
    return [(INTG[i], INTG[j]) for i in range(3) for j in range(i, 3)]


def zero_pattern(M, L, s):
    """which pair terms vanish identically, per (local-integrated, integrated-integrated option, output type): read off the real code"""
    out = {}
    for kind in (1, 2):
        for a, b in pairs_of(kind):
            for ln in (0, 1):
                for nl in (0, 1):
                    if (kind == 1 and nl) or (kind == 2 and ln):
                        continue
                    for ot in ("CORRFUNC", "MULTIPOLES"):
                        # the generic pair must not be masked by the autos: cross only when a != b
                        kw = dict(flatsky_local_nonlocal=ln, flatsky_nonlocal=nl, output_type=L.enums[ot], only_cross_correlations=int(a != b))
                        e = s.env([a, b], **kw)
                        s.region(e, kind)
                        t = s.call(e, kind, xs=(sig.x1, sig.x2)[:kind])
                        z = not e.ex.poly(t)
                        out[kind, a, b, ln, nl, ot] = z
    return out


class Asm:
    def __init__(self, chk, M, L, zero, out, lval=None, concrete=None):
        self.chk, self.L = chk, L
        self.zero, self.out = zero, out
        ints = {"output_type": L.enums[out], "verbose": 0}
        reals = {}
        self.e = Env(M, L, ints=ints, nl=None, stubs=dict(
            coffe_integrate_1d_prec_gsl=self.quad, coffe_integrate_1d_prec_double_exponential=self.quad,
            coffe_integrate_multidimensional=self.cube,
            functions_flatsky_lensing_lensing_multipoles=self.fll, functions_flatsky_density_lensing_multipoles=self.fdl,
            **{KINDS[k]: self.pairs(k) for k in KINDS}))
        self.ex = self.e.ex
        self.e.integral = self.ex.new_obj(self.e.st, "integral", 16, "heap", lazy=lambda ex, st, oid, off, t: Undef(t))
        self.nv = 0
        self.canon_v = [z3.Real("U%d" % i) for i in range(6)]

    # flags as boolean conditions, read through the pointer the code passes
    def flag(self, st, par, path, eqv=None):
        v = self.ex.load(st, INT(32), self.ex.padd(par, self.L.off("coffe_parameters_t", path)))
        if isz(v):
            return v != 0
        return z3.BoolVal(bool(v))

    def guard(self, st, par, kind, a, b):
        f = lambda n: self.flag(st, par, n)
        g = [f("correlation_contrib." + a), f("correlation_contrib." + b)]
        if a == b:
            g.append(z3.Not(f("only_cross_correlations")))
        return z3.And(g)

    def live(self, st, par, kind, a, b):
        """guard of a non-vanishing term in functions_*"""
        g = self.guard(st, par, kind, a, b)
        if kind == 0:
            return g
        opt = "flatsky_local_nonlocal" if kind == 1 else "flatsky_nonlocal"
        on = self.flag(st, par, opt)
        ot = self.ex.load(st, INT(32), self.ex.padd(par, self.L.off("coffe_parameters_t", "output_type")))
        o = "MULTIPOLES" if ot == self.L.enums["MULTIPOLES"] else "CORRFUNC"
        z = [self.zero[(kind, a, b, x, 0, o) if kind == 1 else (kind, a, b, 0, x, o)] for x in (0, 1)]
        return z3.And(g, z3.If(on, z3.BoolVal(not z[1]), z3.BoolVal(not z[0])))

    def ind(self, g):
        g = z3.simplify(g)
        if z3.is_true(g):
            return Fraction(1)
        if z3.is_false(g):
            return Fraction(0)
        return z3.If(g, z3.RealVal(1), z3.RealVal(0))

    def T(self, a, b, args):
        return self.ex.uf("T[%s-%s]" % (a, b), *args)

    def pairs(self, kind):
        def f(ex, st, a):
            par, args = a[0], a[3:]
            r = R0
            for x, y in pairs_of(kind):
                r = ex.radd(r, ex.rmul(self.ind(self.live(st, par, kind, x, y)), self.T(x, y, args)))
            return r, st
        return f

    def lconc(self, l):
        return sgn(l) if isinstance(l, int) else l

    def fll(self, ex, st, a):
        return ex.uf("FLL[%s]" % self.lconc(a[5]), a[3], a[4], a[6]), st

    def fdl(self, ex, st, a):
        return ex.uf("FDL[%s]" % self.lconc(a[5]), a[3], a[4]), st

    # -- integrals as linear functionals
    def integral(self, expr, vs):
        ex = self.ex
        p = ex.poly(toz(expr))
        tot = R0
        memo = {}
        for m, c in p.items():
            dep, ind = [], [(a, n) for a, n in ()]
            for a, n in m:
                at = ex.atomlist[a]
                if a not in memo:
                    memo[a] = any(mentions(ex, at, v) for v in vs)
                (dep if memo[a] else ind).append((a, n))
            key = self.canon(dep, vs)
            t = ex.from_poly({tuple(ind): c})
            tot = ex.radd(tot, ex.rmul(t, key))
        return tot

    def canon(self, dep, vs):
        ex = self.ex
        order = []
        for a, n in dep:
            at = ex.atomlist[a]
            nm = at.decl().name()
            if nm in ex.bysym and ex.bysym[nm][0][0] in "TF" and "[" in ex.bysym[nm][0]:
                for i, arg in enumerate(ex.bysym[nm][1]):
                    for v in vs:
                        if v not in [x for x in order] and mentions(ex, toz(arg), v):
                            order.append(v)
        for v in vs:
            if not any(v.eq(x) for x in order):
                order.append(v)
        sub = {v.get_id(): self.canon_v[i] for i, v in enumerate(order)}
        term = Fraction(1)
        for a, n in dep:
            t = self.subst(ex.atomlist[a], sub)
            term = ex.rmul(term, ex.rpow(t, n))
        term = ex.nf(toz(term))
        ex.nfkeep.append(term)
        k = (term.get_id(), len(vs))
        nm = "integral%d{%d}" % (len(vs), term.get_id())
        self.names = getattr(self, "names", {})
        self.names[nm] = term
        return ex.uf(nm)

    def subst(self, t, sub):
        ex = self.ex
        if not isz(t):
            return t
        if t.get_id() in sub:
            return sub[t.get_id()]
        if t.num_args() == 0:
            nm = t.decl().name()
            if nm in ex.bysym:
                f, args = ex.bysym[nm]
                new = [self.subst(ex.nf(toz(x)) if isz(x) else x, sub) for x in args]
                if f == "Inv":
                    return toz(ex.mkinv(new[0]))
                return ex.uf(f, *new)
            return t
        return t.decl()(*[toz(self.subst(c, sub)) for c in t.children()])

    def quad(self, ex, st, a):
        fn, ctx, lo, hi = a[:4]
        self.nv += 1
        v = z3.Real("v%d" % self.nv)
        x = ex.radd(lo, ex.rmul(ex.rsub(hi, lo), v))
        r, st2 = ex.call(st, fn.name, [x, ctx])
        return self.integral(ex.rmul(ex.rsub(hi, lo), r), [v]), st

    def cube(self, ex, st, a):
        fn, ctx, method, dims = a[:4]
        if not isinstance(dims, int):
            raise Unsupported("symbolic dimension")
        vs = []
        arr = ex.new_obj(st, "vars", 8 * dims, "stack")
        for i in range(dims):
            self.nv += 1
            vs.append(z3.Real("v%d" % self.nv))
            st.w(arr.o).cells[8 * i] = (8, vs[-1])
        r, st2 = ex.call(st, fn.name, [arr, dims, ctx])
        return self.integral(r, vs), st

    # -- the real function
    def run(self, kind, out, args):
        z, z0, z1, sp, mu, l = args
        r, st = self.ex.call(self.e.st, "coffe_integrate", [self.e.par, self.e.bg, self.e.integral, z, z0, z1, sp, mu, l, kind, self.L.enums[out]])
        return r, st

    # -- specification
    def spec(self, kind, out, args):
        ex, st = self.ex, self.e.st
        z, z0, z1, sp, mu, l = args
        par = self.e.par
        U = [z3.Real("s%d" % i) for i in range(4)]
        tot = R0
        ln, nl = self.flag(st, par, "flatsky_local_nonlocal"), self.flag(st, par, "flatsky_nonlocal")
        PI2 = ex.rmul(ex.rmul(PI, PI), Fraction(2))
        for a, b in pairs_of(kind):
            g = self.guard(st, par, kind, a, b)
            pp = (a, b) in (("den", "len"), ("rsd", "len"), ("d1", "len"))
            if out == "CORRFUNC":
                t = self.integral(self.T(a, b, [z, mu, sp] + U[:kind]), U[:kind]) if kind else self.T(a, b, [z, mu, sp])
                # vanishing plane-parallel terms
                tot = ex.radd(tot, ex.rmul(self.ind(self.live(st, par, kind, a, b)), t))
            elif out == "MULTIPOLES":
                v = U[0]
                m = ex.rsub(ex.rmul(2, v), 1)
                w = ex.rmul(2 * l + 1, legendre(ex, l, m))
                t = self.integral(ex.rmul(w, self.T(a, b, [z, m, sp] + U[1:1 + kind])), U[:1 + kind])
                if kind == 1 and pp:
                    full = z3.And(g, z3.Not(ln))
                    tot = ex.radd(tot, ex.rmul(self.ind(full), t))
                    if a == "den":
                        tot = ex.radd(tot, ex.rmul(self.ind(z3.And(g, ln)), ex.rmul(PI2, ex.uf("FDL[%d]" % l, z, sp))))
                elif kind == 2 and (a, b) == ("len", "len"):
                    tot = ex.radd(tot, ex.rmul(self.ind(z3.And(g, z3.Not(nl))), t))
                    if l % 2 == 0:
                        q = self.integral(ex.uf("FLL[%d]" % l, z, sp, v), [v])
                        tot = ex.radd(tot, ex.rmul(self.ind(z3.And(g, nl)), ex.rmul(PI2, q)))
                else:
                    tot = ex.radd(tot, ex.rmul(self.ind(g), t))
            else:
                u, v = U[0], U[1]
                chi = lambda x: ex.uf("bg.comoving_distance", x)
                zlo = ex.uf("bg.z_as_chi", chi(z0) + sp / 2)
                zhi = ex.uf("bg.z_as_chi", chi(z1) - sp / 2)
                zz = ex.rsub(zhi, zlo) * u + zlo
                m = 2 * v - 1
                w = ex.rmul(2 * l + 1, legendre(ex, l, m))
                H0 = real_const(1 / 2997.92458)
                w = ex.rmul(w, ex.rmul(ex.mkinv(ex.uf("bg.conformal_Hz", zz)), ex.mkinv(1 + zz)))
                w = ex.rmul(w, ex.rmul(H0, z3.Real("par.h")))
                xs = [z3.Real("s%d" % (2 + i)) for i in range(kind)]
                t = self.integral(ex.rmul(w, self.T(a, b, [zz, m, sp] + xs)), [u, v] + xs)
                tot = ex.radd(tot, ex.rmul(self.ind(self.live(st, par, kind, a, b)), t))
        return tot


def decide(chk, A, name, code, spec, confirm, key=None):
    """code == spec for every choice of switches: coefficients of every opaque integral agree"""
    ex = A.ex
    groups = {}
    for sg, t in ((1, code), (-1, spec)):
        for g, leaf in lin(toz(t), {}):
            for m, c in ex.poly(leaf).items():
                groups.setdefault(m, []).append((g, sg * c))
    cons = []
    for m, lst in groups.items():
        cons.append(z3.Sum([z3.If(g, toz(c), z3.RealVal(0)) for g, c in lst]) != 0)
    flags = sorted({x for x in consts(z3.And(cons + [z3.BoolVal(True)])) if z3.is_bv(x)}, key=str)
    dom = [z3.Or(x == 0, x == 1) for x in flags if x.decl().name().startswith("par.")]
    r, m = chk.solve(dom + [z3.Or(cons) if cons else z3.BoolVal(False)], 60000, want_model=True)
    if r == "unsat":
        chk.ok(name, "solver: equal for every selection of contributions and options")
        return
    if r != "sat":
        chk.undecide(name, r)
        return
    cfg = {}
    for x in flags:
        v = m.eval(x, model_completion=True)
        cfg[x.decl().name()[4:]] = v.as_long()
    hit = confirm(cfg)
    chk.replays.append(name)
    if hit:
        chk.violated(name, hit, hit + "\nconfiguration: %r" % cfg, key)
    else:
        chk.undecide(name, "counterexample %r not reproduced" % (cfg,))


def lin(x, memo):
    """x = sum of If(guard, leaf, 0) with leaves free of conditionals"""
    k = x.get_id()
    if k not in memo:
        memo[k] = (x, lin_(x, memo))
    return memo[k][1]


def lin_(x, memo):
    k = x.decl().kind()
    T = z3.BoolVal(True)
    if x.num_args() == 0:
        return [(T, x)]
    if k == z3.Z3_OP_ITE:
        c, a, b = x.children()
        out = [(z3.simplify(z3.And(c, g)), t) for g, t in lin(a, memo)] + [(z3.simplify(z3.And(z3.Not(c), g)), t) for g, t in lin(b, memo)]
    elif k == z3.Z3_OP_ADD:
        out = [p for c in x.children() for p in lin(c, memo)]
    elif k == z3.Z3_OP_UMINUS:
        out = [(g, -t) for g, t in lin(x.arg(0), memo)]
    elif k == z3.Z3_OP_SUB:
        out = list(lin(x.arg(0), memo))
        for c in x.children()[1:]:
            out += [(g, -t) for g, t in lin(c, memo)]
    elif k == z3.Z3_OP_MUL:
        out = [(T, z3.RealVal(1))]
        for c in x.children():
            out = [(z3.simplify(z3.And(g, h)), t * u) for g, t in out for h, u in lin(c, memo)]
    else:
        return [(T, x)]
    # merge equal leaves of one sum
    acc = {}
    for g, t in out:
        if z3.is_false(g):
            continue
        acc.setdefault((g.get_id(), t.get_id()), [g, t, 0])[2] += 1
    return [(g, t if n == 1 else n * t) for g, t, n in acc.values()]


def consts(t):
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x)
        todo += x.children()
    return out


# ------------------------------------------------------------------ replay on compiled code
def coef(a, b):
    r = random.Random(a + b)
    return [0.5 + r.random() for _ in range(4)]


def term(a, b, z, mu, sp, xs):
    c = coef(a, b)
    v = c[0] * math.exp(2 * c[1] * mu - c[2] * mu * mu) * (1 + 0.2 * z) * (1 + sp)
    for i, x in enumerate(xs):
        v *= 1 + c[3] * x * (i + 1)
    return v


def native_code(zero, L):
    """replacement of functions.c: closed-form pair terms with the switches of the real one"""
    c = world.includes()
    for kind in KINDS:
        xs = ["x1", "x2"][:kind]
        c += "double %s(const coffe_parameters_t *par,const coffe_background_t *bg,const coffe_integral_array_t *in,const double z,const double mu,const double sp%s){double r=0;\n" % (
            KINDS[kind], "".join(",const double " + x for x in xs))
        for a, b in pairs_of(kind):
            k = coef(a, b)
            g = "par->correlation_contrib.%s && par->correlation_contrib.%s" % (a, b)
            if a == b:
                g += " && !par->only_cross_correlations"
            if kind:
                opt = "flatsky_local_nonlocal" if kind == 1 else "flatsky_nonlocal"
                for on in (0, 1):
                    for ot in ("CORRFUNC", "MULTIPOLES"):
                        if zero[(kind, a, b, on, 0, ot) if kind == 1 else (kind, a, b, 0, on, ot)]:
                            g += " && !(%spar->%s && (par->output_type == MULTIPOLES) == %d)" % ("" if on else "!", opt, ot == "MULTIPOLES")
            w = "%.17g*exp(2*%.17g*mu-%.17g*mu*mu)*(1+0.2*z)*(1+sp)" % tuple(k[:3])
            for i, x in enumerate(xs):
                w += "*(1+%.17g*%s*%d)" % (k[3], x, i + 1)
            c += "if(%s) r+=%s;\n" % (g, w)
        c += "return r;}\n"
    c += "double functions_flatsky_lensing_lensing_multipoles(const coffe_parameters_t*p,const coffe_background_t*b,const coffe_integral_array_t*i,const double z,const double s,const int l,const double x){return (3.1+0.7*l)*(1+z)*(1+s)*(1+x);}\n"
    c += "double functions_flatsky_density_lensing_multipoles(const coffe_parameters_t*p,const coffe_background_t*b,const coffe_integral_array_t*i,const double z,const double s,const int l){return l%2?0:(5.3+0.9*l)*(1+z)*(1+s);}\n"
    return c


def expected(zero, L, cfg, kind, out, args):
    """the specification evaluated with the closed-form terms"""
    import numpy as np
    z, z0, z1, sp, mu, l = args
    g = lambda n: bool(cfg.get(n, 0))
    xs, ws = np.polynomial.legendre.leggauss(16)
    xs, ws = (xs + 1) / 2, ws / 2
    ln, nl = g("flatsky_local_nonlocal"), g("flatsky_nonlocal")
    tot = 0.0

    def live(a, b):
        if kind == 0:
            return True
        o = "MULTIPOLES" if out == "MULTIPOLES" else "CORRFUNC"
        return not zero[(kind, a, b, int(ln), 0, o) if kind == 1 else (kind, a, b, 0, int(nl), o)]

    def inner(a, b, z, mu):
        if kind == 0:
            return term(a, b, z, mu, sp, ())
        if kind == 1:
            return sum(w * term(a, b, z, mu, sp, (x,)) for x, w in zip(xs, ws))
        return sum(w * v * term(a, b, z, mu, sp, (x, y)) for x, w in zip(xs, ws) for y, v in zip(xs, ws))
    for a, b in pairs_of(kind):
        if not (g("correlation_contrib." + a) and g("correlation_contrib." + b)) or (a == b and g("only_cross_correlations")):
            continue
        if out == "CORRFUNC":
            if live(a, b):
                tot += inner(a, b, z, mu)
        elif out == "MULTIPOLES":
            if kind == 1 and ln and b == "len" and a in ("den", "rsd", "d1"):
                if a == "den" and l % 2 == 0:
                    tot += 2 * math.pi ** 2 * (5.3 + 0.9 * l) * (1 + z) * (1 + sp)
                continue
            if kind == 2 and nl and (a, b) == ("len", "len"):
                if l % 2 == 0:
                    tot += 2 * math.pi ** 2 * (3.1 + 0.7 * l) * (1 + z) * (1 + sp) * 1.5
                continue
            tot += (2 * l + 1) * sum(w * P(l, 2 * v - 1) * inner(a, b, z, 2 * v - 1) for v, w in zip(xs, ws))
        elif live(a, b):
            W = world.World()
            lo = W.func("bg.z_as_chi", [W.func("bg.comoving_distance", [z0]) + sp / 2])
            hi = W.func("bg.z_as_chi", [W.func("bg.comoving_distance", [z1]) - sp / 2])
            for u, wu in zip(xs, ws):
                zz = lo + (hi - lo) * u
                k = W.default("par.h") / 2997.92458 / W.func("bg.conformal_Hz", [zz]) / (1 + zz)
                tot += wu * k * (2 * l + 1) * sum(w * P(l, 2 * v - 1) * inner(a, b, zz, 2 * v - 1) for v, w in zip(xs, ws))
    return tot


def P(l, x):
    a, b = 1.0, x
    if l == 0:
        return 1.0
    for n in range(1, l):
        a, b = b, ((2 * n + 1) * x * b - n * a) / (n + 1)
    return b


def gl(n=16):
    import numpy as np
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


CUBE = "static const double GX[]={%s}, GW[]={%s};\n" % tuple(",".join("%.17g" % v for v in a) for a in gl()) + r"""
#include <stddef.h>
double __wrap_coffe_integrate_multidimensional(double (*f)(double*,size_t,void*),const void*p,const int m,const int d,const int b){
 double v[8]; int k[8]={0}; double r=0; for(;;){ double w=1; for(int i=0;i<d;++i){v[i]=GX[k[i]];w*=GW[k[i]];} r+=w*f(v,d,(void*)p);
  int i=0; while(i<d && ++k[i]==16) k[i++]=0; if(i==d) break;} return r;}
"""


def native(zero, L, cfg, kind, out, args):
    W = world.World()
    z, z0, z1, sp, mu, l = args
    code = native_code(zero, L)
    code += r"""
static coffe_interpolation tab(int n,const double*x,const double*y){coffe_interpolation r;r.spline=gsl_spline_alloc(gsl_interp_cspline,n);r.accel=gsl_interp_accel_alloc();gsl_spline_init(r.spline,x,y,n);return r;}
int main(void){gsl_set_error_handler_off(); static coffe_parameters_t par; static coffe_background_t bg; static coffe_integral_array_t in; memset(&par,0,sizeof par);memset(&bg,0,sizeof bg);
"""
    n = 800
    for f, top in (("comoving_distance", 5.0), ("z_as_chi", 1.9), ("conformal_Hz", 5.0)):
        xs = [top * i / n for i in range(n + 1)]
        code += "{static double x[]={%s}; static double y[]={%s}; bg.%s=tab(%d,x,y);}\n" % (
            ",".join("%.12g" % x for x in xs), ",".join("%.12g" % W.func("bg." + f, [x]) for x in xs), f, n + 1)
    d = {"integration_1d_type": L.enums["COFFE_INTEGRATION_GSL"], "integration_method": 2, "integration_bins": 40000, "nthreads": 1,
         "output_type": L.enums[out]}
    known = {p for p, _, k in L.leaves("coffe_parameters_t")}
    d.update({k: v for k, v in cfg.items() if k in known and k != "integration_bins"})
    if d["integration_method"] not in (0, 1, 2):
        d["integration_method"] = 2
    for k, v in d.items():
        code += "par.%s=%d;\n" % (k, v)
    code += "par.h=%.17g; par.integration_1d_prec=1e-6;\n" % W.default("par.h")
    code += 'printf("%%.17g\\n", coffe_integrate(&par,&bg,&in,%.17g,%.17g,%.17g,%.17g,%.17g,%d,%d,%d)); return 0;}\n' % (
        z, z0, z1, sp, mu, l, kind, L.enums[out])
    rc, o, err = world.run_c(CUBE + code, without=("functions",), extra=("-Wl,--wrap=coffe_integrate_multidimensional",))
    return float(o.split()[0]) if rc == 0 and o.split() else None


def confirm(zero, L, kind, out, l):
    def f(cfg):
        args = (0.9, 0.5, 1.6, 0.11, 0.37, l)
        got = native(zero, L, cfg, kind, out, args)
        want = expected(zero, L, cfg, kind, out, args)
        if got is None:
            return None
        scale = expected(zero, L, cfg, 0 if kind == 0 else kind, out, args[:5] + (0,))
        if abs(got - want) > 1e-5 * max(abs(got), abs(want)) + 1e-6 * abs(scale):
            return "%s part, %s, l=%d: compiled coffe_integrate returns %.8g, the sum of the selected contributions is %.8g (selected: %s)" % (
                KINDS[kind], out, l, got, want, sorted(k for k, v in cfg.items() if v))
        return None
    return f


def projections(chk, outs, ls):
    M, L = repo.module(), repo.Layout()
    s = sig.Sig(chk, L, M)
    zero = zero_pattern(M, L, s)
    world.library()
    jobs = []
    for out in outs:
        for kind in KINDS:
            for l in (ls if out != "CORRFUNC" else [0]):
                jobs.append(("%s, %s, l=%d" % (KINDS[kind], out, l), one_projection, (M, L, zero, kind, out, l)))
    import props_num
    parallel(chk, jobs + props_num.wrappers(M) + props_num.cubes(M))


def one_projection(chk, M, L, zero, kind, out, l):
    name = "%s, %s, l=%d" % (KINDS[kind], out, l)
    A = Asm(chk, M, L, zero, out)
    R = z3.Real
    args = (R("z_mean"), R("z_min"), R("z_max"), R("sep"), R("mu"), l)
    r, st = A.run({0: L.enums["NONINTEGRATED"], 1: L.enums["SINGLE_INTEGRATED"], 2: L.enums["DOUBLE_INTEGRATED"]}[kind], out, args)
    chk.use(A.ex)
    if st is None:
        chk.undecide(name, "no path returns")
        return
    sp = A.spec(kind, out, args)
    decide(chk, A, name, r, sp, confirm(zero, L, kind, out, l))


def A01(chk):
    chk.bounds.append("multipoles l <= %d; all 1024 selections x cross-only x plane-parallel options x quadrature choice symbolic" % (5 if chk.tier == "quick" else 10))
    chk.assumptions += ["functions_* are sums of one term per selected pair (S02); terms are opaque functions of their arguments",
                        "quadratures return the exact integral (N01)", "par->output_type equals the requested output (Y01, F03)"]
    chk.stubs |= set(KINDS.values()) | {"coffe_integrate_1d_prec_*", "coffe_integrate_multidimensional", "functions_flatsky_*_multipoles"}
    projections(chk, ("CORRFUNC", "MULTIPOLES"), range(0, 6 if chk.tier == "quick" else 11))


def A03(chk):
    chk.bounds.append("multipoles l <= %d; all selections and options symbolic" % (4 if chk.tier == "quick" else 10))
    chk.assumptions += ["functions_* are sums of one term per selected pair (S02)", "quadratures return the exact integral (N01)"]
    chk.stubs |= set(KINDS.values()) | {"coffe_integrate_multidimensional"}
    projections(chk, ("AVERAGE_MULTIPOLES",), range(0, 5 if chk.tier == "quick" else 11))


# ------------------------------------------------------------------ A02
GRIDS = {
    "corrfunc": dict(init="coffe_corrfunc_init", arr="coffe_corrfunc_array_t", el="coffe_corrfunc_t", out="CORRFUNC",
                     axes=[("z_mean", "z_mean", "z_mean_len", "d"), ("mu", "mu", "mu_len", "d"), ("separation", "sep", "sep_len", "d")]),
    "multipoles": dict(init="coffe_multipoles_init", arr="coffe_multipoles_array_t", el="coffe_multipoles_t", out="MULTIPOLES",
                       axes=[("z_mean", "z_mean", "z_mean_len", "d"), ("l", "multipole_values", "multipole_values_len", "i"),
                             ("separation", "sep", "sep_len", "d")]),
    "average_multipoles": dict(init="coffe_average_multipoles_init", arr="coffe_average_multipoles_array_t", el="coffe_average_multipoles_t",
                               out="AVERAGE_MULTIPOLES",
                               axes=[("z_min|z_max", "zmin|zmax", "zmin_len", "d"), ("l", "multipole_values", "multipole_values_len", "i"),
                                     ("separation", "sep", "sep_len", "d")]),
}


def grid_job(chk, M, L, which, sizes):
    G = GRIDS[which]
    name = "%s grid %s" % (which, "x".join(map(str, sizes)))
    ints = {"verbose": 0, "nthreads": 1}
    vals = {}
    ptrs = {}
    for (lab, mem, ln, ty), n in zip(G["axes"], sizes):
        ints[ln] = n
        if "zmin" in mem:
            ints["zmax_len"] = n
        for m in mem.split("|"):
            vals[m] = [z3.Real("%s_%d" % (m, i)) if ty == "d" else z3.BitVec("%s_%d" % (m, i), 32) for i in range(n)]
    cache = {}

    def arr(m):
        def f(env, st):
            if m not in cache:
                w = 8 if not z3.is_bv(vals[m][0]) else 4
                p = env.ex.new_obj(st, m, w * len(vals[m]), "heap")
                for i, v in enumerate(vals[m]):
                    st.w(p.o).cells[w * i] = (w, v)
                cache[m] = (p, st.mem[p.o])
            p, o = cache[m]
            st.mem.setdefault(p.o, o)
            return p
        return f
    for m in vals:
        ptrs[m] = arr(m)
    inv = {v: k for k, v in L.enums.items() if k in ("NONINTEGRATED", "SINGLE_INTEGRATED", "DOUBLE_INTEGRATED")}
    outn = {L.enums[k]: k for k in ("CORRFUNC", "MULTIPOLES", "AVERAGE_MULTIPOLES")}

    def integ(ex, st, a):
        z, z0, z1, sp, mu, l, k, out = a[3:11]
        key = "%s/%s/%s" % (inv.get(k), outn.get(out), "")
        lr = z3.ToReal(z3.BV2Int(l, True)) if isz(l) else l
        args = {"CORRFUNC": [z, mu, sp], "MULTIPOLES": [z, lr, sp], "AVERAGE_MULTIPOLES": [z0, z1, lr, sp]}.get(outn.get(out))
        if args is None:
            raise Unsupported("output type")
        return ex.uf(key, *args), st
    e = Env(M, L, ints=ints, nl=None, ptrs=ptrs, stubs={"coffe_integrate": integ, "print_parameters": s_nop(0)})
    ex = e.ex
    e.integral = ex.new_obj(e.st, "integral", 16, "heap")
    res = ex.new_obj(e.st, "result", L.sizes[G["arr"]], "heap", zero=True)
    r, st = ex.call(e.st, G["init"], [e.par, e.bg, e.integral, res])
    chk.use(ex)
    total = 1
    for n in sizes:
        total *= n
    def bad(msg):
        hit = grid_confirm(L, which)
        if hit:
            chk.violated(name, msg + "; " + hit, hit)
        else:
            chk.undecide(name, msg + " (not reproduced on the compiled code)")
    ev = [x for x in ex.events if x.kind in ("oob", "null", "uaf", "wild")]
    if st is None or ev:
        return bad("run: %r" % (ev[:1] or "no return"))
    size = ex.load(st, INT(64), ex.padd(res, L.off(G["arr"], "size")))
    if size != total:
        return bad("size %s instead of %d" % (size, total))
    base = ex.load(st, PTR, ex.padd(res, L.off(G["arr"], "array")))
    es = L.sizes[G["el"]]
    seen = []
    mism = []
    for i in range(total):
        p = ex.padd(base, es * i)
        c = []
        for lab, mem, ln, ty in G["axes"]:
            for part in lab.split("|"):
                c.append(ex.load(st, DOUBLE if ty == "d" else INT(32), ex.padd(p, L.off(G["el"], "coords." + part))))
        v = ex.load(st, DOUBLE, ex.padd(p, L.off(G["el"], "value")))
        seen.append(c)
        cr = [z3.ToReal(z3.BV2Int(x, True)) if z3.is_bv(x) else x for x in c]
        want = z3.Sum([ex.uf("%s/%s/" % (k, G["out"]), *cr) for k in ("NONINTEGRATED", "SINGLE_INTEGRATED", "DOUBLE_INTEGRATED")])
        mism.append((i, v, want))
    axes_vals = []
    for (lab, mem, ln, ty), n in zip(G["axes"], sizes):
        axes_vals.append([[vals[m][i] for m in mem.split("|")] for i in range(n)])
    combos = [sum(t, []) for t in itertools.product(*axes_vals)]
    # every requested combination is the coordinate tuple of exactly one entry
    names = lambda t: tuple(str(x) for x in t)
    dup = sorted(map(names, seen)) != sorted(map(names, combos))
    if dup:
        return bad("the entries are not the product of the requested coordinates")
    if [names(x) for x in seen] != [names(x) for x in combos]:
        return bad("entries are not in the order (redshift, angle or multipole, separation)")
    badv, r = Eq(chk, ex).differs([(i, a, b) for i, a, b in mism])
    if badv:
        return bad("values %s are not the sum of the three parts at their own coordinates" % badv[:4])
    chk.ok(name, "solver: every entry carries the signal at its own coordinates")


def grid_confirm(L, which):
    G = GRIDS[which]
    sizes = (2, 3, 2)
    code = world.includes() + r"""
double coffe_integrate(coffe_parameters_t*p,coffe_background_t*b,coffe_integral_array_t*i,const double z,const double z0,const double z1,const double s,const double mu,const int l,enum coffe_integral_type k,enum coffe_output_type o){
 double w = k==NONINTEGRATED?1:k==SINGLE_INTEGRATED?100:10000;
 if(o==CORRFUNC) return w*(z+7*mu+0.13*s); if(o==MULTIPOLES) return w*(z+7*l+0.13*s); if(o==AVERAGE_MULTIPOLES) return w*(z0+3.3*z1+7*l+0.13*s); return 1e99;}
void print_parameters(coffe_parameters_t p){}
int main(void){ static coffe_parameters_t par; static coffe_background_t bg; static coffe_integral_array_t in; memset(&par,0,sizeof par); memset(&bg,0,sizeof bg); memset(&in,0,sizeof in);
 par.nthreads=2;
"""
    data = {}
    for (lab, mem, ln, ty), n in zip(G["axes"], sizes):
        for m in mem.split("|"):
            data[m] = [round(0.11 * (i + 1) + 0.017 * len(m), 4) for i in range(n)] if ty == "d" else [2 * i for i in range(n)]
            code += "static %s a_%s[]={%s}; par.%s=a_%s; par.%s_len=%d;\n" % ("double" if ty == "d" else "int", m, ",".join(map(repr, data[m])), m, m, m, n)
    code += "static %s res; memset(&res,0,sizeof res); %s(&par,&bg,&in,&res);\n" % (G["arr"], G["init"])
    parts = [p for lab, *_ in G["axes"] for p in lab.split("|")]
    code += 'printf("%zu\\n", (size_t)res.size); for(size_t i=0;i<res.size;++i){'
    for p in parts:
        code += 'printf("%%.17g ",(double)res.array[i].coords.%s);' % p
    code += 'printf("%.17g\\n",res.array[i].value);} return 0;}'
    code = code.replace("void print_parameters(coffe_parameters_t p){}\n", "")
    rc, out, err = world.run_c(code, without=("signal",))
    rows = [[float(x) for x in l.split()] for l in out.splitlines()[1:]]
    if rc or not out:
        return "%s ends with status %s" % (G["init"], rc)
    axes = [list(zip(*[data[m] for m in mem.split("|")])) for lab, mem, ln, ty in G["axes"]]
    want = [sum(map(list, t), []) for t in itertools.product(*axes)]
    if len(rows) != len(want):
        return "%s produces %d entries for %d coordinates" % (G["init"], len(rows), len(want))
    for r, w in zip(rows, want):
        if any(abs(a - b) > 1e-12 for a, b in zip(r, w)):
            return "%s: entry labelled %r where %r is due" % (G["init"], r[:-1], w)
        if which == "average_multipoles":
            v = w[0] + 3.3 * w[1] + 7 * w[2] + 0.13 * w[3]
        else:
            v = w[0] + 7 * w[1] + 0.13 * w[2]
        v *= 10101
        if abs(r[-1] - v) > 1e-9 * abs(v):
            return "%s: the value at %r is %r, the sum of the three parts is %r" % (G["init"], w, r[-1], v)
    return None


def A02(chk):
    M, L = repo.module(), repo.Layout()
    world.library()
    chk.assumptions.append("coffe_integrate is an uninterpreted function of part, output type and the coordinates it may depend on (A01, A03)")
    shapes = [(1, 1, 1), (2, 3, 2), (3, 2, 1)] + ([] if chk.tier == "quick" else [(4, 4, 4), (1, 5, 7), (6, 1, 3), (2, 2, 9)])
    chk.bounds.append("grid shapes %s with symbolic coordinates; loops fully unrolled" % (shapes,))
    chk.stubs.add("coffe_integrate")
    parallel(chk, [("%s %s" % (w, s), grid_job, (M, L, w, s)) for w in GRIDS for s in shapes])
