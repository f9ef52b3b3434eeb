"""N03: numerical building blocks (src/common.c, src/tanhsinh.c) do what their callers rely on."""
import itertools
import math
from fractions import Fraction

import z3

import repo
import sig
import world
from core import parallel
from symex import *
from symex import isz, toz, PI, INVPI
from irparse import *

R = z3.Real
PIQ = Fraction(3141592653589793238462643, 10 ** 24)
TRUEB = z3.BoolVal(True)


def executor(M, stubs=None):
    ex = Exec(M, dict(stubs or {}))
    return ex, State()


def lit(q):
    """C literal of a rational"""
    return "(%d.0/%d.0)" % (q.numerator, q.denominator)


def val(m, e):
    if not isz(e):
        return Fraction(e)
    v = m.eval(e, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


def arr(ex, st, vals, name="array"):
    p = ex.new_obj(st, name, 8 * max(1, len(vals)), "heap")
    for i, v in enumerate(vals):
        st.w(p.o).cells[8 * i] = (8, v)
    return p


def events(chk, ex, base, what):
    """memory errors and exits reachable on valid inputs"""
    bad = []
    for e in ex.events:
        if e.kind in ("oob", "null", "uaf", "uninit", "badfree", "doublefree", "exit", "deref"):
            if chk.solve(list(base) + [g_expr(e.g)], 10000) != "unsat":
                bad.append("%s: %s" % (e.kind, e.detail))
    return bad


# ------------------------------------------------------------- quadratures
GSL1 = {"gsl_integration_qag": (0, 1, 2, 3, 4, 5, 7, 8), "gsl_integration_qags": (0, 1, 2, 3, 4, 5, 6, 7)}


def quad_job(chk, M):
    """the GSL wrapper integrates the function it is given, over the range it is given, to the precision it is given"""
    name = "coffe_integrate_1d_prec_gsl"
    a, b, prec = R("a"), R("b"), R("precision")
    calls = []
    spaces = {}

    def ws(ex, st, args):
        p = ex.new_obj(st, "workspace", 64, "lib")
        spaces[p.o] = args[0]
        return p, st

    def rel(ex, st, args):
        do_free(ex, st, args[0], "release")
        return None, st

    def integ(pos):
        def f(ex, st, args):
            F, lo, hi, ea, er, lim, w, res = [args[i] for i in pos]
            fn, par = ex.load(st, PTR, F), ex.load(st, PTR, ex.padd(F, 8))
            v = ex.fresh_real("integral")
            calls.append((fn, par, lo, hi, ea, er, lim, w, v, st.g))
            ex.store(st, DOUBLE, v, res)
            return 0, st
        return f
    ex, st = executor(M, {"gsl_integration_workspace_alloc": ws, "gsl_integration_workspace_free": rel,
                          **{k: integ(p) for k, p in GSL1.items()}})
    ctx = ex.new_obj(st, "context", 16, "heap")
    base = [prec > 0]
    r, st = ex.call(st, name, [Fn("integrand"), ctx, a, b, prec])
    chk.use(ex)
    if len(calls) != 1:
        raise Unsupported("%d calls of the quadrature" % len(calls))
    fn, par, lo, hi, ea, er, lim, w, v, g = calls[0]
    bad = []
    if not (isinstance(fn, Fn) and fn.name == "integrand"):
        bad.append("another function is integrated")
    if not (isinstance(par, Ptr) and par.o == ctx.o and par.off == 0):
        bad.append("another context is passed on")
    for what, c in (("lower end", toz(lo) != a), ("upper end", toz(hi) != b), ("relative precision", toz(er) != prec),
                    ("absolute precision", toz(ea) != 0), ("result", toz(r) != v)):
        if chk.solve(base + [c]) != "unsat":
            bad.append(what)
    if not isinstance(w, Ptr) or w.o not in spaces or spaces[w.o] < lim:
        bad.append("workspace smaller than the limit")
    bad += events(chk, ex, base, name)
    if not bad:
        return chk.ok(name)
    hit = native_quad()
    if hit:
        return chk.violated(name, "; ".join(bad) + ": " + hit, hit)
    chk.undecide(name, "; ".join(bad))


def native_quad():
    code = world.includes() + r"""
#include <gsl/gsl_integration.h>
static int bad; static double *ctx0; static double A,B,P; static double f(double x, void *p){ return *(double*)p * x * x + 1; }
int __wrap_gsl_integration_qag(const gsl_function *F,double a,double b,double ea,double er,size_t lim,int key,gsl_integration_workspace *w,double *res,double *err);
int __real_gsl_integration_qag(const gsl_function *F,double a,double b,double ea,double er,size_t lim,int key,gsl_integration_workspace *w,double *res,double *err);
int __wrap_gsl_integration_qag(const gsl_function *F,double a,double b,double ea,double er,size_t lim,int key,gsl_integration_workspace *w,double *res,double *err){
 if(F->params!=ctx0||F->function!=f||a!=A||b!=B||er!=P||ea!=0||lim>w->limit){ bad=1; printf("quadrature of [%g,%g] to %g called as [%g,%g], epsabs %g, epsrel %g, limit %zu of %zu\n",A,B,P,a,b,ea,er,lim,w->limit);}
 return __real_gsl_integration_qag(F,a,b,ea,er,lim,key,w,res,err);}
int main(void){ gsl_set_error_handler_off(); static double c[3]; ctx0=c; c[0]=3;
 double as[]={0,-1.5,2,0.25,5}, bs[]={1,2.5,7,0.75,1}, ps[]={1e-5,1e-7,1e-3,1e-9,1e-4};
 for(int i=0;i<5;++i){ A=as[i];B=bs[i];P=ps[i]; double r=coffe_integrate_1d_prec_gsl(f,c,A,B,P); double e=(B*B*B+B)-(A*A*A+A);
  if(!(fabs(r-e)<=1e-9*fabs(e))){ bad=1; printf("integral over [%g,%g] is %.12g instead of %.12g\n",A,B,r,e);} }
 return bad; }
"""
    rc, out, err = world.run_c(code, extra=("-Wl,--wrap=gsl_integration_qag",))
    return (out.strip().split("\n")[0] or "status %d" % rc) if rc else None


DEG = 10
TOL = Fraction(1, 10 ** 12)


def tanh_job(chk, M, k):
    """the double-exponential rule integrates c * t^k (t = position within the range) for every range and amplitude"""
    name = "coffe_integrate_1d_prec_double_exponential"
    tag = "%s of degree %d" % (name, k)
    a, b, c, prec = R("a"), R("b"), R("c"), R("precision")
    outside = []
    half = Fraction(1, 2)

    def func(ex, st, args):
        x = args[0]
        # the position t in [-1, 1] which x stands for
        t = ex.nf(z3.substitute(toz(x), (a, z3.RealVal(-1)), (b, z3.RealVal(1))))
        if not z3.is_rational_value(t):
            raise Unsupported("node which is not fixed")
        t = Fraction(t.numerator_as_long(), t.denominator_as_long())
        d = ex.nf(toz(x) - (a + b) / 2 - z3.RealVal(t) * (b - a) / 2)
        if not (z3.is_rational_value(d) and d.numerator_as_long() == 0):
            raise Unsupported("node which is not affine in the range")
        if abs(t) > 1:
            outside.append(t)
        return c * z3.RealVal(t ** k), st
    ex, st = executor(M, {"integrand": func, "log": s_log})
    ctx = ex.new_obj(st, "context", 16, "heap")
    ex.assume_sign(prec, ">")
    ex.assume_sign(c, ">")
    ex.assume_sign(b - a, ">")
    base = [prec > 0, c > 0, c <= 1, b > a]
    r, st = ex.call(st, name, [Fn("integrand"), ctx, a, b, prec])
    chk.use(ex)
    exact = z3.RealVal(Fraction(0) if k % 2 else Fraction(2, k + 1)) * c
    # value = (b - a) / 2 * sum: compare for the range of length two, and show that it scales
    v = toz(r)
    v = z3.substitute(v, (PI, z3.RealVal(PIQ)), (INVPI, z3.RealVal(1 / PIQ)))
    q = z3.substitute(v, (a, z3.RealVal(-1)), (b, z3.RealVal(1)))
    bad = []
    if outside:
        bad.append("nodes outside the range")
    rr = chk.solve(base + [z3.Or(q - exact > z3.RealVal(TOL) * c, exact - q > z3.RealVal(TOL) * c)], 60000)
    if rr != "unsat":
        bad.append("inaccurate (%s)" % rr)
    n = ex.nf(v - q * (b - a) / 2)
    if not (z3.is_rational_value(n) and n.numerator_as_long() == 0):
        if chk.solve(base + [v != q * (b - a) / 2], 60000) != "unsat":
            bad.append("does not scale with the range")
    bad += events(chk, ex, base, name)
    if not bad:
        return chk.ok(tag)
    hit = native_tanh(k)
    if hit:
        return chk.violated(tag, "; ".join(bad) + ": " + hit, hit, key=name)
    chk.undecide(tag, "; ".join(bad))


def s_log(ex, st, a):
    return ex.uf("log", a[0]), st


def native_tanh(k):
    code = world.includes() + r"""
static double A,B; static int bad; static double f(double x, void *p){ double t=(2*x-A-B)/(B-A); if(fabs(t)>1+1e-12) bad=1; return *(double*)p * pow(t,%d); }
int main(void){ gsl_set_error_handler_off(); double cs[]={1,0.3,1e-3,0.77};
 double as[]={-1,0,1.5,-3}, bs[]={1,1,9,-1};
 for(int i=0;i<4;++i) for(int j=0;j<4;++j){ A=as[i];B=bs[i]; double c=cs[j], r=coffe_integrate_1d_prec_double_exponential(f,&c,A,B,1e-5);
  double e=%s*c*(B-A)/2; if(bad||!(fabs(r-e)<=2e-12*c*(B-A)/2)){ printf("integral of degree %d over [%%g,%%g] with amplitude %%g is %%.15g instead of %%.15g\n",A,B,c,r,e); return 1;} }
 return 0; }
""" % (k, "0.0" if k % 2 else "(2.0/%d)" % (k + 1), k)
    rc, out, err = world.run_c(code)
    return (out.strip() or "status %d" % rc) if rc else None


def cube_job(chk, M, method, dims):
    """the multidimensional integral: the function over the unit cube, with the given number of samples"""
    name = "coffe_integrate_multidimensional"
    tag = "%s, method %d, %d dimensions" % (name, method, dims)
    bins = z3.BitVec("samples", 32)
    calls = []
    live = {}

    def new(kind):
        def f(ex, st, a):
            p = ex.new_obj(st, kind, 64, "lib")
            live[p.o] = (kind, a[0] if a else None)
            return p, st
        return f

    def rel(ex, st, a):
        do_free(ex, st, a[0], "release")
        return None, st

    def integ(kind):
        def f(ex, st, a):
            F, lo, hi, d, n, rng, state, res, err = a
            v = ex.fresh_real("integral")
            fn, dd, par = ex.load(st, PTR, F), ex.load(st, INT(64), ex.padd(F, 8)), ex.load(st, PTR, ex.padd(F, 16))
            los = [ex.load(st, DOUBLE, ex.padd(lo, 8 * i)) for i in range(dims)]
            his = [ex.load(st, DOUBLE, ex.padd(hi, 8 * i)) for i in range(dims)]
            calls.append((kind, fn, dd, par, los, his, d, n, rng, state, v))
            ex.store(st, DOUBLE, v, res)
            return 0, st
        return f
    stubs = {"gsl_rng_env_setup": lambda ex, st, a: (NULL, st), "gsl_rng_alloc": new("rng"), "gsl_rng_free": rel}
    for k in ("plain", "miser", "vegas"):
        stubs["gsl_monte_%s_alloc" % k] = new(k)
        stubs["gsl_monte_%s_free" % k] = rel
        stubs["gsl_monte_%s_integrate" % k] = integ(k)
    ex, st = executor(M, stubs)
    ctx = ex.new_obj(st, "context", 16, "heap")
    base = [bins > 0]
    r, st = ex.call(st, name, [Fn("integrand"), ctx, method, dims, bins])
    chk.use(ex)
    bad = []
    if len(calls) != 1:
        bad.append("%d integrators are called" % len(calls))
    else:
        kind, fn, dd, par, los, his, d, n, rng, state, v = calls[0]
        if kind != ("plain", "miser", "vegas")[method]:
            bad.append("method %s" % kind)
        if not (isinstance(fn, Fn) and fn.name == "integrand"):
            bad.append("another function is integrated")
        if not (isinstance(par, Ptr) and par.o == ctx.o and par.off == 0):
            bad.append("another context is passed on")
        for i, (l, h) in enumerate(zip(los, his)):
            if isinstance(l, Undef) or isinstance(h, Undef) or chk.solve([z3.Or(toz(l) != 0, toz(h) != 1)]) != "unsat":
                bad.append("the range of variable %d is not [0, 1]" % i)
        for what, x in (("dimension of the function", dd), ("dimension of the integral", d)):
            if chk.solve([(x if isz(x) else z3.BitVecVal(x, 64)) != dims]) != "unsat":
                bad.append(what)
        nn = n if isz(n) else z3.BitVecVal(n, 64)
        if chk.solve(base + [nn != z3.SignExt(64 - 32, bins)]) != "unsat":
            bad.append("number of samples")
        if not (isinstance(rng, Ptr) and live.get(rng.o, (0,))[0] == "rng"):
            bad.append("generator of random numbers")
        if not (isinstance(state, Ptr) and live.get(state.o, (0,))[0] == kind and live[state.o][1] == dims):
            bad.append("state of the integrator")
        if isinstance(r, Undef) or chk.solve([toz(r) != v]) != "unsat":
            bad.append("another value is returned")
        for p, (k2, _) in live.items():
            if st.mem[p].freed is not True:
                bad.append("%s is not released" % k2)
    bad += events(chk, ex, base, name)
    if not bad:
        return chk.ok(tag)
    hit = native_cube(method, dims)
    if hit:
        return chk.violated(tag, "; ".join(bad) + ": " + hit, hit, key=name)
    chk.undecide(tag, "; ".join(bad))


def native_cube(method, dims):
    code = world.includes() + r"""
#include <gsl/gsl_monte_plain.h>
#include <gsl/gsl_monte_miser.h>
#include <gsl/gsl_monte_vegas.h>
static int bad, used=-1, K, rngs; static long calls; static double C;
static double f(double *x, size_t n, void *p){ if(p!=&C||n!=D) bad=1; ++calls; for(int i=0;i<D;++i) if(x[i]<0||x[i]>1) bad=1; return C*x[K]*x[K]; }
#define W(kind,num) int __real_gsl_monte_##kind##_integrate(gsl_monte_function*,double*,double*,size_t,size_t,gsl_rng*,gsl_monte_##kind##_state*,double*,double*); \
 int __wrap_gsl_monte_##kind##_integrate(gsl_monte_function*F,double*l,double*h,size_t d,size_t n,gsl_rng*r,gsl_monte_##kind##_state*s,double*v,double*e){ used=num; if(n!=20000||d!=D) bad=2; return __real_gsl_monte_##kind##_integrate(F,l,h,d,n,r,s,v,e);} \
 void __real_gsl_monte_##kind##_free(gsl_monte_##kind##_state*s); void __wrap_gsl_monte_##kind##_free(gsl_monte_##kind##_state*s){ ++rngs; __real_gsl_monte_##kind##_free(s);}
W(plain,0) W(miser,1) W(vegas,2)
void __real_gsl_rng_free(gsl_rng*r); void __wrap_gsl_rng_free(gsl_rng*r){ ++rngs; __real_gsl_rng_free(r);}
int main(void){ gsl_set_error_handler_off(); C=3; for(K=0;K<D;++K){ rngs=0; used=-1; double r=coffe_integrate_multidimensional(f,&C,METHOD,D,20000);
  if(bad||used!=METHOD||rngs!=2||!(fabs(r-1)<0.05)){ printf("method %d, %d dimensions: integral of 3 x_%d^2 over the unit cube is %g (integrator %d, problem %d, %d objects released)\n",METHOD,D,K,r,used,bad,rngs); return 1; } }
 return 0; }
"""
    code = "#define D %d\n#define METHOD %d\n" % (dims, method) + code
    ext = ["-Wl,--wrap=gsl_monte_%s_%s" % (k, w) for k in ("plain", "miser", "vegas") for w in ("integrate", "free")] + ["-Wl,--wrap=gsl_rng_free"]
    rc, out, err = world.run_c(code, extra=tuple(ext))
    return (out.strip() or "status %d" % rc) if rc else None


# ------------------------------------------------------------ interpolation
KIND1 = {"COFFE_INTERP_LINEAR": "linear", "COFFE_INTERP_POLYNOMIAL": "polynomial", "COFFE_INTERP_CSPLINE": "cspline",
         "COFFE_INTERP_CSPLINE_PERIODIC": "cspline_periodic", "COFFE_INTERP_AKIMA": "akima", "COFFE_INTERP_AKIMA_PERIODIC": "akima_periodic",
         "COFFE_INTERP_STEFFEN": "steffen"}
KIND2 = {"COFFE_INTERP2D_BILINEAR": "bilinear", "COFFE_INTERP2D_BICUBIC": "bicubic"}


def spline_job(chk, M, L, en, kind, two):
    name = "coffe_init_spline2d" if two else "coffe_init_spline"
    tag = "%s, %s" % (name, kind)
    n = z3.BitVec("points", 64)
    m = z3.BitVec("points2", 64)
    made, inits, evals = {}, [], []

    def alloc(ex, st, a):
        T = a[0]
        p = ex.new_obj(st, "spline", 64, "lib")
        made[p.o] = (ex.objname.get(T.o, "?").lstrip("@") if isinstance(T, Ptr) else "?", a[1:])
        return p, st

    def init(ex, st, a):
        inits.append(a)
        return 0, st

    def ev(ex, st, a):
        evals.append(a)
        return R("value"), st

    def acc(ex, st, a):
        return ex.new_obj(st, "accel", 24, "lib"), st
    ex, st = executor(M, {"gsl_spline_alloc": alloc, "gsl_spline_init": init, "gsl_interp_accel_alloc": acc, "gsl_spline_eval": ev,
                          "gsl_spline2d_alloc": alloc, "gsl_spline2d_init": init, "gsl_spline2d_eval": ev})
    sn = "coffe_interpolation2d" if two else "coffe_interpolation"
    it = ex.new_obj(st, "interpolation", L.sizes[sn], "heap")
    for k in list(M.globals):
        if k.startswith("gsl_interp"):
            q = ex.global_ptr(st, k)
            st.w(q.o).cells[0] = (8, ex.new_obj(st, k, 64, "lib"))
    xs, ys, zs = (ex.new_obj(st, k, 8 * 64, "heap") for k in ("x", "y", "z"))
    base = [n > 0, m > 0]
    args = [it, xs, ys] + ([zs, n, m] if two else [n]) + [L.enums[en]]
    _, st = ex.call(st.fork(g_add(st.g, z3.And(*base))), name, args)
    bad = []
    gname = "gsl_interp%s_%s" % ("2d" if two else "", kind)
    if len(inits) != 1 or len(made) != 1:
        bad.append("%d interpolations are set up" % len(inits))
    else:
        a, (T, sz) = inits[0], list(made.values())[0]
        if T != gname:
            bad.append("type " + T)
        if not (isinstance(a[0], Ptr) and a[0].o in made):
            bad.append("other object")
        want = [xs, ys] + ([zs] if two else [])
        for p, q in zip(a[1:], want):
            if not (isinstance(p, Ptr) and p.o == q.o and p.off == 0):
                bad.append("other data")
        ns = [n, m] if two else [n]
        for x, y in zip(list(a[1 + len(want):]) + list(sz), ns + ns):
            if chk.solve(base + [(x if isz(x) else z3.BitVecVal(x, 64)) != y]) != "unsat":
                bad.append("number of points")
        p = ex.load(st, PTR, ex.padd(it, L.off(sn, "spline")))
        if not (isinstance(p, Ptr) and p.o in made):
            bad.append("the interpolation is not stored")
        u, w = R("u"), R("w")
        r, st = ex.call(st, "coffe_interp_spline2d" if two else "coffe_interp_spline", [it, u] + ([w] if two else []))
        if len(evals) != 1 or not (isinstance(evals[0][0], Ptr) and evals[0][0].o in made) or chk.solve([z3.Or(toz(evals[0][1]) != u, *([toz(evals[0][2]) != w] if two else []), toz(r) != R("value"))]) != "unsat":
            bad.append("evaluation")
    bad += events(chk, ex, base, name)
    chk.use(ex)
    if not bad:
        return chk.ok(tag)
    hit = native_spline(en, kind, two)
    if hit:
        return chk.violated(tag, "; ".join(bad) + ": " + hit, hit, key=name)
    chk.undecide(tag, "; ".join(bad))


def native_spline(en, kind, two):
    if two:
        code = world.includes() + r"""
int main(void){ gsl_set_error_handler_off(); enum{N=7,M=5}; double x[N],y[M],z[N*M]; for(int i=0;i<N;++i) x[i]=1+i+0.1*i*i; for(int j=0;j<M;++j) y[j]=2+1.5*j; for(int i=0;i<N*M;++i) z[i]=sin(1.3*i)+0.2*i;
 coffe_interpolation2d s; coffe_init_spline2d(&s,x,y,z,N,M,%s); gsl_spline2d *t=gsl_spline2d_alloc(gsl_interp2d_%s,N,M); gsl_spline2d_init(t,x,y,z,N,M);
 for(double u=1.1;u<6;u+=0.37) for(double v=2.1;v<7;v+=0.41){ double p=coffe_interp_spline2d(&s,u,v), q=gsl_spline2d_eval(t,u,v,NULL,NULL); if(!(fabs(p-q)<=1e-12*fabs(q)+1e-14)){ printf("%s interpolation at (%%g,%%g) gives %%.12g instead of %%.12g\n",u,v,p,q); return 1; } }
 return 0; }
""" % (en, kind, kind)
    else:
        code = world.includes() + r"""
int main(void){ gsl_set_error_handler_off(); enum{N=9}; double x[N],y[N]; for(int i=0;i<N;++i){ x[i]=1+i+0.1*i*i; y[i]=sin(1.3*i)+0.2*i;} y[N-1]=y[0];
 coffe_interpolation s; coffe_init_spline(&s,x,y,N,%s); gsl_spline *t=gsl_spline_alloc(gsl_interp_%s,N); gsl_spline_init(t,x,y,N);
 for(double u=1.05;u<x[N-1];u+=0.37){ double p=coffe_interp_spline(&s,u), q=gsl_spline_eval(t,u,NULL); if(!(fabs(p-q)<=1e-12*fabs(q)+1e-14)){ printf("%s interpolation at %%g gives %%.12g instead of %%.12g\n",u,p,q); return 1; } }
 return 0; }
""" % (en, kind, kind)
    rc, out, err = world.run_c(code)
    return (out.strip() or "status %d" % rc) if rc else None


# ---------------------------------------------------------------- Legendre
def leg(n):
    """coefficients of the Legendre polynomial"""
    p, q = [Fraction(1)], [Fraction(0), Fraction(1)]
    if n == 0:
        return p
    for k in range(1, n):
        r = [Fraction(0)] + [c * (2 * k + 1) / (k + 1) for c in q]
        for i, c in enumerate(p):
            r[i] -= c * k / (k + 1)
        p, q = q, r
    return q


def leg4(*ls):
    r = [Fraction(1)]
    for l in ls:
        p = leg(l)
        s = [Fraction(0)] * (len(r) + len(p) - 1)
        for i, x in enumerate(r):
            if x:
                for j, y in enumerate(p):
                    s[i + j] += x * y
        r = s
    return sum((2 * c / (i + 1) for i, c in enumerate(r) if i % 2 == 0), Fraction(0))


_w = {}


def w3(a, b, c):
    """square and sign of the 3j symbol (a b c; 0 0 0)"""
    k = (a, b, c)
    if k not in _w:
        s = a + b + c
        if s % 2 or c < abs(a - b) or c > a + b:
            _w[k] = (Fraction(0), 1)
        else:
            f = math.factorial
            g = s // 2
            v = Fraction(f(s - 2 * a) * f(s - 2 * b) * f(s - 2 * c), f(s + 1)) * Fraction(f(g), f(g - a) * f(g - b) * f(g - c)) ** 2
            _w[k] = (v, -1 if g % 2 else 1)
    return _w[k]


def reduce(ex, r, roots):
    """squares of the roots are rational"""
    q = {ex.atom_id(x): v for x, v in roots.values()}
    out = {}
    for m, c in ex.poly(toz(r)).items():
        rest = []
        for a, k in m:
            if a in q:
                c = c * q[a] ** (k // 2)
                k %= 2
            if k:
                rest.append((a, k))
        rest = tuple(rest)
        out[rest] = out.get(rest, 0) + c
    return toz(ex.from_poly({m: c for m, c in out.items() if c}))


def legendre_job(chk, M, n, top, key=None):
    """coffe_legendre_integral(n, ., ., .) is the integral of the product of four Legendre polynomials"""
    name = "coffe_legendre_integral"
    roots = {}

    def c3(ex, st, a):
        if any(isz(x) for x in a):
            raise Unsupported("symbolic 3j symbol")
        v = [x - (1 << 32) if x >> 31 else x for x in a]
        if any(v[3:]) or any(x % 2 for x in v):
            raise Unsupported("3j symbol with projections")
        if any(x < 0 for x in v):
            return ex.fresh_real("nan"), st
        q, s = w3(*[x // 2 for x in v[:3]])
        if q == 0:
            return Fraction(0), st
        p, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
        if p * p == q.numerator and d * d == q.denominator:
            return Fraction(s * p, d), st
        x = z3.Real("root(%s)" % q)
        roots[str(q)] = (x, q)
        return (x if s > 0 else -x), st
    fails, unk = [], []
    ex, st = executor(M, {"gsl_sf_coupling_3j": c3})
    base = []
    N = 0
    for m in range(top + 1):
        for a in range(top + 1):
            diff = []
            for b in range(top + 1):
                r, s2 = ex.call(State(), name, [n, m, a, b])
                diff.append((b, reduce(ex, r, roots) if not isinstance(r, Undef) else ex.fresh_real("undef")))
                N += 1
            cons = [x > 0 for x, q in roots.values()]
            c = [z3.And(R("which") == b, v != z3.RealVal(leg4(n, m, a, b))) for b, v in diff]
            res = chk.solve(cons + [z3.Or(*c)], 20000)
            if res != "unsat":
                # which one
                for (b, v), cc in zip(diff, c):
                    if chk.solve(cons + [cc], 5000) != "unsat":
                        fails.append((n, m, a, b))
                        break
    chk.use(ex)
    if not fails:
        return chk.ok("%s(%d, ., ., .)" % (name, n))
    hit = native_legendre(fails)
    if hit:
        return chk.violated("%s(%d, ., ., .)" % (name, n), hit, hit, key=key or name)
    chk.undecide("%s(%d, ., ., .)" % (name, n), "%r" % (fails[:3],))


def native_legendre(cases):
    code = world.includes() + "int main(void){ gsl_set_error_handler_off(); double v,e;\n"
    for c in cases:
        e = leg4(*c)
        code += 'v=coffe_legendre_integral(%d,%d,%d,%d); e=%s; if(!(fabs(v-e)<1e-10)){ printf("the integral of P%d P%d P%d P%d is %%.12g instead of %%.12g\\n",v,e); return 1; }\n' % (*c, lit(e), *c)
    rc, out, err = world.run_c(code + "return 0; }\n")
    return (out.strip() or "status %d" % rc) if rc else None


# ------------------------------------------------------------------ arrays
def small(chk, tag, ok, hit):
    """ok() -> list of problems; hit() -> text of the native counterexample"""
    bad = ok()
    if not bad:
        return chk.ok(tag)
    h = hit()
    if h:
        return chk.violated(tag, "; ".join(bad) + ": " + h, h)
    chk.undecide(tag, "; ".join(bad))


def run_small(decl, test):
    code = world.includes() + "int main(void){ gsl_set_error_handler_off(); " + decl + test + "return 0; }\n"
    rc, out, err = world.run_c(code)
    return (out.strip() or "status %d" % rc) if rc else None


def arrays_job(chk, M, n):
    X = [R("x%d" % i) for i in range(n)]
    Y = [R("y%d" % i) for i in range(n)]
    f = R("factor")

    def got(ex, st, p):
        return [toz(ex.load(st, DOUBLE, ex.padd(p, 8 * i))) for i in range(n)]

    def rescale():
        ex, st = executor(M)
        p = arr(ex, st, X)
        _, st = ex.call(st, "coffe_rescale_array", [p, n, f])
        chk.use(ex)
        bad = events(chk, ex, [], "")
        return bad or ([] if n == 0 or chk.solve([z3.Or(*[g != x * f for g, x in zip(got(ex, st, p), X)])]) == "unsat" else ["rescaled array"])
    decl = "double x[8],y[8],o[8]; for(int i=0;i<8;++i){ x[i]=1.5+i*i; y[i]=0.5+0.25*i; o[i]=-7; } "
    small(chk, "coffe_rescale_array of %d" % n, rescale, lambda: run_small(decl, "double z[8]; for(int i=0;i<8;++i) z[i]=x[i]; coffe_rescale_array(z,%d,2.5); for(int i=0;i<8;++i) if(z[i]!=(i<%d?2.5:1)*x[i]){ printf(\"element %%d of %d becomes %%g\\n\",i,z[i]); return 1; }" % (n, n, n)))

    def multiply(same):
        ex, st = executor(M)
        p, q = arr(ex, st, X), arr(ex, st, Y)
        o = p if same else arr(ex, st, [R("o%d" % i) for i in range(n)])
        _, st = ex.call(st, "coffe_multiply_array", [o, p, q, n])
        chk.use(ex)
        bad = events(chk, ex, [], "")
        return bad or ([] if n == 0 or chk.solve([z3.Or(*[g != x * y for g, x, y in zip(got(ex, st, o), X, Y)])]) == "unsat" else ["product"])

    def power():
        ex, st = executor(M)
        p, q = arr(ex, st, X), arr(ex, st, Y)
        s = R("power")
        _, st = ex.call(st, "coffe_multiply_power_array", [p, p, q, n, s])
        chk.use(ex)
        bad = events(chk, ex, [], "")
        return bad or ([] if n == 0 or chk.solve([z3.Or(*[g != x * toz(ex.uf("pow", y, s)) for g, x, y in zip(got(ex, st, p), X, Y)])]) == "unsat" else ["product with powers"])
    for same in (False, True):
        small(chk, "coffe_multiply_array of %d%s" % (n, " in place" if same else ""), lambda: multiply(same), lambda: run_small(decl, "%s coffe_multiply_array(%s,x,y,%d); for(int i=0;i<%d;++i) if(fabs(%s[i]-w[i]*y[i])>1e-12){ printf(\"element %%d of the product is %%g\\n\",i,%s[i]); return 1; }" % ("double w[8]; for(int i=0;i<8;++i) w[i]=x[i];", "x" if same else "o", n, n, "x" if same else "o", "x" if same else "o")))
    small(chk, "coffe_multiply_power_array of %d" % n, power, lambda: run_small(decl, "coffe_multiply_power_array(o,x,y,%d,1.7); for(int i=0;i<%d;++i) if(fabs(o[i]-x[i]*pow(y[i],1.7))>1e-9){ printf(\"element %%d of the product is %%g\\n\",i,o[i]); return 1; }" % (n, n)))
    if n:
        def mx():
            ex, st = executor(M)
            p = arr(ex, st, X)
            r, st = ex.call(st, "coffe_max_array_double", [p, n])
            chk.use(ex)
            bad = events(chk, ex, [], "")
            r = toz(r)
            return bad or ([] if chk.solve([z3.Or(*[x > r for x in X], z3.And(*[x != r for x in X]))]) == "unsat" else ["maximum"])
        small(chk, "coffe_max_array_double of %d" % n, mx, lambda: run_small("", "for(int k=0;k<%d;++k) for(int s=-1;s<2;s+=2){ double x[8]; for(int i=0;i<%d;++i) x[i]=s*10.+i*0.1; x[k]=s*10+5; if(coffe_max_array_double(x,%d)!=x[k]){ printf(\"the maximum of %d numbers, %%g at %%d, is %%g\\n\",x[k],k,coffe_max_array_double(x,%d)); return 1; } }" % (n, n, n, n, n)))

    if n:
        lo, hi = R("xmin"), R("xmax")

        def rng():
            ex, st = executor(M)
            r, st = ex.call(st.fork(g_add(st.g, lo < hi)), "coffe_generate_range", [lo, hi, n])
            chk.use(ex)
            bad = events(chk, ex, [lo < hi], "")
            if bad:
                return bad
            g = got(ex, st, r)
            return [] if chk.solve([lo < hi, z3.Or(*[v != lo + (hi - lo) * i / n for i, v in enumerate(g)])]) == "unsat" else ["range"]
        small(chk, "coffe_generate_range of %d" % n, rng, lambda: run_small("", "double *r=coffe_generate_range(1.5,4,%d); for(int i=0;i<%d;++i) if(fabs(r[i]-(1.5+2.5*i/%d))>1e-12){ printf(\"element %%d of the range is %%g\\n\",i,r[i]); return 1; }" % (n, n, n)))


def scalars_job(chk, M, L):
    def order(name, sign):
        def ok():
            x, y = R("x"), R("y")
            ex, st = executor(M)
            r, st = ex.call(st, name, [arr(ex, st, [x]), arr(ex, st, [y])])
            chk.use(ex)
            r = r if isz(r) else z3.BitVecVal(r, 32)
            c = z3.Or(z3.And(x > y, z3.Not(r > 0 if sign > 0 else r < 0)), z3.And(x < y, z3.Not(r < 0 if sign > 0 else r > 0)), z3.And(x == y, r != 0))
            return events(chk, ex, [], "") or ([] if chk.solve([c]) == "unsat" else ["order"])
        small(chk, name, ok, lambda: run_small("double v[]={-3,-1,0,0.5,2,2};", "for(int i=0;i<6;++i) for(int j=0;j<6;++j){ int r=%s(v+i,v+j), s=%d*((v[i]>v[j])-(v[i]<v[j])); if((r>0)-(r<0)!=s){ printf(\"%s of %%g and %%g is %%d\\n\",v[i],v[j],r); return 1; } }" % (name, sign, name)))
    order("coffe_compare_ascending", 1)
    order("coffe_compare_descending", -1)
    i, j = z3.BitVec("i", 32), z3.BitVec("j", 32)

    def kron():
        ex, st = executor(M)
        r, st = ex.call(st, "coffe_kronecker_delta", [i, j])
        chk.use(ex)
        r = r if isz(r) else z3.BitVecVal(r, 32)
        return [] if chk.solve([r != z3.If(i == j, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))]) == "unsat" else ["value"]
    small(chk, "coffe_kronecker_delta", kron, lambda: run_small("", "for(int i=-3;i<6;++i) for(int j=-3;j<6;++j) if(coffe_kronecker_delta(i,j)!=(i==j)){ printf(\"(%d,%d) gives %d\\n\",i,j,coffe_kronecker_delta(i,j)); return 1; }"))

    def sg():
        ex, st = executor(M)
        r, st = ex.call(st, "coffe_sign", [i])
        chk.use(ex)
        r = r if isz(r) else z3.BitVecVal(r, 32)
        return [] if chk.solve([r != z3.If(z3.Extract(0, 0, i) == 0, z3.BitVecVal(1, 32), z3.BitVecVal(-1, 32))]) == "unsat" else ["value"]
    small(chk, "coffe_sign", sg, lambda: run_small("", "for(int i=-9;i<40;++i) if(coffe_sign(i)!=(i%2?-1:1)){ printf(\"(-1)^%d gives %d\\n\",i,coffe_sign(i)); return 1; }"))

    def win():
        x = R("x")
        ex, st = executor(M, {"gsl_sf_bessel_j1": lambda ex, st, a: (ex.uf("j1", a[0]), st)})
        ex.assume_sign(x, ">")
        r, st = ex.call(st, "coffe_resolution_window", [x])
        chk.use(ex)
        d = ex.nf(toz(r) * x - 3 * toz(ex.uf("j1", x)))
        return [] if chk.solve([x > 0, toz(r) * x != 3 * toz(ex.uf("j1", x))], 10000) == "unsat" or (z3.is_rational_value(d) and d.numerator_as_long() == 0) else ["value"]
    small(chk, "coffe_resolution_window", win, lambda: run_small("", "for(double x=0.1;x<20;x+=0.3){ double e=3*(sin(x)-x*cos(x))/x/x/x, v=coffe_resolution_window(x); if(!(fabs(v-e)<1e-10)){ printf(\"window at %g is %g instead of %g\\n\",x,v,e); return 1; } }"))

    def eos():
        z = R("z")
        ex, st = executor(M)
        o = L
        p = ex.new_obj(st, "par", L.sizes["coffe_parameters_t"], "heap")
        w0, wa = R("w0"), R("wa")
        st.w(p.o).cells[L.off("coffe_parameters_t", "w0")] = (8, w0)
        st.w(p.o).cells[L.off("coffe_parameters_t", "wa")] = (8, wa)
        ex.assume_sign(1 + z, ">")
        r, st = ex.call(st, "coffe_dark_energy_eos", [z, p])
        chk.use(ex)
        d = ex.poly(toz(r) * (1 + z) - w0 * (1 + z) - wa * z)
        return [] if not d or not sig.Sig.clear(None, ex, d) else ["value"]
    small(chk, "coffe_dark_energy_eos", eos, lambda: run_small("static coffe_parameters_t p; p.w0=-0.9; p.wa=0.3;", "for(double z=0;z<5;z+=0.3){ double v=coffe_dark_energy_eos(z,&p), e=-0.9+0.3*z/(1+z); if(fabs(v-e)>1e-12){ printf(\"w(%g) = %g instead of %g\\n\",z,v,e); return 1; } }"))


def wrappers(M):
    """obligations shared with the properties whose checks stand on the contracts of these functions"""
    return [("coffe_integrate_1d_prec_gsl", quad_job, (M,))] + \
        [("double exponential, degree %d" % k, tanh_job, (M, k)) for k in range(DEG + 1)]


def cubes(M):
    return [("multidimensional %d %d" % (m, d), cube_job, (M, m, d)) for m in range(3) for d in range(1, 6)]


def N03(chk):
    M, L = repo.module(), repo.Layout()
    world.library()
    top = 9 if chk.tier == "thorough" else 6
    chk.bounds += ["double-exponential rule: monomials of degree 0 to %d of any amplitude in (0, 1] over any range, to 1e-12; Monte Carlo: 1 to 5 dimensions, any number of samples" % DEG,
                   "Legendre integrals for degrees up to %d; arrays of up to 6 elements; every interpolation type, any number of points" % top]
    chk.assumptions += ["GSL's quadratures, Monte Carlo integrators, interpolations and 3j symbols do what their documentation says"]
    chk.stubs |= {"gsl_integration_*", "gsl_monte_*", "gsl_rng_*", "gsl_spline_*", "gsl_sf_coupling_3j", "gsl_sf_bessel_j1", "log"}
    jobs = wrappers(M) + cubes(M)
    for two, ks in ((False, KIND1), (True, KIND2)):
        jobs += [("interpolation " + k, spline_job, (M, L, e, k, two)) for e, k in ks.items()]
    jobs += [("Legendre %d" % n, legendre_job, (M, n, top)) for n in range(top + 1)]
    jobs += [("arrays of %d" % n, arrays_job, (M, n)) for n in range(7)]
    jobs += [("scalars", scalars_job, (M, L))]
    parallel(chk, jobs)
