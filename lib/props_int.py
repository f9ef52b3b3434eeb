"""I01, I02: the tabulated integrals of the power spectrum (integrals.c)."""
import math
from fractions import Fraction

import z3

import repo
import world
from core import parallel
from env import Env
from gslmodel import *
from symex import rat, s_nop, s_sqrt, sgn, PI, INVPI
from irparse import *

BASE = [(0, 0), (0, 2), (0, 4), (1, 1), (1, 3), (2, 0), (2, 2), (3, 1)]
CONTR = ("den", "rsd", "d1", "d2", "g1", "g2", "g3", "g4", "g5", "len")
POTENTIAL = ("d2", "g1", "g2", "g3", "g4", "g5")


class Run:
    """coffe_integrals_init executed on symbolic settings"""

    def __init__(self, M, L, cfg, ls=(), nbins=3, nk=3, nsep=2, nz=2, nt=2, concrete=False, contents=True, more=None):
        R = z3.Real
        self.L, self.cfg, self.ls, self.nbins = L, cfg, list(ls), nbins
        ints = dict(verbose=0, nthreads=1, have_class=0, pk_type=0, midpoint_approximation=0, interp_method=5, covariance_interpolation_method=2,
                    bessel_bins=nbins, multipole_values_len=len(self.ls), sep_len=nsep, z_mean_len=nz, deltaz_len=nz, zmin_len=nt, zmax_len=nt)
        ints.update(cfg)
        self.vals = {"sep": [R("sep_%d" % i) for i in range(nsep)], "multipole_values": self.ls}
        for k, n in (("z_mean", nz), ("deltaz", nz), ("zmin", nt), ("zmax", nt)):
            self.vals[k] = [R("%s_%d" % (k, i)) for i in range(n)]
        self.vals.update(more or {})
        self.cache = {}
        ptrs = {k: self.arr(k) for k in self.vals}
        self.kx, self.py = [R("k_%d" % i) for i in range(nk)], [R("pk_%d" % i) for i in range(nk)]
        ptrs["power_spectrum_norm.spline"] = self.pk_spline
        e = self.e = Env(M, L, ints=ints, nl=None, ptrs=ptrs, max_steps=200000000)
        ex = self.ex = e.ex
        g = self.g = Gsl(ex)
        self.S2, self.SP = ex.uf("sqrt", Fraction(2)), ex.uf("sqrt", PI)
        own = ex.stubs["gsl_spline_eval"]
        self.fft = []

        def spl(ex_, st, a):
            if isinstance(a[0], Ptr) and a[0].o in e.splname:
                return e.s_spline(ex_, st, a)
            if isinstance(a[0], Ptr) and "pk" in self.cache and a[0].o == self.cache["pk"][0].o:
                return ex_.uf("P", a[1]), st
            return own(ex_, st, a)
        ex.stubs["gsl_spline_eval"] = spl
        ex.stubs["twofast_1bessel"] = self.twofast
        ex.stubs["gsl_sf_bessel_jl"] = lambda ex, st, a: (ex.uf("j[%d]" % sgn(a[0]), a[1]), st)
        ex.stubs["gsl_sf_bessel_j0"] = lambda ex, st, a: (ex.uf("j[0]", a[0]), st)
        ex.stubs["gsl_sf_bessel_j1"] = lambda ex, st, a: (ex.uf("j[1]", a[0]), st)
        ex.stubs["gsl_sf_bessel_Jn"] = lambda ex, st, a: (ex.uf("J[%d]" % sgn(a[0]), a[1]), st)
        ex.stubs["gsl_sf_bessel_J0"] = lambda ex, st, a: (ex.uf("J[0]", a[0]), st)
        ex.stubs["gsl_sf_bessel_J1"] = lambda ex, st, a: (ex.uf("J[1]", a[0]), st)
        ex.stubs["gsl_sf_gamma"] = self.gamma
        ex.stubs["sqrt"] = self.sqrt
        ex.stubs["time"] = ex.stubs["clock"] = s_nop(0)
        ex.stubs.setdefault("gsl_set_error_handler_off", lambda ex, st, a: (NULL, st))
        ex.stubs.setdefault("gsl_set_error_handler", lambda ex, st, a: (NULL, st))
        if not contents:
            for n in ("coffe_integrate_1d_prec_gsl", "coffe_integrate_1d_prec_double_exponential", "coffe_integrate_1d"):
                ex.stubs[n] = lambda ex, st, a: (Fraction(1), st)
        for v in self.kx + [R("par.k_min_norm"), R("par.k_max_norm")]:
            ex.assume_sign(v, ">")
        for v in self.vals["sep"]:
            ex.assume_sign(v, ">")

    def sqrt(self, ex, st, a):
        x = a[0]
        if isz(x):
            p = ex.poly(x)
            if len(p) == 1:
                (m, c), = p.items()
                names = {ex.atomlist[k].get_id(): n for k, n in m}
                if names == {PI.get_id(): 1} and c == Fraction(1, 2):
                    return self.SP * self.S2 * Fraction(1, 2), st
                if names == {PI.get_id(): 1} and c == 2:
                    return self.SP * self.S2, st
                if names == {INVPI.get_id(): 1} and c == 2:
                    return 2 * ex.mkinv(self.S2) * ex.mkinv(self.SP), st
        return s_sqrt(ex, st, a)

    def gamma(self, ex, st, a):
        x = a[0]
        if isinstance(x, Fraction) and x > 0:
            if x.denominator == 1:
                return Fraction(math.factorial(int(x) - 1)), st
            if x.denominator == 2:
                r, y = Fraction(1), Fraction(1, 2)
                while y < x:
                    r, y = r * y, y + 1
                return ex.rmul(r, self.SP), st
        return ex.uf("gamma", x), st

    def arr(self, m):
        def f(env, st):
            if m not in self.cache:
                w = 4 if m == "multipole_values" else 8
                p = env.ex.new_obj(st, m, w * len(self.vals[m]), "heap")
                for i, v in enumerate(self.vals[m]):
                    st.w(p.o).cells[w * i] = (w, v)
                self.cache[m] = (p, st.mem[p.o])
            p, o = self.cache[m]
            st.mem.setdefault(p.o, o)
            return p
        return f

    def pk_spline(self, env, st):
        ex = env.ex
        if "pk" not in self.cache:
            n = len(self.kx)
            p = ex.new_obj(st, "power_spectrum_norm.spline", 32, "lib")
            objs = [p]
            for off, vs in ((8, self.kx), (16, self.py)):
                q = ex.new_obj(st, "power_spectrum data", 8 * n, "lib")
                for i, v in enumerate(vs):
                    st.w(q.o).cells[8 * i] = (8, v)
                st.w(p.o).cells[off] = (8, q)
                objs.append(q)
            st.w(p.o).cells[24] = (8, n)
            self.cache["pk"] = (p, {o.o: st.mem[o.o] for o in objs})
        p, os_ = self.cache["pk"]
        for o, v in os_.items():
            st.mem.setdefault(o, v)
        return p

    def twofast(self, ex, st, a):
        ox, oy, n, ix, iy, ni, l, nu, r0, k0, kmin, kmax, flag = a
        i = len(self.fft)
        c = dict(n=n, l=l, nu=nu, r0=r0, k0=k0, kmin=kmin, kmax=kmax, ni=ni,
                 x=[ex.load(st, DOUBLE, ex.padd(ix, 8 * j)) for j in range(ni)], y=[ex.load(st, DOUBLE, ex.padd(iy, 8 * j)) for j in range(ni)])
        # abscissae common to every transform with the same arguments
        c["ox"] = [z3.Real("fft.x_%d" % j) for j in range(n)]
        c["oy"] = [z3.Real("fft%d.y_%d" % (i, j)) for j in range(n)]
        for j in range(n):
            ex.assume_sign(c["ox"][j], ">")
            ex.store(st, DOUBLE, c["ox"][j], ex.padd(ox, 8 * j))
            ex.store(st, DOUBLE, c["oy"][j], ex.padd(oy, 8 * j))
        self.fft.append(c)
        return None, st

    def go(self):
        ex, st = self.ex, self.e.st
        self.top = ex.new_obj(st, "integral", self.L.sizes["coffe_integral_array_t"], "heap", zero=True)
        r, self.st = ex.call(st, "coffe_integrals_init", [self.e.par, self.e.bg, self.top])
        return self.st

    def tables(self):
        """[(n, l, state_n, state_l, {member: interpolation})]"""
        ex, L, st = self.ex, self.L, self.st
        size = ex.load(st, INT(64), ex.padd(self.top, L.off("coffe_integral_array_t", "size")))
        base = ex.load(st, PTR, ex.padd(self.top, L.off("coffe_integral_array_t", "array")))
        out = []
        for i in range(size):
            p = ex.padd(base, i * L.sizes["coffe_integral_t"])
            ld = lambda m, t=INT(32): ex.load(st, t, ex.padd(p, L.off("coffe_integral_t", m)))
            d = {}
            for m in ("result", "result2d", "renormalization", "renormalization_zero_separation"):
                q = ld(m + ".spline", PTR)
                d[m] = self.g.splines.get(q.o, self.g.spl2.get(q.o)) if isinstance(q, Ptr) and q.o else None
            out.append((sgn(ld("n")), sgn(ld("l")), ld("state_n"), ld("state_l"), d))
        return out


def init_events(ex):
    return [ev for ev in ex.events if ev.kind in ("null", "badspline", "oob", "uaf", "doublefree", "undef")]


# ----------------------------------------------------------------------- I01
def I01(chk):
    M, L = repo.module(), repo.Layout()
    chk.bounds.append("all 1024 selections of contributions (symbolic), cross-only switch, derivative modes off, every combination of the two plane-parallel "
                      "options that select integrals, output types 1-3, multipoles 0-9 queried with the list [0, 2] configured; symbolic redshifts, separations, angles")
    chk.assumptions += ["the potential contributions set the renormalization switch (parser.c, coffe.pyx; Y03)", "GSL interpolation and quadrature uninterpreted"]
    chk.stubs |= {"gsl_spline_*", "twofast_1bessel", "coffe_integrate_*"}
    jobs = []
    for ot in ("CORRFUNC", "MULTIPOLES", "AVERAGE_MULTIPOLES"):
        for ln in (0, 1):
            for nl in (0, 1):
                for div in (0, 1):
                    jobs.append(("%s, plane-parallel (%d, %d), potentials %d" % (ot, ln, nl, div), lookups, (M, L, ot, ln, nl, div)))
    jobs.append(("range of the renormalization", coverage, (M, L)))
    parallel(chk, jobs)


def lookups(chk, M, L, ot, ln, nl, div):
    name = "%s, plane-parallel (%d, %d), potentials %d: every integral used is tabulated" % (ot, ln, nl, div)
    cfg = dict(flatsky_local_nonlocal=ln, flatsky_nonlocal=nl, divergent=div, output_type=L.enums[ot], b_derivative=0, f_derivative=0,
               b_tilde_derivative=0, f_tilde_derivative=0, integration_1d_type=L.enums["COFFE_INTEGRATION_GSL"])
    if not div:
        cfg.update({"correlation_contrib." + c: 0 for c in POTENTIAL})
    r = Run(M, L, cfg, ls=[0, 2], nbins=2, contents=False)
    ex = r.ex
    st = r.go()
    chk.use(ex)
    if st is None:
        hit = native_lookup(ot, ln, nl, div, None)
        return chk.violated(name, hit, hit) if hit else chk.undecide(name, "coffe_integrals_init does not return")
    keep = len(ex.events)
    used = set()
    own = ex.stubs["gsl_spline_eval"]
    nf = [0]

    def value(ex_, st_, a):
        p = a[0]
        alts = p.alts if isinstance(p, Multi) else [(z3.BoolVal(True), p)]
        for c, q in alts:
            if not (isinstance(q, Ptr) and (q.o in r.e.splname or q.o in r.g.kind or q.o == r.cache.get("pk", (NULL,))[0].o)):
                if isinstance(q, Ptr) and q.o == 0 or isinstance(q, Undef):
                    ex_.event("badspline", st_, "evaluation of a table that was not computed", c)
        nf[0] += 1
        return z3.Real("v%d" % (nf[0] % 40)), st_
    ex.stubs["gsl_spline_eval"] = ex.stubs["gsl_spline2d_eval"] = value

    def quad(dim):
        def f(ex_, st_, a):
            fn, ctx = a[0], a[1]
            if dim == 1:
                v, s2 = ex_.call(st_, fn.name, [z3.Real("q0"), ctx])
            else:
                vs = ex_.new_obj(st_, "nodes", 8 * 8, "stack")
                for i in range(8):
                    st_.w(vs.o).cells[8 * i] = (8, z3.Real("q%d" % i))
                v, s2 = ex_.call(st_, fn.name, [vs, a[3], ctx])
            return Fraction(0), s2 if s2 is not None else st_
        return f
    for n in ("coffe_integrate_1d_prec_gsl", "coffe_integrate_1d_prec_double_exponential"):
        ex.stubs[n] = quad(1)
    ex.stubs["coffe_integrate_multidimensional"] = quad(2)
    E = L.enums
    R = z3.Real
    if div:
        # the switch is on exactly because one of these is selected
        pass
    for l in (range(10) if ot == "MULTIPOLES" else (0, 2)):
        for kind in ("NONINTEGRATED", "SINGLE_INTEGRATED", "DOUBLE_INTEGRATED"):
            ex.call(st.fork(st.g) if hasattr(st, "fork") else st, "coffe_integrate",
                    [r.e.par, r.e.bg, r.top, R("z_mean"), R("z_min"), R("z_max"), R("sep"), R("mu"), l & 0xffffffff, E[kind], E[ot]])
            bad = [ev for ev in ex.events[keep:] if ev.kind in ("null", "badspline", "oob", "uaf", "deref")]
            reach = []
            for ev in bad:
                g = [x for x in ([ev.extra] if isz(ev.extra) else [])]
                if chk.solve([g_expr(ev.g)] + g, 20000) != "unsat":
                    reach.append(ev)
            tag = " [l = %d, %s]" % (l, kind)
            if reach:
                hit = native_lookup(ot, ln, nl, div, l)
                if hit:
                    chk.violated(name + tag, hit, hit)
                else:
                    chk.undecide(name + tag, "%s: %s" % (reach[0].where, str(reach[0].detail)[:120]))
                return
            chk.ok(name + tag, "solver: %d potential failures unreachable" % len(bad) if bad else "no path reaches a missing table")
            keep = len(ex.events)


SELECT = [("den", "len"), ("rsd", "len"), ("len",), ("den", "rsd", "d1", "len"), ("den", "rsd", "d1")]


def setup_code(flags, nl, ot, ls, extra=""):
    code = world.includes() + r"""
#include <math.h>
static coffe_parameters_t par; static coffe_background_t bg; static coffe_integral_array_t ia;
static void lin(coffe_interpolation*r,double a,double b){double x[40],y[40];for(int i=0;i<40;++i){x[i]=20.*i/39;y[i]=a+b*x[i];} coffe_init_spline(r,x,y,40,1);}
static void setup(void){ gsl_set_error_handler_off();
 int n=400; static double k[400],p[400]; for(int i=0;i<n;++i){k[i]=1e-4*pow(10./1e-4,i/(n-1.)); double q=k[i]/0.02; p[i]=2e4*q/(pow(1+q*q,1.3));}
 coffe_init_spline(&par.power_spectrum_norm,k,p,n,5); par.k_min_norm=k[0]*1.0001; par.k_max_norm=k[n-1]*0.999; par.bessel_bins=1024; par.nthreads=8;
 par.interp_method=5; par.covariance_interpolation_method=2; par.h=.67; par.Omega0_cdm=.26; par.Omega0_baryon=.05; par.Omega0_de=.69; par.w0=-1;
 par.integration_1d_type=COFFE_INTEGRATION_GSL; par.integration_1d_prec=1e-4; par.background_bins=500; par.integration_bins=200; par.integration_method=2;
 lin(&par.magnification_bias1,.1,.02); lin(&par.magnification_bias2,.2,.01); lin(&par.evolution_bias1,.1,0); lin(&par.evolution_bias2,.2,0);
 lin(&par.galaxy_bias1,1,.2); lin(&par.galaxy_bias2,1.4,.3);
 coffe_background_init(&par,&bg);
 static double zm[]={1.,1.3},dz[]={.2,.1},sp[]={50,100},za[]={.9},zb[]={1.6};
 par.z_mean=zm;par.z_mean_len=2;par.deltaz=dz;par.deltaz_len=2;par.sep=sp;par.sep_len=2;par.zmin=za;par.zmin_len=1;par.zmax=zb;par.zmax_len=1;
"""
    for k, v in flags.items():
        code += "par.%s=%d;\n" % (k, v)
    code += "static int ml[]={%s}; par.multipole_values=ml; par.multipole_values_len=%d;\n" % (",".join(map(str, ls)), len(ls))
    return code + extra + "}\n"


def native_lookup(ot, ln, nl, div, l):
    """the same query on the compiled program; description of the failure or None"""
    L = repo.Layout()
    sets = list(SELECT) + ([("d2", "g4", "g5", "len", "den")] if div else [])
    body = ""
    for s in sets:
        for c in CONTR:
            body += "par.correlation_contrib.%s=%d;" % (c, int(c in s))
        for li in ([l] if l is not None else [0, 2]):
            for k in ("NONINTEGRATED", "SINGLE_INTEGRATED", "DOUBLE_INTEGRATED"):
                body += 'puts("contributions %s, multipole %d, %s"); coffe_integrate(&par,&bg,&ia,1.0,0.9,1.1,50,0.3,%d,%s,%s);\n' % ("+".join(s), li, k, li, k, ot)
    flags = dict(flatsky_local_nonlocal=ln, flatsky_nonlocal=nl, divergent=div, output_type=L.enums[ot])
    code = setup_code(flags, None, ot, [0, 2]) + 'int main(void){ setvbuf(stdout,0,_IONBF,0); setup(); puts("coffe_integrals_init"); coffe_integrals_init(&par,&bg,&ia);\n' \
        + body + 'printf("OK\\n"); return 0;}\n'
    rc, out, err = world.run_c(code, timeout=600)
    if rc:
        return "the compiled program crashes (%s) with flatsky_local_nonlocal=%d, flatsky_nonlocal=%d, multipoles configured 0 and 2" % (
            out.strip().split("\n")[-1][-120:] + ", status %s" % rc, ln, nl)
    return None


def coverage(chk, M, L):
    """the renormalization reaches every comoving distance the outputs evaluate it at"""
    name = "renormalization covers the comoving distances of the outputs"
    for nsep, nz, nt in ((2, 2, 2), (0, 2, 1), (1, 0, 2), (2, 1, 0)):
        r = Run(M, L, dict(divergent=1, flatsky_local_nonlocal=0, flatsky_nonlocal=0, output_type=L.enums["MULTIPOLES"]), nbins=2, contents=False,
                nsep=nsep, nz=nz, nt=nt)
        ex = r.ex
        tag = " [%d separations, %d redshifts, %d ranges]" % (nsep, nz, nt)
        if r.go() is None:
            chk.undecide(name + tag, "does not return")
            continue
        chk.use(ex)
        t = [d for n, l, a, b, d in r.tables() if (n, l) == (4, 0)]
        if not t or not t[0]["renormalization"]:
            chk.undecide(name + tag, "no table")
            continue
        t = t[0]["renormalization"]
        chi = lambda z: ex.uf("bg.comoving_distance", z)
        need = []
        for i in range(nz):
            for s in r.vals["sep"]:
                need.append(("chi(z_mean) + r/2", chi(r.vals["z_mean"][i]) + s / 2))
        for i in range(nt):
            need.append(("chi(z_max)", chi(r.vals["zmax"][i])))
        pos = [v > 0 for v in r.vals["sep"]]
        for ax in ("xs", "ys"):
            lo, hi = t[ax][0], toz(t[ax][-1])
            for lab, v in need:
                rr = chk.solve(pos + [hi < v])
                if rr != "unsat":
                    hit = native_coverage()
                    if hit:
                        chk.violated(name + tag, hit, hit)
                    else:
                        chk.undecide(name + tag, "%s: %s" % (lab, rr))
                    break
            else:
                rr = chk.solve([toz(lo) > 0])
                if rr == "unsat":
                    chk.ok(name + tag + " axis " + ax, "solver: %d requirements" % len(need))
                else:
                    chk.undecide(name + tag, "lower end")


def native_coverage():
    """compare the tabulated range with what the configured outputs evaluate"""
    for sp, zm, zb in (((50, 700), (1.0, 1.3), 1.6), ((50, 900), (1.3, 0.4), 0.7), ((30, 20), (0.3, 0.4), 0.9)):
        ex = "sp[0]=%r;sp[1]=%r;zm[0]=%r;zm[1]=%r;zb[0]=%r;" % (sp + zm + (zb,))
        code = setup_code(dict(divergent=1, output_type=2), None, "MULTIPOLES", [0], extra=ex) + r"""
int main(void){ setup(); coffe_integrals_init(&par,&bg,&ia); coffe_integral_t*t=coffe_find_integral(&ia,4,0,COFFE_INTEGER,COFFE_INTEGER);
 double need=coffe_interp_spline(&bg.comoving_distance,par.zmax[0]);
 for(int i=0;i<2;++i) for(int j=0;j<2;++j){double v=coffe_interp_spline(&bg.comoving_distance,par.z_mean[i])+par.sep[j]/2; if(v>need) need=v;}
 gsl_spline2d*s=t->renormalization.spline; printf("%.17g %.17g %.17g %.17g %.17g\n",need,s->xarr[0],s->xarr[s->interp_object.xsize-1],s->yarr[0],s->yarr[s->interp_object.ysize-1]); return 0;}"""
        rc, out, err = world.run_c(code, timeout=600)
        if rc:
            return "coffe_integrals_init ends with status %d" % rc
        need, a, b, c, d = map(float, out.split())
        if a > 0 or c > 0 or b < need * (1 - 1e-12) or d < need * (1 - 1e-12):
            return "separations %r, redshifts %r, range up to %r evaluate the renormalization at chi = %.6g Mpc; it is tabulated for [%g, %.6g] x [%g, %.6g]" % (
                sp, zm, zb, need, a, b, c, d)
    return None


# ----------------------------------------------------------------------- I02
def small(ex, g, P, n, l, half, r, kmin, kmax, R_):
    """r^(n-l) (or 1) times int k^2 P j_l(kr)/(kr)^n dk / 2 pi^2, n and l halved when half"""
    t = g.t
    den = Fraction(2) if half else Fraction(1)
    N, Ld = n / den, l / den
    if half:
        # j_{l/2}(x) / x^(n/2) = sqrt(pi/2) J_{(l+1)/2}(x) / x^((n+1)/2)
        f = ex.uf("J[%d]" % ((l + 1) // 2), ex.rmul(t, r))
        m = int((n + 1) // 2)
        c = R_.SP * R_.S2 * Fraction(1, 2)
    else:
        f = ex.uf("j[%d]" % l, ex.rmul(t, r))
        m = n
        c = Fraction(1)
    iv = ex.mkinv(ex.rmul(t, r)) if isz(r) or r else None
    f = toz(f)
    for _ in range(m):
        f = ex.rmul(f, iv)
    f = t * t * ex.uf("P", t) * f
    v = ex.rmul(c, g.integral(ex.nf(f), kmin, kmax))
    if N >= Ld:
        v = ex.rmul(v, ex.rpow(r, int(N - Ld)))
    return ex.rmul(v, INVPI * INVPI * Fraction(1, 2))


def at_zero(ex, g, n, l, half, kmin, kmax, R_):
    """limit r -> 0 of the above"""
    t = g.t
    if l > n:
        return R0
    p = Fraction(2) + (Fraction(l - n, 2) if half else l - n)
    f = ex.uf("P", t)
    if p >= 0:
        f = ex.rmul(ex.rpow(t, int(p)), f)
    else:
        for _ in range(int(-p)):
            f = ex.rmul(ex.mkinv(t), f)
    if half:
        c = R_.SP * R_.S2 * Fraction(1, 2)         # sqrt(pi/2) J_m(x)/x^m -> sqrt(pi/2) / (2^m m!)
        m = (l + 1) // 2
        c = ex.rmul(c, Fraction(1, 2 ** m * math.factorial(m)))
    else:
        d = 1
        for i in range(1, l + 1):
            d *= 2 * i + 1
        c = Fraction(1, d)
    return ex.rmul(ex.rmul(c, g.integral(ex.nf(toz(f)), kmin, kmax)), INVPI * INVPI * Fraction(1, 2))


def I02(chk):
    M, L = repo.module(), repo.Layout()
    chk.bounds.append("transform length 3; power spectra of 3 nodes (symbolic nodes and values); every tabulated separation of the short range, "
                      "of the divergent integral and every node pair of its renormalization; multipole list [0, 2, 4]")
    chk.assumptions += ["GSL quadrature returns the integral (N01)", "twofast_1bessel returns the FFTLog transform at its abscissae (N01)",
                        "GSL Bessel and gamma functions are exact", "doubles as reals"]
    chk.stubs |= {"gsl_spline_*", "twofast_1bessel", "coffe_integrate_1d_prec_*", "gsl_sf_bessel_*", "gsl_sf_gamma"}
    E = L.enums
    jobs = [("tables", contents, (M, L, dict(divergent=0, flatsky_local_nonlocal=1, flatsky_nonlocal=1, output_type=E["MULTIPOLES"]))),
            ("divergent integral", contents, (M, L, dict(divergent=1, flatsky_local_nonlocal=0, flatsky_nonlocal=0, output_type=E["CORRFUNC"])))]
    import props_num
    parallel(chk, jobs + [w for w in props_num.wrappers(M) if w[0].endswith("gsl")], 4)


def contents(chk, M, L, cfg):
    # one distance sets the range here; its choice among the outputs is I01
    r = Run(M, L, cfg, ls=[0, 2, 4], nsep=0, nz=0, nt=1)
    ex, g = r.ex, r.g
    ex.assume_sign(ex.uf("bg.comoving_distance", r.vals["zmax"][0]), ">")
    if r.go() is None:
        hit = native_tables(cfg, None)
        return chk.violated("termination", hit, hit) if hit else chk.undecide("termination", "coffe_integrals_init does not return")
    chk.use(ex)
    eq = Eq(chk, ex)
    kmin, kmax = z3.Real("par.k_min_norm"), z3.Real("par.k_max_norm")
    rows = r.tables()
    seen = {}
    for n, l, sn, sl, d in rows:
        if (n, l, sn, sl) in seen:
            continue
        seen[n, l, sn, sl] = d
    want = [(n, l, 0, 0) for n, l in BASE]
    if cfg["divergent"]:
        want.append((4, 0, 0, 0))
    else:
        want += [(1, -1, 1, 1)] + [(1, l, 0, 0) for l in (0, 2, 4)] + [(l + 3, l + 1, 1, 1) for l in (0, 2, 4)]
    for key in want:
        n, l, sn, sl = key
        nm = "I(%d%s,%d%s)" % (n, "/2" if sn else "", l, "/2" if sl else "")
        conf = confirm_tables(cfg, key)
        if key not in seen or not seen[key]["result"] or seen[key]["result"]["xs"] is None:
            hit = conf([])
            if hit:
                chk.violated(nm, hit, hit)
            else:
                chk.undecide(nm, "no table")
            continue
        t = seen[key]["result"]
        if (n, l) == (4, 0):
            divergent(chk, r, eq, seen[key], kmin, kmax)
            continue
        xs, ys = t["xs"], t["ys"]
        # the transform with these indices
        lf, nf_ = (Fraction(l, 2), Fraction(n, 2)) if sn else (Fraction(l), Fraction(n))
        # the transform whose outputs this table holds
        nfft = r.nbins
        mine = [c for c in r.fft if any(mentions(ex, toz(y), c["oy"][-1]) for y in ys[-1:])]
        if len(mine) != 1:
            hit = conf([])
            if hit:
                chk.violated(nm, hit, hit)
            else:
                chk.undecide(nm, "transform not found among the entries")
            continue
        c = mine[0]
        pairs = [("order of the transform", c["l"], lf), ("power of the transform", c["nu"], nf_), ("first abscissa", c["r0"], Fraction(1)),
                 ("k_min", c["kmin"], kmin), ("k_max", c["kmax"], kmax), ("k_0", c["k0"], kmin)]
        pairs += [("P(k) node %d" % i, a, b) for i, (a, b) in enumerate(zip(c["x"] + c["y"], r.kx + r.py))]
        if c["n"] != nfft or c["ni"] != len(r.kx):
            chk.undecide(nm, "sizes of the transform")
            continue
        ns = len(xs) - nfft
        resc = 1
        if key == (1, -1, 1, 1):
            # stored as int k P(k) J_0(kr) dk
            resc = 2 * ex.mkinv(r.S2) * ex.mkinv(r.SP) * 2 * PI * PI
        for i in range(nfft):
            pairs.append(("r, transform %d" % i, xs[ns + i], c["ox"][i]))
            v = c["oy"][i]
            if nf_ >= lf:
                v = v * ex.rpow(c["ox"][i], int(nf_ - lf))
            pairs.append(("value, transform %d" % i, ys[ns + i], ex.rmul(v, resc) if isz(resc) else v))
        ok = all(not isz(x) for x in xs[:ns]) and xs[0] == 0 and all(a < b for a, b in zip(xs[:ns], xs[1:ns])) and xs[ns - 1] < 1 and xs[ns - 1] > Fraction(3, 4) and ns > 20
        if not ok:
            hit = conf([])
            if hit:
                chk.violated(nm + ": separations", hit, hit)
            else:
                chk.undecide(nm + ": separations", "%d short separations" % ns)
            continue
        for i in range(ns):
            v = at_zero(ex, g, n, l, sn, kmin, kmax, r) if i == 0 else small(ex, g, "P", n, l, sn, xs[i], kmin, kmax, r)
            pairs.append(("value, r = %s" % float(xs[i]), ys[i], ex.rmul(v, resc) if isz(resc) else v))
        eq.equal(nm, pairs, conf)
    ev = init_events(ex)
    if ev:
        for x in ev[:3]:
            if chk.solve([g_expr(x.g)]) != "unsat":
                chk.undecide("memory", "%s %s" % (x.kind, str(x.detail)[:100]))
                break


def divergent(chk, r, eq, d, kmin, kmax):
    ex, g = r.ex, r.g
    t = g.t
    P = ex.uf("P", t)
    half = INVPI * INVPI * Fraction(1, 2)
    conf = confirm_tables(r.cfg, (4, 0, 0, 0))
    j0 = lambda x: ex.uf("j[0]", ex.rmul(t, x))
    ik = ex.mkinv(t)

    def undecided(what):
        hit = conf([])
        if hit:
            chk.violated("I(4,0): " + what, hit, hit)
        else:
            chk.undecide("I(4,0): " + what, "unexpected table")
    q = d["result"]
    xs = q["xs"]
    if any(isz(x) for x in xs) or any(a >= b for a, b in zip(xs, xs[1:])) or xs[0] > rat(1e-6) or xs[-1] < 10000 or len(xs) < 100:
        return undecided("separations")
    eq.equal("I(4,0): r^4 I", [("r = %s" % float(x), y, ex.rmul(g.integral(ex.nf(P * j0(x) * ik * ik), kmin, kmax), half)) for x, y in zip(xs, q["ys"])], conf)
    q = d["renormalization_zero_separation"]
    if not q or q["xs"] is None:
        return undecided("renormalization at coinciding points")
    xs = q["xs"]
    if any(isz(x) for x in xs) or any(a >= b for a, b in zip(xs, xs[1:])) or xs[0] != 0 or xs[-1] < 10000 or len(xs) < 100:
        return undecided("distances of the renormalization at coinciding points")
    pairs = [("chi = %s" % float(x), y, ex.rmul(g.integral(ex.nf(P * (1 - j0(x) * j0(x)) * ik * ik), kmin, kmax), half) if x else R0) for x, y in zip(xs, q["ys"])]
    eq.equal("I(4,0): limit at coinciding points", pairs, conf)
    q = d["renormalization"]
    if not q or "zs" not in q:
        return undecided("renormalization")
    xs, ys, zs = q["xs"], q["ys"], q["zs"]
    if len(xs) < 50 or len(ys) < 50:
        return undecided("resolution of the renormalization")
    for nm, ax in (("first", xs), ("second", ys)):
        n = len(ax) - 1
        eq.equal("I(4,0): renormalization, %s distance equally spaced from 0" % nm, [("node %d" % i, x, toz(ax[-1]) * Fraction(i, n)) for i, x in enumerate(ax)], conf)
    pairs = []
    j0x, j0y = [j0(x) for x in xs], [j0(y) for y in ys]
    for j, y in enumerate(ys):
        for i, x in enumerate(xs):
            pairs.append(((i, j), zs[j * len(xs) + i], (i, j)))
    # every node: the integrand of the two distances
    out = []
    base = P * ik * ik
    for lab, v, (i, j) in pairs:
        out.append((lab, v, ex.rmul(g.integral(ex.nf(base * j0x[i] * j0y[j]), kmin, kmax), half)))
    eq.equal("I(4,0): renormalization at every pair of distances", out, conf)


def confirm_tables(cfg, key):
    return lambda bad: native_tables(cfg, key)


def Pk(k):
    q = k / 0.02
    return 2e4 * q / (1 + q * q) ** 1.3


def native_tables(cfg, key):
    """tables of the compiled program against direct quadrature in C"""
    flags = dict(cfg)
    keys = [key] if key else [(n, l, 0, 0) for n, l in BASE]
    code = setup_code(flags, None, None, [0, 2, 4]) + r"""
#include <gsl/gsl_sf_bessel.h>
#include <gsl/gsl_sf_gamma.h>
#include <gsl/gsl_integration.h>
static double R1,R2; static int N,LL,half,mode;
static double f(double k,void*q){ double P=coffe_interp_spline(&par.power_spectrum_norm,k);
 if(mode==0){ double x=k*R1; if(half) return k*k*P*sqrt(M_PI/2)*gsl_sf_bessel_Jn((LL+1)/2,x)/pow(x,(N+1)/2.); return k*k*P*gsl_sf_bessel_jl(LL,x)/pow(x,N);}
 if(mode==1) return P*(1-pow(gsl_sf_bessel_j0(k*R1),2))/k/k;
 if(mode==3) return P*pow(k,2+(LL-N)/(half?2.:1.));
 return P*gsl_sf_bessel_j0(k*R1)*gsl_sf_bessel_j0(k*R2)/k/k; }
static gsl_integration_workspace*w;
static double quad(void){ gsl_function F={f,0}; double r,e,t=0,a=log(par.k_min_norm),b=log(par.k_max_norm); int m=24; for(int i=0;i<m;++i){ gsl_integration_qag(&F,exp(a+(b-a)*i/m),exp(a+(b-a)*(i+1)/m),1e-13,1e-8,20000,6,w,&r,&e); t+=r;} return t/2/M_PI/M_PI;}
static void cmp(const char*what,double at,double got,double want,double scale,double tol){ if(!(fabs(got-want)<=tol*(fabs(want)+scale))) { printf("BAD %s at %g: table %.10g, integral %.10g\n",what,at,got,want); exit(0);} }
int main(void){ setup(); coffe_integrals_init(&par,&bg,&ia); w=gsl_integration_workspace_alloc(20000);
"""
    for n, l, sn, sl in keys:
        nm = "I(%d%s,%d%s)" % (n, "/2" if sn else "", l, "/2" if sl else "")
        half = int(sn)
        pw = (n - l) / (2 if half else 1)
        resc = "*(sqrt(2/M_PI)*2*M_PI*M_PI)" if (n, l, sn) == (1, -1, 1) else ""
        code += '{coffe_integral_t*t=coffe_find_integral(&ia,%d,%d,%s,%s); if(!t||!t->result.spline){printf("BAD %s is not tabulated\\n");return 0;}\n' % (
            n, l, "COFFE_HALF_INTEGER" if sn else "COFFE_INTEGER", "COFFE_HALF_INTEGER" if sl else "COFFE_INTEGER", nm)
        code += "N=%d;LL=%d;half=%d;mode=0;\n" % (n, l, half)
        if (n, l) == (4, 0):
            code += 'mode=2; double xs[]={1e-4,.7,12,77.3,455,3000,9000}; for(int i=0;i<7;++i){R1=xs[i];R2=0; cmp("%s",R1,coffe_interp_spline(&t->result,R1),quad(),0,1e-3);}\n' % nm
            code += 'mode=1; double cs[]={.7,31,450,1300,2200}; for(int i=0;i<5;++i){R1=cs[i]; cmp("limit of %s at coinciding points",R1,coffe_interp_spline(&t->renormalization_zero_separation,R1),quad(),0,2e-3);} cmp("limit at coinciding points",0,coffe_interp_spline(&t->renormalization_zero_separation,0),0,1,1e-6);\n' % nm
            code += 'mode=2; gsl_spline2d*s=t->renormalization.spline; int nx=s->interp_object.xsize,ny=s->interp_object.ysize; for(int i=0;i<=nx-1;i+=(nx-1)/8) for(int j=0;j<=ny-1;j+=(ny-1)/7){R1=s->xarr[i];R2=s->yarr[j]; if(R1==0)R1=1e-9; if(R2==0)R2=1e-9; cmp("renormalization, first distance",R2,s->zarr[j*nx+i],quad(),0,1e-3);}\n'
            code += '}\n'
            continue
        code += 'double xs[]={2e-6,3e-3,.03,.4,.9}; for(int i=0;i<5;++i){R1=xs[i]; gsl_spline*s=t->result.spline; int k=1; while(s->x[k]<R1*.9999) ++k; R1=s->x[k]; cmp("%s",R1,s->y[k],quad()%s%s,1e-12,1e-3);}\n' % (
            nm, resc, "*pow(R1,%r)" % pw if pw >= 0 else "")
        code += 'double ls[]={8,40,120}; for(int i=0;i<3;++i){R1=ls[i]; cmp("%s",R1,coffe_interp_spline(&t->result,R1),quad()%s%s,fabs(coffe_interp_spline(&t->result,5)),2e-2);}\n' % (
            nm, resc, "*pow(R1,%r)" % pw if pw >= 0 else "")
        if pw >= 0:
            c = "sqrt(M_PI/2)/pow(2,%d)/gsl_sf_fact(%d)" % ((l + 1) // 2, (l + 1) // 2) if half else "1./gsl_sf_doublefact(%d)" % (2 * l + 1)
            code += 'mode=3; cmp("%s",0,t->result.spline->y[0],quad()*%s%s,0,1e-3);\n' % (nm, c, resc)
        else:
            code += 'cmp("%s",0,t->result.spline->y[0],0,1e-9,1e-3);\n' % nm
        code += 'if(t->result.spline->x[0]!=0) cmp("%s: first separation",0,t->result.spline->x[0],0,0,1);\n}\n' % nm
    code += 'printf("OK\\n"); return 0;}\n'
    rc, out, err = world.run_c(code, timeout=600)
    if rc:
        return "coffe_integrals_init ends with status %s" % rc
    if out.startswith("BAD"):
        return "compiled code: " + out.strip()[4:]
    return None
