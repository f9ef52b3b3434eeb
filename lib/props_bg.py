"""B01: every background function tabulated by coffe_background_init."""
import math
from fractions import Fraction

import z3

import repo
import world
from core import parallel
from env import Env
from gslmodel import *

H0 = real_const(1 / 2997.92458)


def run_bg(chk, M, L, bins, itype, method=3, extra=None):
    ints = {"background_bins": bins, "integration_1d_type": itype, "interp_method": method, "verbose": 0,
            "flatsky_nonlocal": 0, "have_class": 0}
    e = Env(M, L, ints=ints, nl=None, max_steps=40000000)
    ex = e.ex
    g = Gsl(ex)
    # the user's bias splines stay uninterpreted
    own = ex.stubs["gsl_spline_eval"]

    def spl(ex_, st, a):
        if isinstance(a[0], Ptr) and a[0].o in e.splname:
            return e.s_spline(ex_, st, a)
        return own(ex_, st, a)
    ex.stubs["gsl_spline_eval"] = spl
    size = L.sizes["coffe_background_t"]
    bg = ex.new_obj(e.st, "bg", size, "heap", zero=True)
    for p in ("Omega0_cdm", "Omega0_baryon", "Omega0_gamma", "Omega0_de", "h"):
        ex.assume_sign(z3.Real("par." + p), ">")
    Om = z3.Real("par.Omega0_cdm") + z3.Real("par.Omega0_baryon")
    ex.assume_sign(1 - Om, ">")
    r, st = ex.call(e.st, "coffe_background_init", [e.par, bg])
    chk.use(ex)
    return e, g, bg, st


def get_table(L, g, ex, st, bg, name):
    p = ex.load(st, PTR, ex.padd(bg, L.off("coffe_background_t", name + ".spline")))
    if not isinstance(p, Ptr) or p.o not in g.splines:
        return None
    return g.splines[p.o]


def oracle(par, zs):
    """independent evaluation of the background (closed forms, quadrature and ODE by scipy)"""
    from scipy.integrate import quad, solve_ivp
    Om = par["Omega0_cdm"] + par["Omega0_baryon"]
    Og, Od, h, w0, wa = par["Omega0_gamma"], par["Omega0_de"], par["h"], par["w0"], par["wa"]
    H0h = h / 2997.92458

    def w(z):
        return w0 + wa * z / (1 + z)

    def de(z):
        return (1 + z) ** (3 * (1 + w0 + wa)) * math.exp(-3 * wa * z / (1 + z))

    def E(z):
        return math.sqrt(Om * (1 + z) ** 3 + Og * (1 + z) ** 4 + Od * de(z))

    def rhs(a, y):
        z = 1 / a - 1
        x = Om / (1 - Om) * math.exp(-3 * (w0 * math.log(1 / a) + wa * (math.log(1 / a) - (1 - a))))
        return [y[1], -1.5 * (1 - w(z) / (1 + x)) * y[1] / a + 1.5 * x / (1 + x) * y[0] / a ** 2]

    avals = sorted({1 / (1 + z) for z in zs} | {1.0})
    sol = solve_ivp(rhs, (0.05, 1.0), [0.05, 1.0], t_eval=avals, rtol=1e-10, atol=1e-12)
    D = {a: (sol.y[0][i], sol.y[1][i]) for i, a in enumerate(avals)}
    out = {k: [] for k in ("a", "Hz", "conformal_Hz", "conformal_Hz_prime", "D1", "f", "comoving_distance", "G1", "G2")}
    for z in zs:
        a = 1 / (1 + z)
        out["a"].append(a)
        H = E(z) * H0h
        cH = a * H
        out["Hz"].append(H)
        out["conformal_Hz"].append(cH)
        p = -(Om * (1 + z) ** 3 + 2 * Og * (1 + z) ** 4 + (1 + 3 * w(z)) * Od * de(z)) / 2 / (1 + z) ** 2 * H0h ** 2
        out["conformal_Hz_prime"].append(p)
        out["D1"].append(D[a][0] / D[1.0][0])
        out["f"].append(D[a][1] * a / D[a][0])
        chi = quad(lambda t: 1 / E(t), 0, z, epsabs=0, epsrel=1e-11)[0] / H0h if z else 0.0
        out["comoving_distance"].append(chi)
        for i in ("1", "2"):
            s, ev = bias("s" + i, z), bias("e" + i, z)
            out["G" + i].append(p / cH ** 2 + (2 - 5 * s) / (chi * cH) + 5 * s - ev if z > 1e-10 else 0.0)
    return out


BIAS = {"s1": (0.31, 0.05), "s2": (0.72, -0.02), "e1": (0.15, 0.11), "e2": (-0.4, 0.03)}


def bias(n, z):
    a, b = BIAS[n]
    return a + b * z


PARS = [dict(Omega0_cdm=0.25, Omega0_baryon=0.05, Omega0_gamma=0.02, Omega0_de=0.68, h=0.67, w0=-0.8, wa=0.25),
        dict(Omega0_cdm=0.3, Omega0_baryon=0.15, Omega0_gamma=1e-4, Omega0_de=0.5499, h=0.7, w0=-1.2, wa=-0.3)]
TOL = {"a": 1e-9, "Hz": 1e-5, "conformal_Hz": 1e-5, "conformal_Hz_prime": 1e-5, "D1": 2e-4, "f": 2e-4, "comoving_distance": 1e-5,
       "G1": 1e-4, "G2": 1e-4}


def native_bg(par, bins, itype, prec=1e-7):
    names = [n for n in TOL]
    code = world.includes() + r"""
static coffe_interpolation lin(double a,double b){ int n=64; double x[64],y[64]; for(int i=0;i<n;++i){x[i]=20.*i/63;y[i]=a+b*x[i];}
 coffe_interpolation r; r.spline=gsl_spline_alloc(gsl_interp_linear,n); r.accel=gsl_interp_accel_alloc(); gsl_spline_init(r.spline,x,y,n); return r;}
int main(void){ gsl_set_error_handler_off(); static coffe_parameters_t par; static coffe_background_t bg; memset(&par,0,sizeof par); memset(&bg,0,sizeof bg);
"""
    for k, v in par.items():
        code += "par.%s=%.17g;\n" % (k, v)
    for k, n in (("magnification_bias1", "s1"), ("magnification_bias2", "s2"), ("evolution_bias1", "e1"), ("evolution_bias2", "e2")):
        code += "par.%s=lin(%.17g,%.17g);\n" % (k, *BIAS[n])
    code += "par.background_bins=%d; par.integration_1d_type=%d; par.interp_method=3; par.integration_1d_prec=%g;\n" % (bins, itype, prec)
    code += "coffe_background_init(&par,&bg);\n"
    for n in names + ["z_as_chi"]:
        code += 'printf("%s %%zu", bg.%s.spline->size); for(size_t i=0;i<bg.%s.spline->size;++i) printf(" %%.17g %%.17g", bg.%s.spline->x[i], bg.%s.spline->y[i]); printf("\\n");\n' % (n, n, n, n, n)
    code += "return 0;}\n"
    rc, out, err = world.run_c(code)
    t = {}
    for line in out.splitlines():
        v = line.split()
        if len(v) > 2:
            n = int(v[1])
            f = [float(x) for x in v[2:]]
            t[v[0]] = (f[0::2], f[1::2])
            assert len(f) == 2 * n
    return rc, t


def confirm_bg(name, bins, itype):
    def f(bad):
        for par in PARS:
            b = max(bins, 6)
            rc, t = native_bg(par, b, itype)
            if rc:
                return "coffe_background_init ends with status %d for %r" % (rc, par)
            zs = t["a"][0]
            want_z = [15. * i / (b - 1) for i in range(b)]
            o = oracle(par, want_z)
            if name == "z_as_chi":
                x, y = t["z_as_chi"]
                chk = [(x, o["comoving_distance"], 1e-5), (y, want_z, 1e-9)]
            else:
                if name not in t:
                    return "no table %s" % name
                chk = [(t[name][0], want_z, 1e-9), (t[name][1], o[name], TOL[name])]
            for got, want, tol in chk:
                if len(got) != len(want):
                    return "table %s has %d entries instead of %d" % (name, len(got), len(want))
                for i, (a, w) in enumerate(zip(got, want)):
                    if not abs(a - w) <= tol * max(abs(w), 1e-4 if name.startswith("G") else 1e-12) + 1e-300:
                        return "background %s, entry %d (z=%.4g): compiled code has %.10g, required %.10g; parameters %r, bins %d" % (
                            name, i, want_z[i], a, w, par, b)
        return None
    return f


def B01(chk):
    M, L = repo.module(), repo.Layout()
    chk.bounds.append("tables of background_bins = 3 and 4 entries (the loop body is the same for every entry); both quadrature choices; "
                      "all cosmological parameters, bias splines and equation-of-state values symbolic reals, Omega_m < 1")
    chk.assumptions += ["quadrature and the ODE stepper of GSL return the exact integral / flow (N01 and GSL); each evolve step may stop before its target",
                        "GSL interpolation is an uninterpreted function of its nodes", "doubles as reals"]
    chk.stubs |= {"gsl_spline_*", "gsl_odeiv2_*", "coffe_integrate_1d_prec_*"}
    gsl_t, de_t = L.enums["COFFE_INTEGRATION_GSL"], [v for k, v in L.enums.items() if k.startswith("COFFE_INTEGRATION_") and v != L.enums["COFFE_INTEGRATION_GSL"]][0]
    runs = [(4, gsl_t), (3, de_t)] if chk.tier == "quick" else [(b, t) for b in (2, 3, 4, 7) for t in (gsl_t, de_t)]
    import props_num
    parallel(chk, props_num.wrappers(M) + [("%d bins, quadrature %d" % r, one, (M, L) + r) for r in runs], 4)


def one(chk, M, L, bins, itype):
    e, g, bg, st = run_bg(chk, M, L, bins, itype)
    ex = e.ex
    tag = " [%d bins, quadrature %d]" % (bins, itype)
    if st is None:
        rc, t = native_bg(PARS[0], 6, itype)
        if rc:
            chk.violated("termination" + tag, "coffe_background_init does not return", "rc %s" % rc)
        else:
            chk.undecide("termination" + tag, "no path returns")
        return
    R = lambda n: z3.Real("par." + n)
    cdm, b, Og, Ode, h = R("Omega0_cdm"), R("Omega0_baryon"), R("Omega0_gamma"), R("Omega0_de"), R("h")
    Om = cdm + b
    w0, wa = R("w0"), R("wa")
    eq = Eq(chk, ex)
    T = {n: get_table(L, g, ex, st, bg, n) for n in list(TOL) + ["z_as_chi"]}
    zs = [Fraction(15 * i, bins - 1) for i in range(bins)]

    def W(z):       # w(z)
        if not isz(z):
            return w0 + wa * (z / (1 + z))
        return w0 + wa * z * ex.mkinv(1 + z)

    # auxiliary tables: identified by their contents
    used = {}
    okaux = True
    kinds = {}
    for oid, d in g.splines.items():
        if d["xs"] is None or any(d is t for t in T.values()):
            continue
        kinds[oid] = d

    def classify():
        """which auxiliary table is w, which wint, which xint: decided by the solver on all entries"""
        res = {}
        tw = None
        for oid, d in kinds.items():
            bad, r = eq.differs([(i, y, W(x)) for i, (x, y) in enumerate(zip(d["xs"], d["ys"]))])
            if not bad:
                res["w"] = oid
                break
        if "w" not in res:
            return res
        sp = lambda z: ex.uf("spline#%d" % res["w"], z)
        t = g.t
        fw = (1 + sp(t)) * ex.mkinv(1 + t)
        fx = sp(ex.mkinv(t) - 1) * ex.mkinv(t)
        for oid, d in kinds.items():
            if oid == res["w"]:
                continue
            for k, f in (("wint", lambda z: ex.uf("exp", 3 * toz(g.integral(fw, R0, z))) if z else R0 + 1),
                         ("xint", lambda z: ex.rmul(Om * ex.mkinv(1 - Om), ex.uf("exp", -3 * toz(g.integral(fx, 1 / (1 + z), R0 + 1))) if z else R0 + 1))):
                if k in res:
                    continue
                n = len(d["xs"])
                pr = [(i, d["ys"][i], f(d["xs"][i])) for i in (0, 1, n // 2, n - 1)]
                if k == "wint" and isz(d["ys"][0]) and not eq.differs([(0, d["ys"][0], R0 + 1)])[0]:
                    pass
                if eq.differs(pr)[0]:
                    # exp(0) may be left unevaluated at z = 0
                    pr0 = [(0, d["ys"][0], ex.uf("exp", R0))] + pr[1:]
                    if k == "xint" or eq.differs(pr0)[0]:
                        continue
                res[k] = (oid, f)
        return res
    aux = classify()
    names = {}
    for k in ("wint", "xint"):
        if k in aux:
            oid, f = aux[k]
            d = kinds[oid]
            pairs = [(i, y, f(x)) for i, (x, y) in enumerate(zip(d["xs"], d["ys"])) if i]
            eq.equal("table of the %s%s" % ({"wint": "dark-energy density", "xint": "matter to dark-energy ratio"}[k], tag), pairs,
                     confirm_any(("Hz", "D1", "comoving_distance"), bins, itype))
            names[k] = oid
    if "w" in aux:
        names["w"] = aux["w"]
        chk.ok("table of the equation of state" + tag, "solver: every entry equal")
        xs = kinds[aux["w"]]["xs"]
        if not (xs[0] == 0 and xs[-1] >= 19 and len(xs) > 2000):
            chk.undecide("range of the equation-of-state table" + tag, "%s..%s" % (xs[0], xs[-1]))
    miss = [k for k in ("w", "wint", "xint") if k not in names]
    if miss:
        hit = None
        for n in ("Hz", "conformal_Hz_prime", "D1", "f", "comoving_distance"):
            hit = hit or confirm_bg(n, bins, itype)([n])
        if hit:
            chk.violated("auxiliary tables" + tag, "no table holds %s; %s" % (miss, hit), hit)
        else:
            chk.undecide("auxiliary tables" + tag, "cannot identify %s" % miss)
        return
    S = lambda k, z: ex.uf("spline#%d" % names[k], z)
    t = g.t
    hH = h * z3.RealVal(str(H0))

    def E2(z):
        u = 1 + z
        return Om * u * u * u + Og * u * u * u * u + Ode * S("wint", z)

    spec = {n: [] for n in TOL}
    # growth equation
    y0, y1 = z3.Real("ode.y0"), z3.Real("ode.y1")
    ia = ex.mkinv(t)
    zt = ia - 1
    w_, x_ = S("w", zt), S("xint", zt)
    i1x = ex.mkinv(1 + x_)
    rhs = [y1, -Fraction(3, 2) * (1 - w_ * i1x) * y1 * ia + Fraction(3, 2) * x_ * i1x * y0 * ia * ia]
    sid = None
    for k, r in g.systems.items():
        if not eq.differs([(i, a, c) for i, (a, c) in enumerate(zip(r, rhs))])[0]:
            sid = k
    if sid is None:
        hit = confirm_any(("D1", "f"), bins, itype)([])
        if hit:
            chk.violated("growth equation" + tag, hit, hit)
        else:
            chk.undecide("growth equation" + tag, "right-hand side differs: %s" % [str(v)[:300] for v in list(g.systems.values())[:1]])
    else:
        chk.ok("growth equation" + tag, "solver: right-hand side of the growth ODE equals linear growth")
    a0, i0, i1 = rat(0.05), rat(0.05), R0 + 1
    inv_chi = []
    for z in zs:
        a = 1 / (1 + z)
        spec["a"].append(a)
        H = s_sqrt(ex, st, [E2(z)])[0] * hH
        cH = ex.rmul(a, H)
        spec["Hz"].append(H)
        spec["conformal_Hz"].append(cH)
        u = 1 + z
        p = -(Om * u ** 3 + 2 * Og * u ** 4 + (1 + 3 * S("w", z)) * Ode * S("wint", z)) * (1 / u ** 2 / 2) * hH * hH
        spec["conformal_Hz_prime"].append(p)
        D = lambda i, aa: ex.uf("%s[%d]" % (sid, i), a0, i0, i1, aa)
        if sid:
            spec["D1"].append(D(0, a) * ex.mkinv(D(0, R0 + 1)) if z else R0 + 1)
            spec["f"].append(ex.rmul(a, D(1, a)) * ex.mkinv(D(0, a)))
        fc = ex.mkinv(s_sqrt(ex, st, [Om * (1 + t) * (1 + t) * (1 + t) + Og * (1 + t) * (1 + t) * (1 + t) * (1 + t) + Ode * S("wint", t)])[0])
        chi = ex.rmul(g.integral(fc, R0, z), ex.mkinv(hH))
        spec["comoving_distance"].append(chi)
        for i in ("1", "2"):
            s = ex.uf("par.magnification_bias" + i, z)
            ev = ex.uf("par.evolution_bias" + i, z)
            spec["G" + i].append(p * ex.mkinv(cH) * ex.mkinv(cH) + (2 - 5 * s) * ex.mkinv(ex.rmul(chi, cH)) + 5 * s - ev if z else R0)
    for n in TOL:
        d = T[n]
        if n in ("D1", "f") and sid is None:
            continue
        if d is None or d["xs"] is None or len(d["xs"]) != bins:
            hit = confirm_bg(n, bins, itype)([n])
            if hit:
                chk.violated("table %s" % n + tag, hit, hit)
            else:
                chk.undecide("table %s" % n + tag, "not registered")
            continue
        pairs = [("z[%d]" % i, d["xs"][i], zs[i]) for i in range(bins)]
        pairs += [("%s[%d]" % (n, i), d["ys"][i], spec[n][i]) for i in range(bins)]
        eq.equal("%s%s" % (n, tag), pairs, confirm_bg(n, bins, itype))
    d = T["z_as_chi"]
    if d is not None and d["xs"] and len(d["xs"]) == bins:
        eq.equal("z_as_chi" + tag, [("chi[%d]" % i, d["xs"][i], spec["comoving_distance"][i]) for i in range(bins)]
                 + [("z[%d]" % i, d["ys"][i], zs[i]) for i in range(bins)], confirm_bg("z_as_chi", bins, itype))
    else:
        hit = confirm_bg("z_as_chi", bins, itype)([])
        (chk.violated("z_as_chi" + tag, hit, hit) if hit else chk.undecide("z_as_chi" + tag, "not registered"))
    bad = [v for v in ex.events if v.kind in ("oob", "null", "uaf", "doublefree", "badfree", "uninit", "badspline", "wild")]
    if bad:
        chk.undecide("memory" + tag, repr(bad[0]))


def confirm_any(names, bins, itype):
    def f(bad):
        for n in names:
            hit = confirm_bg(n, bins, itype)([n])
            if hit:
                return hit
        return None
    return f
