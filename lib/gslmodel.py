"""Symbolic models of the GSL objects the library uses: splines, integrals, ODE
evolution, vectors/matrices.  They record what the code registers so that checks
can compare it with a specification."""
from fractions import Fraction

import z3

from symex import *
from symex import isz, toz, NULL
from irparse import *


class Gsl:
    def __init__(self, ex):
        self.ex = ex
        self.splines = {}      # oid -> dict(type, n, xs, ys)
        self.spl2 = {}
        self.full = {}         # integrands met so far, by the varying atoms
        self.adep = {}
        self.canon = {}        # contents of an interpolation -> its first object
        self.alias = {}
        self.kind = {}         # oid -> 'spline' ...
        self.ints = {}         # uf name -> (fn, integrand, var)
        self.flow = {}         # atom name -> (sys, t0, y0, t1)
        self.systems = {}
        self.icache = {}
        self.splits = {}
        self.t = z3.Real("int.t")
        self.int_at = []       # (function, lo, hi, prec)
        st = {
            "gsl_spline_alloc": self.spline_alloc, "gsl_spline_init": self.spline_init, "gsl_spline_eval": self.spline_eval,
            "gsl_spline_free": self.rel, "gsl_interp_accel_alloc": self.mk("accel", 24), "gsl_interp_accel_free": self.rel,
            "gsl_spline2d_alloc": self.spline2d_alloc, "gsl_spline2d_init": self.spline2d_init, "gsl_spline2d_eval": self.spline2d_eval,
            "gsl_spline2d_free": self.rel,
            "coffe_integrate_1d_prec_gsl": self.integrate(True), "coffe_integrate_1d_prec_double_exponential": self.integrate(True),
            "coffe_integrate_1d": self.integrate(False),
            "gsl_odeiv2_step_alloc": self.mk("step", 64), "gsl_odeiv2_control_y_new": self.mk("control", 64),
            "gsl_odeiv2_evolve_alloc": self.mk("evolve", 64), "gsl_odeiv2_evolve_apply": self.evolve,
            "gsl_odeiv2_step_free": self.rel, "gsl_odeiv2_control_free": self.rel, "gsl_odeiv2_evolve_free": self.rel,
            "gsl_odeiv2_evolve_reset": s_nop(0), "gsl_odeiv2_step_reset": s_nop(0),
        }
        ex.stubs.update(st)

    def mk(self, kind, size):
        def f(ex, st, a):
            p = ex.new_obj(st, "%s#%d" % (kind, ex.nobj + 1), size, "lib")
            self.kind[p.o] = kind
            return p, st
        return f

    def rel(self, ex, st, a):
        do_free(ex, st, a[0], "release")
        return None, st

    # ---------------------------------------------------------- splines
    def gname(self, ex, p):
        return ex.objname.get(p.o, "?").lstrip("@") if isinstance(p, Ptr) else "?"

    def spline_alloc(self, ex, st, a):
        T, n = a
        # struct { interp*, double *x, double *y, size_t size }
        p = ex.new_obj(st, "spline#%d" % (ex.nobj + 1), 32, "lib")
        self.kind[p.o] = "spline"
        self.splines[p.o] = {"type": self.gname(ex, T), "n": n, "xs": None, "ys": None}
        st.w(p.o).cells[24] = (8, n)
        return p, st

    def spline_init(self, ex, st, a):
        p, x, y, n = a
        if isz(n):
            raise Unsupported("spline of symbolic size")
        d = self.splines[p.o]
        if d["n"] != n:
            ex.event("badspline", st, "spline initialised with %s points, allocated for %s" % (n, d["n"]))
        xs = [ex.load(st, DOUBLE, ex.padd(x, 8 * i)) for i in range(n)]
        ys = [ex.load(st, DOUBLE, ex.padd(y, 8 * i)) for i in range(n)]
        d["xs"], d["ys"] = xs, ys
        ident = lambda v: v.get_id() if isz(v) else v
        key = (d["type"],) + tuple(map(ident, xs)) + tuple(map(ident, ys))
        if not any(isinstance(v, (Undef, Multi)) for v in xs + ys):
            self.alias[p.o] = self.canon.setdefault(key, (p.o, xs, ys))[0]
        for off, v in ((8, xs), (16, ys)):
            q = ex.new_obj(st, "spline data", 8 * n, "lib")
            for i, e in enumerate(v):
                st.w(q.o).cells[8 * i] = (8, e)
            st.w(p.o).cells[off] = (8, q)
        return 0, st

    def sname(self, st, p):
        if isinstance(p, Ptr) and p.o in self.splines:
            o = st.mem.get(p.o)
            if o is not None and o.freed is not None:
                self.ex.event("uaf", st, "evaluation of a released spline")
            return "spline#%d" % self.alias.get(p.o, p.o)
        return None

    def spline_eval(self, ex, st, a):
        n = self.sname(st, a[0])
        if n is None:
            ex.event("badspline", st, "evaluation of a spline that was never set (%r)" % (a[0],))
            return ex.fresh_real("badspline"), st
        return ex.uf(n, a[1]), st

    def spline2d_alloc(self, ex, st, a):
        p = ex.new_obj(st, "spline2d#%d" % (ex.nobj + 1), 64, "lib")
        self.kind[p.o] = "spline2d"
        self.spl2[p.o] = {"type": self.gname(ex, a[0]), "n": (a[1], a[2])}
        return p, st

    def spline2d_init(self, ex, st, a):
        p, x, y, z, nx, ny = a
        d = self.spl2[p.o]
        if d["n"] != (nx, ny):
            ex.event("badspline", st, "2d spline sizes differ")
        d["xs"] = [ex.load(st, DOUBLE, ex.padd(x, 8 * i)) for i in range(nx)]
        d["ys"] = [ex.load(st, DOUBLE, ex.padd(y, 8 * i)) for i in range(ny)]
        d["zs"] = [ex.load(st, DOUBLE, ex.padd(z, 8 * i)) for i in range(nx * ny)]
        return 0, st

    def spline2d_eval(self, ex, st, a):
        if not (isinstance(a[0], Ptr) and a[0].o in self.spl2):
            ex.event("badspline", st, "evaluation of a 2d spline that was never set")
            return ex.fresh_real("badspline"), st
        return ex.uf("spline2d#%d" % a[0].o, a[1], a[2]), st

    # --------------------------------------------------------- integrals
    def split(self, p, var):
        """p = c * q with c free of var (monomial content and leading coefficient)"""
        ex = self.ex
        dep = {}

        def depends(aid):
            if aid not in dep:
                dep[aid] = mentions(ex, ex.atomlist[aid], var)
            return dep[aid]
        ms = sorted(p, key=lambda m: (sum(n for _, n in m), m))
        common = {k: n for k, n in ms[0] if not depends(k)}
        for m in ms[1:]:
            dm = dict(m)
            common = {k: min(n, dm[k]) for k, n in common.items() if k in dm}
        lead = p[ms[0]]
        q = {}
        for m, c in p.items():
            dm = dict(m)
            for k, n in common.items():
                dm[k] -= n
                if not dm[k]:
                    del dm[k]
            q[tuple(sorted(dm.items()))] = c / lead
        cc = {tuple(sorted((k, n) for k, n in common.items())): lead}
        return ex.from_poly(cc), ex.from_poly(q)

    def atom_depends(self, aid):
        if aid not in self.adep:
            self.adep[aid] = mentions(self.ex, self.ex.atomlist[aid], self.t)
        return self.adep[aid]

    def vanishes(self, p, q):
        """p - q is zero as a rational function"""
        import sig
        d = dict(p)
        for m, c in q.items():
            v = d.get(m, 0) - c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        if len(d) > 1500:
            return False
        return not sig.Sig.clear(None, self.ex, d)

    def integral(self, integrand, lo, hi):
        """term for the integral of `integrand` (in self.t) from lo to hi"""
        ex = self.ex
        if not isz(integrand) and integrand == 0:
            return R0
        ky = toz(integrand).get_id()
        if ky not in self.splits:
            p = ex.poly(toz(integrand))
            if not p:
                return R0
            c, q = self.split(p, self.t)
            nm = "int{%s}" % q.get_id()
            if nm not in self.ints:
                # the same integrand may have another normal form (reciprocals of sums)
                atoms = frozenset(a for m in p for a, _ in m if self.atom_depends(a))
                for p2, c2, nm2 in self.full.get(atoms, ()):
                    if self.vanishes(p, p2):
                        c, nm, q = c2, nm2, self.ints[nm2]
                        break
                else:
                    self.full.setdefault(atoms, []).append((p, c, nm))
            self.ints[nm] = q
            ex.nfkeep.append((integrand, q))
            self.splits[ky] = c, nm
        c, nm = self.splits[ky]
        if not isz(lo) and not isz(hi) and lo == hi:
            return R0
        return ex.rmul(c, ex.uf(nm, lo, hi))

    def snap(self, fn, ctx, st):
        """identity of (function, contents of its context)"""
        if not isinstance(ctx, Ptr) or ctx.o not in st.mem:
            return None
        c = st.mem[ctx.o].cells
        if len(c) > 64:
            return None
        return (fn.name, ctx.o, ctx.off, tuple((k, v[0], v[1].get_id() if isz(v[1]) else
                                                (v[1].o, str(v[1].off)) if isinstance(v[1], Ptr) else id(v[1]))
                                               for k, v in sorted(c.items())))

    def integrate(self, prec):
        def f(ex, st, a):
            fn, ctx, lo, hi = a[:4]
            if not isinstance(fn, Fn):
                raise Unsupported("integrand %r" % (fn,))
            key = self.snap(fn, ctx, st)
            r = self.icache.get(key)
            if r is None:
                v, st2 = ex.call(st, fn.name, [self.t, ctx])
                r = (v, list(st.mem[ctx.o].cells.values()) if key else None)
                if key:
                    self.icache[key] = r
            self.int_at.append((fn.name, lo, hi, a[4] if prec else None))
            return self.integral(r[0], lo, hi), st
        return f

    # --------------------------------------------------------------- ODE
    def evolve(self, ex, st, a):
        ev, con, step, sys, pt, t1, ph, py = a
        # gsl_odeiv2_system {function, jacobian, dimension, params}
        fn = ex.load(st, PTR, sys)
        dim = ex.load(st, INT(64), ex.padd(sys, 16))
        par = ex.load(st, PTR, ex.padd(sys, 24))
        t = ex.load(st, DOUBLE, pt)
        y = [ex.load(st, DOUBLE, ex.padd(py, 8 * i)) for i in range(dim)]
        ys = [z3.Real("ode.y%d" % i) for i in range(dim)]
        key = self.snap(fn, par, st)
        if key not in self.icache:
            yo = ex.new_obj(st, "ode.y", 8 * dim, "stack")
            fo = ex.new_obj(st, "ode.f", 8 * dim, "stack")
            for i in range(dim):
                st.w(yo.o).cells[8 * i] = (8, ys[i])
            ex.call(st, fn.name, [self.t, yo, fo, par])
            rhs = [ex.nf(toz(ex.load(st, DOUBLE, ex.padd(fo, 8 * i)))) for i in range(dim)]
            self.icache[key] = (rhs, list(st.mem[par.o].cells.values()))
        rhs = self.icache[key][0]
        sid = "ode{%s}" % ",".join(str(r.get_id()) for r in rhs)
        self.systems[sid] = rhs
        ex.nfkeep.append(rhs)
        # an application advances at most to t1: the first one reaches the middle only
        org = None
        names = [v.decl().name() if isz(v) and v.num_args() == 0 else None for v in y]
        if all(n in self.flow for n in names):
            o = [self.flow[n] for n in names]
            if all(q[:3] == o[0][:3] and q[4] == i for i, q in enumerate(o)) and o[0][0] == sid and same(ex, o[0][3], t):
                org = o[0]
        if org is None:
            t0, y0, target = t, tuple(y), ex.rmul(ex.radd(t, t1), Fraction(1, 2))
        else:
            t0, y0, target = org[1], org[2], t1
        for i in range(dim):
            v = ex.uf("%s[%d]" % (sid, i), t0, *y0, target)
            self.flow[v.decl().name()] = (sid, t0, y0, target, i)
            ex.store(st, DOUBLE, v, ex.padd(py, 8 * i))
        ex.store(st, DOUBLE, target, pt)
        return 0, st


def same(ex, a, b):
    if not isz(a) and not isz(b):
        return a == b
    return ex.nf(toz(a)).eq(ex.nf(toz(b)))


def mentions(ex, term, var, seen=None):
    """does term (through uninterpreted functions too) depend on var"""
    seen = {} if seen is None else seen
    todo = [term]
    while todo:
        x = todo.pop()
        if not isz(x) or x.get_id() in seen:
            continue
        seen[x.get_id()] = x
        if x.eq(var):
            return True
        todo += x.children()
        if x.num_args() == 0 and x.decl().name() in ex.bysym:
            todo += ex.bysym[x.decl().name()][1]
    return False


class Eq:
    """equality obligations over all values, aggregated in one query"""

    def __init__(self, chk, ex):
        self.chk, self.ex = chk, ex

    def differs(self, pairs, timeout=20000, extra=(), quick=True):
        """labels of the pairs (label, code, spec) the solver does not prove equal; second value: verdict"""
        ex, chk = self.ex, self.chk
        if quick and len(pairs) > 64:
            few = pairs[::max(1, len(pairs) // 8)]
            bad, r = self.differs(few, timeout, extra, False)
            if bad:
                return bad, r
        ps = []
        for lab, c, s in pairs:
            if not isz(c) and not isz(s):
                c, s = z3.RealVal(str(Fraction(c))), z3.RealVal(str(Fraction(s)))
            ps.append((lab, toz(c), toz(s)))
        bad = []
        rest = []
        for lab, c, s in ps:
            if c.eq(s):
                continue
            d = ex.poly(c - s)
            rest.append((lab, ex.from_poly(d), c, s))
        base = list(ex.sign_list) + list(extra)
        r = chk.solve(base + [z3.Or([d != 0 for _, d, _, _ in rest])], timeout)
        if r == "unsat":
            return [], r
        for lab, d, c, s in rest:
            if z3.is_rational_value(d) and d.numerator_as_long() == 0:
                continue
            ax = [z3.Real(n) * q == 1 for n, q in ex.inv.items()]
            r1 = chk.solve(base + [d != 0] + ax, 8000)
            if r1 != "unsat":
                e = self.cleared(c, s)
                r1 = "unsat" if e is not None and chk.solve(base + [e != 0], 4000) == "unsat" else r1
            if r1 != "unsat":
                bad.append(lab)
                if len(bad) >= 6:
                    break
        return bad, r

    def cleared(self, c, s):
        import sig
        try:
            p = sig.Sig.clear(None, self.ex, self.ex.poly(c - s))
        except Exception:
            return None
        return self.ex.from_poly(p)

    def equal(self, name, pairs, confirm=None, key=None):
        bad, r = self.differs(pairs)
        if not bad:
            self.chk.ok(name, "solver: equal for every input (%d equations)" % len(pairs))
            return True
        if confirm is None:
            self.chk.undecide(name, "differs at %s" % (bad[:5],))
            return False
        hit = confirm(bad)
        if hit:
            self.chk.replays.append(name)
            self.chk.violated(name, "%s (solver: differs at %s)" % (hit[:400], bad[:6]), hit, key)
        else:
            self.chk.undecide(name, "solver: differs at %s, but the compiled code agrees with the specification" % (bad[:5],))
        return False
