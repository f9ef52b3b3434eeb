"""T01: parallel loops.  Every OpenMP loop is executed for a symbolic iteration from
an arbitrary state at its start; the solver decides whether two different iterations
can touch the same memory (or library state) without a common lock."""
import os
import re
import subprocess
import time
from fractions import Fraction

import z3

import props_cov
import props_int
import repo
import world
from core import parallel
from symex import *
from symex import g_expr, isz, toz, NULL
from irparse import *

BIG = 64            # loops and arrays above this are not executed a second time


def zero64(v):
    return v if isz(v) else z3.BitVecVal(v, 64)


class Late(Exception):
    pass


class Race:
    def __init__(self, ex, chk, cheap=False):
        self.ex, self.chk = ex, chk
        self.it = None
        self.locks = []
        self.log = None
        self.nreg = 0
        self.regions = []
        self.found = []        # (region, text)
        self.tok = {}
        self.nv = 0
        self.private = set()
        self.cheap = cheap
        self.enter = False
        self.late = set()
        s = ex.stubs
        s["__kmpc_push_num_threads"] = s["__kmpc_for_static_fini"] = s_nop(0)
        s["__kmpc_global_thread_num"] = s_nop(0)
        s["__kmpc_fork_call"] = self.fork
        for t in ("4", "4u", "8", "8u"):
            w = 32 if t[0] == "4" else 64
            s["__kmpc_for_static_init_" + t] = lambda ex, st, a, w=w: self.static_init(st, a, w)
            s["__kmpc_dispatch_init_" + t] = lambda ex, st, a, w=w: self.dispatch_init(st, a, w)
            s["__kmpc_dispatch_next_" + t] = lambda ex, st, a, w=w: self.dispatch_next(st, a, w)
            s["__kmpc_dispatch_fini_" + t] = s_nop(0)
        s["__kmpc_dispatch_deinit"] = s_nop(0)
        s["__kmpc_critical"] = s["__kmpc_critical_with_hint"] = self.lock
        s["__kmpc_end_critical"] = self.unlock
        s["__kmpc_reduce_nowait"] = s["__kmpc_reduce"] = lambda ex, st, a: (self.locks.append(("reduction",)), (1, st))[1]
        s["__kmpc_end_reduce_nowait"] = s["__kmpc_end_reduce"] = self.unlock
        s["omp_get_thread_num"] = self.tid
        s["omp_get_max_threads"] = s["omp_get_num_threads"] = s["omp_get_num_procs"] = s_nop(4)
        for n in ("gsl_set_error_handler_off", "gsl_set_error_handler"):
            s[n] = self.state_write("error handler of GSL", NULL)
        s["gsl_rng_env_setup"] = self.state_write("defaults of GSL's random generators", NULL)
        s["gsl_rng_alloc"] = self.rng
        for n in ("gsl_rng_free", "gsl_integration_workspace_free", "gsl_monte_plain_free", "gsl_monte_miser_free", "gsl_monte_vegas_free",
                  "gsl_interp_accel_free"):
            s[n] = s_nop(None)
        for n in ("gsl_integration_workspace_alloc", "gsl_monte_plain_alloc", "gsl_monte_miser_alloc", "gsl_monte_vegas_alloc"):
            s[n] = self.mk(n)
        for n in ("qag", "qags", "qng"):
            s["gsl_integration_" + n] = self.qag
        for n in ("plain", "miser", "vegas"):
            s["gsl_monte_%s_integrate" % n] = self.monte
        s["tanhsinh_quad"] = self.tanhsinh
        for n in ("fftw_plan_dft_r2c_1d", "fftw_plan_dft_c2r_1d", "fftw_plan_dft_r2c_2d", "fftw_plan_dft_c2r_2d", "fftw_destroy_plan"):
            s[n] = self.state_write("planner of FFTW", NULL)
        for n in ("printf", "fprintf", "fflush", "puts", "putchar", "fputc", "fwrite", "puts", "fputs"):
            s[n] = s_nop(0)
        new = ex.new_obj

        def new_obj(st, name, size, kind="heap", lazy=None, zero=False):
            p = new(st, name, size, kind, lazy, zero)
            if self.it is not None and kind != "global" and lazy is None:
                self.private.add(p.o)
            return p
        ex.new_obj = new_obj
        ex.omp_iter = self

    # ------------------------------------------------------------ effects
    def token(self, name):
        if name not in self.tok:
            self.ex.nobj += 1
            self.tok[name] = self.ex.nobj
            self.ex.objname[self.ex.nobj] = name
        return self.tok[name]

    def touch(self, st, oid, write):
        if self.log is not None:
            self.log.append((oid, 0, 8, write, st.g, tuple(self.locks), self.ex.where()))

    def state_write(self, name, ret):
        def f(ex, st, a):
            self.touch(st, self.token(name), True)
            return ret, st
        return f

    def rng(self, ex, st, a):
        self.touch(st, self.token("defaults of GSL's random generators"), False)
        return ex.new_obj(st, "generator", 8, "lib"), st

    def mk(self, n):
        return lambda ex, st, a: (ex.new_obj(st, n.replace("_alloc", ""), 8, "lib"), st)

    def value(self):
        self.nv += 1
        return z3.Real("v!%d" % self.nv)

    def lib_write(self, st, p):
        for q in ([q for _, q in p.alts] if isinstance(p, Multi) else [p]):
            if isinstance(q, Ptr) and q.o and q.o not in self.private:
                self.touch(st, q.o, True)

    def spline(self, naccel, at):
        def f(ex, st, a):
            for p in a[at:at + naccel]:
                if isinstance(p, Undef):
                    self.touch(st, self.token("accelerator"), True)
                else:
                    self.lib_write(st, p)
            return self.value(), st
        return f

    def qag(self, ex, st, a):
        F = a[0]
        fn = ex.load(st, PTR, F)
        ctx = ex.load(st, PTR, ex.padd(F, 8))
        v, st2 = ex.call(st, fn.name, [self.value(), ctx])
        st = st2 if st2 is not None else st
        for p in a[4:]:
            if isinstance(p, Ptr) and ex.objname.get(p.o, "").startswith("gsl_integration_workspace"):
                self.lib_write(st, p)
        ps = [p for p in a[4:] if isinstance(p, Ptr) and p.o and not ex.objname.get(p.o, "").startswith("gsl_integration_workspace")]
        for p in ps[:2]:
            ex.store(st, DOUBLE, self.value(), p)
        return 0, st

    def monte(self, ex, st, a):
        F = a[0]
        fn = ex.load(st, PTR, F)
        dim = ex.load(st, INT(64), ex.padd(F, 8))
        ctx = ex.load(st, PTR, ex.padd(F, 16))
        dim = dim if not isz(dim) else 4
        x = ex.new_obj(st, "point", 8 * dim, "stack")
        self.private.add(x.o)
        for i in range(dim):
            st.w(x.o).cells[8 * i] = (8, self.value())
        v, st2 = ex.call(st, fn.name, [x, dim, ctx])
        st = st2 if st2 is not None else st
        self.lib_write(st, a[5])
        self.lib_write(st, a[6])
        for p in a[7:9]:
            ex.store(st, DOUBLE, self.value(), p)
        return 0, st

    def tanhsinh(self, ex, st, a):
        v, st2 = ex.call(st, a[0].name, [self.value(), a[1]])
        st = st2 if st2 is not None else st
        if isinstance(a[5], Ptr) and a[5].o:
            ex.store(st, DOUBLE, self.value(), a[5])
        return self.value(), st

    def tid(self, ex, st, a):
        if self.it is None:
            return 0, st
        return z3.BitVec("omp.tid", 32), st

    def lock(self, ex, st, a):
        p = [x for x in a if isinstance(x, Ptr) and x.o]
        self.locks.append(tuple(x.o for x in p[-1:]))
        return None, st

    def unlock(self, ex, st, a):
        if self.locks:
            self.locks.pop()
        return None, st

    # -------------------------------------------------------------- loops
    def static_init(self, st, a, w):
        if self.it is not None:
            lb, ub = a[4], a[5]
            T = INT(w)
            lo, hi = self.ex.load(st, T, lb), self.ex.load(st, T, ub)
            self.bounds(lo, hi, w)
            self.ex.store(st, T, self.it, lb)
            self.ex.store(st, T, self.it, ub)
        return None, st

    def bounds(self, lo, hi, w):
        self.enter = True
        if isz(lo) or isz(hi):
            raise Unsupported("symbolic loop bounds")
        self.it = z3.BitVec("omp.i", w)
        self.range = (lo, hi, w)

    def dispatch_init(self, st, a, w):
        self.dlo, self.dhi, self.dn = a[3], a[4], 0
        if self.it is not None:
            self.bounds(a[3], a[4], w)
        return None, st

    def dispatch_next(self, st, a, w):
        self.dn += 1
        if self.dn > 1:
            return 0, st
        T = INT(w)
        lo, hi = (self.it, self.it) if self.it is not None else (self.dlo, self.dhi)
        self.ex.store(st, T, lo, a[3])
        self.ex.store(st, T, hi, a[4])
        return 1, st

    def fork(self, ex, st, a):
        fn, shared = a[2], list(a[3:])
        if self.it is not None:
            raise Unsupported("nested parallel region")
        name = "%s (loop %d)" % (ex.stack[-1], self.nreg + 1)
        self.nreg += 1
        keep_events = len(ex.events)
        s2 = st.fork(st.g)
        first = ex.nobj
        self.it = z3.BitVec("omp.i", 64)
        self.range = None
        self.log, self.locks, self.private = [], [], set()

        t0 = time.time()

        def hook(what, p, size, s, o):
            if time.time() - t0 > 60:
                raise Late()
            if p.o not in self.private and o.kind != "code":
                self.log.append((p.o, p.off, size, what != "read", s.g, tuple(self.locks), ex.where()))
        old, ex.track_rw = ex.track_rw, hook
        try:
            tid = ex.new_obj(s2, "tid", 4, "stack")
            s2.w(tid.o).cells[0] = (4, 0)
            depth = len(ex.stack)
            ex.call(s2, fn.name, [tid, tid] + shared)
        except Late:
            del ex.stack[depth:]
            self.late.add(name)
        finally:
            ex.track_rw = old
        log, it, rng = self.log, self.it, self.range
        self.log, self.it = None, None
        del ex.events[keep_events:]
        self.decide(name, log, rng)
        # the loop itself, one thread
        if rng and rng[1] - rng[0] < BIG and not self.cheap:
            tid = ex.new_obj(st, "tid", 4, "stack")
            st.w(tid.o).cells[0] = (4, 0)
            v, st2 = ex.call(st, fn.name, [tid, tid] + shared)
            if st2 is None:
                return None, None
            st = st2
        return None, st

    # ------------------------------------------------------------- verdict
    def decide(self, name, log, rng):
        ex, chk = self.ex, self.chk
        by = {}
        seen = set()
        for oid, off, size, wr, g, lk, where in log:
            k = (oid, off.get_id() if isz(off) else off, size, wr, lk, g[-1][0].get_id() if g else 0, len(g))
            if k in seen:
                continue
            seen.add(k)
            by.setdefault(oid, []).append((off, size, wr, g, lk, where))
        nq = 0
        bad = []
        lo, hi, w = rng if rng else (0, 0, 64)
        i, j = z3.BitVec("omp.i", w), z3.BitVec("omp.j", w)
        ti, tj = z3.BitVec("omp.tid", 32), z3.BitVec("omp.tid2", 32)
        base = [z3.UGE(i, lo), z3.ULE(i, hi), z3.UGE(j, lo), z3.ULE(j, hi), i != j, ti != tj, z3.ULT(ti, 4), z3.ULT(tj, 4)]
        sub = [(i, j), (ti, tj)]
        objs = 0
        if rng is not None and hi > lo:
            for oid, acc in by.items():
                if not any(a[2] for a in acc):
                    continue
                objs += 1
                hit = None
                done = set()
                for off1, sz1, w1, g1, l1, wh1 in acc:
                    if not w1:
                        continue
                    for off2, sz2, w2, g2, l2, wh2 in acc:
                        if set(l1) & set(l2):
                            continue
                        k = (off1.get_id() if isz(off1) else off1, sz1, off2.get_id() if isz(off2) else off2, sz2)
                        if k in done:
                            continue
                        a = zero64(off1)
                        b = z3.substitute(zero64(off2), *sub) if isz(off2) else zero64(off2)
                        q = [z3.ULT(a, b + sz2), z3.ULT(b, a + sz1)]
                        nq += 1
                        if self.apart(a, b, sz1, sz2, i, j, lo, hi) or chk.solve(base + q, 30000) == "unsat":
                            done.add(k)
                            continue
                        # with the conditions under which they happen
                        gg = [g_expr(g1), z3.substitute(g_expr(g2), *(sub + self.rename(g_expr(g2))))]
                        nq += 1
                        r = chk.solve(base + q + gg, 20000)
                        if r != "unsat":
                            hit = (r, "%s: %s (%s) and %s (%s)" % (ex.objname.get(oid, "?"), "write", wh1, "write" if w2 else "read", wh2))
                            break
                    if hit:
                        break
                if hit:
                    bad.append(hit)
                if len(bad) >= 2:
                    break
        self.regions.append((name, objs, len(log), rng, nq))
        self.found += [(name, r, t) for r, t in bad]

    def apart(self, a, b, sa, sb, i, j, lo, hi):
        """the same question over the integers: quotients and remainders become
        linear constraints there, and no value wraps around"""
        side, memo = [], {}

        def div(x, n):
            q, r = z3.Int("q!%d" % len(memo)), z3.Int("r!%d" % len(memo))
            need.append(x)
            side.extend([x == n * q + r, r >= 0, r < n])
            return q, r

        def t(e):
            k = e.get_id()
            if k not in memo:
                memo[k] = None
                memo[k] = t_(e)
            return memo[k]

        def t_(e):
            if z3.is_bv_value(e):
                v = e.as_signed_long()
                return z3.IntVal(v)
            if e.eq(i) or e.eq(j):
                return z3.Int(str(e))
            if z3.is_const(e):
                raise KeyError
            o = e.decl().kind()
            c = e.children()
            if o == z3.Z3_OP_BADD:
                return z3.Sum([t(x) for x in c])
            if o == z3.Z3_OP_BSUB:
                return t(c[0]) - t(c[1])
            if o == z3.Z3_OP_BMUL:
                p = t(c[0])
                for x in c[1:]:
                    p = p * t(x)
                return p
            if o in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(c[1]) and 0 < c[1].as_signed_long():
                q, r = div(t(c[0]), c[1].as_signed_long())
                return q if o in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else r
            raise KeyError
        need = []
        try:
            x, y = t(z3.simplify(a)), t(z3.simplify(b))
        except KeyError:
            return False
        I, J = z3.Int(str(i)), z3.Int(str(j))
        base = [I >= lo, I <= hi, J >= lo, J <= hi]
        need += [x, y]
        if self.chk.solve(base + side + [z3.Or([z3.Or(v < 0, v >= 2**40) for v in need])], 30000) != "unsat":
            return False
        return self.chk.solve(base + side + [I != J, x < y + sb, y < x + sa], 30000) == "unsat"

    def rename(self, e):
        """values of library calls differ between iterations"""
        out, seen, todo = [], set(), [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and re.match(r"v!\d|undef!", x.decl().name()):
                out.append((x, z3.Const(x.decl().name() + "'", x.sort())))
            todo += x.children()
        return out


SIG = {"CORRFUNC": ("coffe_corrfunc_init", "coffe_corrfunc_array_t"), "MULTIPOLES": ("coffe_multipoles_init", "coffe_multipoles_array_t"),
       "AVERAGE_MULTIPOLES": ("coffe_average_multipoles_init", "coffe_average_multipoles_array_t")}


def attach(r, chk, cheap):
    ex = r.ex
    race = Race(ex, chk, cheap)
    for n in ("coffe_integrate_1d_prec_gsl", "coffe_integrate_1d_prec_double_exponential", "coffe_integrate_1d"):
        ex.stubs.pop(n, None)
    ex.stubs["gsl_spline_eval"] = ex.stubs["gsl_spline_eval_deriv"] = race.spline(1, 2)
    ex.stubs["gsl_spline2d_eval"] = race.spline(2, 3)
    ex.stubs["print_parameters"] = s_nop(0)
    for n in ("gsl_sf_bessel_jl", "gsl_sf_bessel_j0", "gsl_sf_bessel_j1", "gsl_sf_bessel_Jn", "gsl_sf_bessel_J0", "gsl_sf_bessel_J1", "gsl_sf_Si", "gsl_sf_gamma",
              "gsl_sf_choose", "gsl_sf_fact", "gsl_sf_legendre_Pl", "gsl_sf_legendre_P1", "gsl_sf_legendre_P2", "gsl_sf_legendre_P3"):
        ex.stubs[n] = lambda ex_, st, a: (race.value(), st)
    return race


def report(chk, name, race, replay, need):
    """one obligation per parallel loop met"""
    if len(race.regions) < need:
        chk.undecide(name, "%d parallel loops met" % len(race.regions))
    bad = {n for n, _, _ in race.found}
    hit = replay() if bad else None
    for n, objs, nacc, rng, nq in race.regions:
        if n in race.late and n not in bad:
            chk.undecide("%s: %s" % (name, n), "time")
        elif n not in bad:
            chk.ok("%s: %s" % (name, n), "solver: %d queries, %d shared accesses, %d shared objects written" % (nq, nacc, objs))
            chk.samples.append({"loop": n, "iterations": (rng[1] - rng[0] + 1) if rng else 0, "accesses": nacc, "written": objs})
    for n in sorted(bad):
        t = [x for m, r, x in race.found if m == n]
        if hit:
            chk.violated("%s: %s" % (name, n), "two iterations at once: %s. Real run: %s" % (t[0], hit), key=t[0])
        else:
            chk.undecide("%s: %s" % (name, n), "candidate not reproduced: %s" % t[:3])


def signal_job(chk, M, L, ot, nl, itype):
    name = "%s, plane-parallel %d, %s" % (ot, nl, itype)
    E = L.enums
    R = z3.Real
    cfg = dict(flatsky_local_nonlocal=nl, flatsky_nonlocal=nl, divergent=1, output_type=E[ot], b_derivative=0, f_derivative=0,
               b_tilde_derivative=0, f_tilde_derivative=0, integration_1d_type=E[itype], mu_len=2, integration_method=2)
    r = props_int.Run(M, L, cfg, ls=[0, 2], nbins=2, contents=False, nsep=2, nz=2, nt=1, more={"mu": [R("mu_0"), R("mu_1")]})
    ex = r.ex
    race = attach(r, chk, True)
    st = r.go()
    if st is None:
        return chk.undecide(name, "coffe_integrals_init does not return")
    n0 = len(race.regions)
    fn, ty = SIG[ot]
    out = ex.new_obj(st, "result", L.sizes[ty], "heap", zero=True)
    v, st = ex.call(st, fn, [r.e.par, r.e.bg, r.top, out])
    chk.use(ex)
    if st is None:
        return chk.undecide(name, "%s does not return" % fn)
    report(chk, name, race, lambda: native_race("signal", ot, nl, itype), n0 + 3)


def cov_job(chk, M, L, out, method):
    name = "%s, %s" % (out, method)
    E = L.enums
    r = props_cov.Run(M, L, out, [0, 2], 2, 2, (1, 2, 1, 2), 0, method, E["COFFE_INTEGRATION_GSL"])
    race = attach(r, chk, False)
    ex, st = r.ex, r.e.st
    a = ex.new_obj(st, "covariance", L.sizes["coffe_covariance_array_t"], "heap", zero=True)
    b = ex.new_obj(st, "average covariance", L.sizes["coffe_covariance_array_t"], "heap", zero=True)
    v, st = ex.call(st, "coffe_covariance_init", [r.e.par, r.e.bg, a, b])
    chk.use(ex)
    if st is None:
        return chk.undecide(name, "coffe_covariance_init does not return")
    report(chk, name, race, lambda: native_race("covariance", out, 0, None, method), 1 if method == "COFFE_COVARIANCE_INTEGRATION_STANDARD" else 0)


def T01(chk):
    M, L = repo.module(omp=True), repo.Layout()
    chk.bounds.append("any two different iterations of every parallel loop, executed symbolically from the state at the start of the loop, all contributions; "
                      "2 redshifts, 2 separations, 2 angles, 2 multipoles; 4 threads")
    chk.assumptions += ["GSL, FFTW: interpolation modifies the accelerator it is given and nothing else; FFTW plans are made and destroyed by one thread at a time; "
                        "gsl_rng_env_setup modifies GSL's defaults; special functions are pure", "a quadrature evaluates its integrand at arbitrary points"]
    chk.stubs |= {"gsl_*", "fftw_*", "__kmpc_*"}
    jobs = []
    for ot in SIG:
        for nl in (0, 1):
            it = "COFFE_INTEGRATION_GSL" if nl else "COFFE_INTEGRATION_DOUBLE_EXPONENTIAL"
            jobs.append(("%s %d" % (ot, nl), signal_job, (M, L, ot, nl, it)))
    for out in ("COVARIANCE_MULTIPOLES", "COVARIANCE_AVERAGE_MULTIPOLES"):
        for m in ("COFFE_COVARIANCE_INTEGRATION_STANDARD", "COFFE_COVARIANCE_INTEGRATION_FFTLOG"):
            jobs.append((out + m, cov_job, (M, L, out, m)))
    parallel(chk, jobs)


WRAP = ["gsl_spline_eval", "gsl_spline_eval_deriv", "gsl_spline2d_eval", "gsl_rng_env_setup", "gsl_set_error_handler_off", "gsl_set_error_handler",
        "fftw_plan_dft_r2c_1d", "fftw_plan_dft_c2r_1d", "fftw_plan_dft_r2c_2d", "fftw_plan_dft_c2r_2d", "fftw_destroy_plan",
        "gsl_integration_qag", "gsl_monte_plain_integrate", "gsl_monte_miser_integrate", "gsl_monte_vegas_integrate"]


def native_race(what, ot, nl, itype=None, method=None):
    """the same loops, compiled, on real threads under the thread sanitizer; the race it reports or None"""
    d = repo.scratch()
    L = repo.Layout()
    if what == "signal":
        flags = dict(flatsky_local_nonlocal=nl, flatsky_nonlocal=nl, divergent=1, output_type=L.enums[ot])
        flags.update({"correlation_contrib." + c: 1 for c in props_int.CONTR})
        code = props_int.setup_code(flags, nl, ot, [0, 2], 'static double mu_[]={.3,.6}; par.mu=mu_; par.mu_len=2; par.bessel_bins=128; par.integration_1d_type=%s;' % itype)
        code += "int main(void){ setup(); static coffe_integral_array_t ia; static %s out; coffe_integrals_init(&par,&bg,&ia); %s(&par,&bg,&ia,&out); puts(\"done\"); return 0; }" % (
            SIG[ot][1], SIG[ot][0])
    else:
        flags = dict(output_type=L.enums[ot], covariance_integration_method=L.enums[method], covariance_cosmic=1, covariance_mixed=1, covariance_poisson=1,
                     covariance_integration_bins=256)
        flags.update({"correlation_contrib.den": 1, "correlation_contrib.rsd": 1})
        code = props_int.setup_code(flags, 0, ot, [0, 2], "static double dn[]={1e-3},fs[]={.3},px[]={5}; par.density1=dn; par.density1_len=1; par.density2=dn; par.density2_len=1;"
                                    "par.fsky=fs; par.fsky_len=1; par.pixelsize=px; par.pixelsize_len=1; par.z_mean_len=1; par.deltaz_len=1; par.covariance_window=%d;"
                                    "par.k_min=par.k_min_norm; par.k_max=par.k_max_norm; par.covariance_pop1=par.covariance_pop2=par.covariance_pop3=par.covariance_pop4=1;"
                                    "par.power_spectrum=par.power_spectrum_norm; lin(&par.galaxy_bias3,1,.2); lin(&par.galaxy_bias4,1.4,.3); par.covariance_interpolation_method=2;" % nl)
        code += "int main(void){ setup(); static coffe_covariance_array_t a,b; coffe_covariance_init(&par,&bg,&a,&b); puts(\"done\"); return 0; }"
    src, exe = os.path.join(d, "race_%s_%s_%s.c" % (what, ot, nl)), os.path.join(d, "race_%s_%s_%s_%s" % (what, ot, nl, method))
    with open(src, "w") as f:
        f.write(code)
    com = ["-std=gnu99", "-w", "-O1", "-g", "-DNDEBUG", "-fsanitize=thread", "-Wno-error=implicit-function-declaration", "-I" + repo.omp_header(), "-I" + repo.SRC]
    try:
        objs = []
        for n in repo.source_files():
            o = os.path.join(d, "tsan_%s.o" % n)
            if not os.path.exists(o):
                t = "%s.%d" % (o, os.getpid())
                repo.run(["clang", "-fopenmp", *com, "-c", os.path.join(repo.SRC, n + ".c"), "-o", t])
                os.rename(t, o)
            objs.append(o)
        shim = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim_omp.c")
        repo.run(["clang", *com, "-o", exe, src, shim, *objs, *["-Wl,--wrap=" + w for w in WRAP], "-lgsl", "-lgslcblas", "-lfftw3", "-lconfig", "-lm", "-lpthread"])
        # the sanitizer needs fixed addresses
        r = subprocess.run(["setarch", "-R", exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300,
                           env=dict(os.environ, TSAN_OPTIONS="halt_on_error=0 report_signal_unsafe=0 second_deadlock_stack=0"))
        if b"FATAL" in r.stderr or not r.stdout:
            r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, env=dict(os.environ))
    except (subprocess.SubprocessError, RuntimeError, OSError) as e:
        if os.environ.get("DBG"):
            print(e)
        return None
    err = r.stderr.decode("latin1")
    m = re.search(r"WARNING: ThreadSanitizer: data race.*?(?=\n={10}|\Z)", err, re.S)
    if not m:
        return None
    fr = re.findall(r"#\d+ (\S+) (\S+?):?\d* ", m.group(0))
    fr = [f for f, _ in fr if not f.startswith(("start", "invoke", "__kmpc", "main", "__tsan"))]
    return "ThreadSanitizer reports a data race in " + ", ".join(dict.fromkeys(fr))[:300]
