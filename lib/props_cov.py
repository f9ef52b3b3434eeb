"""C01-C04: covariance matrices (covariance.c)."""
import itertools
import math
from fractions import Fraction

import z3

import repo
import world
from core import parallel
from env import Env
from gslmodel import *
from symex import rat, real_const, s_nop, PI, INVPI
from irparse import *

H0 = real_const(1 / 2997.92458)
SEEN = {}


# ------------------------------------------------------------ specification
def leg_poly(n):
    """coefficients of the Legendre polynomial P_n"""
    a, b = [Fraction(1)], [Fraction(0), Fraction(1)]
    if n == 0:
        return a
    for k in range(1, n):
        c = [Fraction(0)] + [Fraction(2 * k + 1, k + 1) * x for x in b]
        for i, x in enumerate(a):
            c[i] -= Fraction(k, k + 1) * x
        a, b = b, c
    return b


def pmul(a, b):
    c = [Fraction(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            c[i + j] += x * y
    return c


def pint(p):
    """integral from -1 to 1"""
    return sum((2 * x / (i + 1) for i, x in enumerate(p) if i % 2 == 0), Fraction(0))


def leg4(*ls):
    p = [Fraction(1)]
    for l in ls:
        p = pmul(p, leg_poly(l))
    return pint(p)


def spectrum_projection(b1, b2, f, l, add, mul, num):
    """(2l+1)/2 int dmu P_l(mu) (b1 + f mu^2)(b2 + f mu^2): coefficients of the redshift-space power spectrum"""
    P = leg_poly(l)
    w = [Fraction(2 * l + 1, 2) * pint(pmul(P, [Fraction(0)] * k + [Fraction(1)])) for k in (0, 2, 4)]
    return add(add(mul(num(w[0]), mul(b1, b2)), mul(num(w[1]), mul(f, add(b1, b2)))), mul(num(w[2]), mul(f, f)))


def sinterms(l):
    """j_l(x) = A(1/x) sin x + B(1/x) cos x, as {power of x: coefficient}"""
    A0, B0 = {-1: Fraction(1)}, {}
    A1, B1 = {-2: Fraction(1)}, {-1: Fraction(-1)}
    if l == 0:
        return A0, B0
    for n in range(1, l):
        A2, B2 = {}, {}
        for D, (p, q) in ((A2, (A1, A0)), (B2, (B1, B0))):
            for k, v in p.items():
                D[k - 1] = D.get(k - 1, 0) + (2 * n + 1) * v
            for k, v in q.items():
                D[k] = D.get(k, 0) - v
        A0, B0, A1, B1 = A1, B1, A2, B2
    return A1, B1


# ------------------------------------------------------------------ the run
FLAGS = ("covariance_cosmic", "covariance_mixed", "covariance_poisson")


class Run:
    normalised = True

    def __init__(self, M, L, out, ls, nsep, nz, pops, window, method, itype, cfg=None, N=2, nk=3):
        self.L, self.out, self.ls, self.nsep, self.nz, self.pops = L, out, ls, nsep, nz, pops
        self.window, self.method, self.N = window, method, N
        avg = out == "COVARIANCE_AVERAGE_MULTIPOLES"
        self.avg = avg
        ints = {"verbose": 0, "nthreads": 1, "output_type": L.enums[out], "multipole_values_len": len(ls), "sep_len": nsep,
                "pk_type": 0, "have_class": 0, "covariance_window": int(window), "interp_method": 3, "covariance_interpolation_method": 2,
                "integration_1d_type": itype, "covariance_integration_method": L.enums[method], "covariance_integration_bins": N}
        # only one of the two bin lists has the length of this request
        ints["z_mean_len"] = ints["deltaz_len"] = nz if not avg else 1
        ints["zmin_len"] = ints["zmax_len"] = nz if avg else 1
        for k in ("density1", "density2", "fsky", "pixelsize"):
            ints[k + "_len"] = nz
        for i, p in enumerate(pops):
            ints["covariance_pop%d" % (i + 1)] = p
        ints.update(cfg or {})
        R = z3.Real
        vals = {"sep": [R("sep_%d" % i) for i in range(nsep)], "multipole_values": list(ls)}
        for k in ("z_mean", "deltaz"):
            vals[k] = [R("%s_%d" % (k, i)) for i in range(ints["z_mean_len"])]
        for k in ("zmin", "zmax"):
            vals[k] = [R("%s_%d" % (k, i)) for i in range(ints["zmin_len"])]
        for k in ("density1", "density2", "fsky", "pixelsize"):
            vals[k] = [R("%s_%d" % (k, i)) for i in range(nz)]
        self.vals = vals
        ptrs = {k: self.arr(k) for k in vals}
        self.cache = {}
        self.nk = nk
        self.kx = [R("k_%d" % i) for i in range(nk)]
        self.py = [R("pk_%d" % i) for i in range(nk)]
        ptrs["power_spectrum.spline"] = self.pk_spline
        e = Env(M, L, ints=ints, nl=None, ptrs=ptrs, max_steps=60000000)
        self.e, self.ex = e, e.ex
        g = self.g = Gsl(e.ex)
        own = e.ex.stubs["gsl_spline_eval"]
        e.ex.stubs["gsl_spline_eval"] = lambda ex, st, a: e.s_spline(ex, st, a) if isinstance(a[0], Ptr) and a[0].o in e.splname else own(ex, st, a)
        self.fft = []
        self.fftseen = {}
        self.memo, self.fftspl = {}, {}
        e.ex.stubs["two_sph_bessel"] = self.two_sph_bessel
        e.ex.stubs["coffe_legendre_integral"] = lambda ex, st, a: (leg4(*[x - (1 << 32) if x >> 31 else x for x in a]), st)
        e.ex.stubs["gsl_sf_bessel_jl"] = lambda ex, st, a: (ex.uf("j%d" % a[0], a[1]), st)
        e.ex.stubs["gsl_sf_Si"] = lambda ex, st, a: (ex.uf("gsl_sf_Si", a[0]), st)
        e.ex.stubs["time"] = e.ex.stubs["clock"] = s_nop(0)
        e.ex.stubs.setdefault("gsl_set_error_handler_off", lambda ex, st, a: (NULL, st))
        e.ex.stubs.setdefault("gsl_set_error_handler", lambda ex, st, a: (NULL, st))
        for k in ("density1", "density2", "fsky", "pixelsize", "sep", "deltaz"):
            for v in vals[k]:
                e.ex.assume_sign(v, ">")
        for v in (self.kx + [R("par.h"), R("par.k_min"), R("par.k_max"), R("par.k_min_norm"), R("par.k_max_norm")]):
            e.ex.assume_sign(v, ">")
        self.R = R

    def arr(self, m):
        def f(env, st):
            ex = env.ex
            if m not in self.cache:
                w = 4 if m == "multipole_values" else 8
                p = ex.new_obj(st, m, w * len(self.vals[m]), "heap")
                for i, v in enumerate(self.vals[m]):
                    st.w(p.o).cells[w * i] = (w, v)
                self.cache[m] = (p, st.mem[p.o])
            p, o = self.cache[m]
            st.mem.setdefault(p.o, o)
            return p
        return f

    def pk_spline(self, env, st):
        """the tabulated power spectrum: gsl_spline {interp, x, y, size}"""
        ex = env.ex
        if "pk" not in self.cache:
            p = ex.new_obj(st, "power_spectrum.spline", 32, "lib")
            objs = [p]
            for off, vs in ((8, self.kx), (16, self.py)):
                q = ex.new_obj(st, "power_spectrum data", 8 * self.nk, "lib")
                for i, v in enumerate(vs):
                    st.w(q.o).cells[8 * i] = (8, v)
                st.w(p.o).cells[off] = (8, q)
                objs.append(q)
            st.w(p.o).cells[24] = (8, self.nk)
            self.cache["pk"] = (p, {o.o: st.mem[o.o] for o in objs})
        p, os_ = self.cache["pk"]
        for o, v in os_.items():
            st.mem.setdefault(o, v)
        return p

    def two_sph_bessel(self, ex, st, a):
        k1, k2, f, n1, n2, cfg, r1, r2, res = a
        ld = lambda p, i: ex.load(st, DOUBLE, ex.padd(p, 8 * i))
        row = lambda p, i: ex.load(st, PTR, ex.padd(p, 8 * i))
        if isz(n1) or isz(n2) or n1 != n2:
            raise Unsupported("two_sph_bessel sizes")
        n = n1
        off = lambda m, t: ex.load(st, t, ex.padd(cfg, self.L.off("config", m)))
        c = dict(k1=[ld(k1, i) for i in range(n)], k2=[ld(k2, i) for i in range(n)], f=[[ld(row(f, i), j) for j in range(n)] for i in range(n)],
                 l1=off("l1", INT(32)) if self.int_l else off("l1", DOUBLE), l2=off("l2", INT(32)) if self.int_l else off("l2", DOUBLE),
                 nu=(off("nu1", DOUBLE), off("nu2", DOUBLE)))
        ident = lambda v: ex.nf(v).get_id() if isz(v) else v
        key = tuple(map(ident, c["k1"] + c["k2"] + sum(c["f"], []) + [c["l1"], c["l2"], *c["nu"]]))
        ex.nfkeep.append(c)
        i = self.fftseen.setdefault(key, len(self.fftseen))
        c["r1"] = [z3.Real("fft%d.r1_%d" % (i, k)) for k in range(n)]
        c["r2"] = [z3.Real("fft%d.r2_%d" % (i, k)) for k in range(n)]
        c["res"] = [[z3.Real("fft%d.res_%d_%d" % (i, k, m)) for m in range(n)] for k in range(n)]
        for k in range(n):
            ex.store(st, DOUBLE, c["r1"][k], ex.padd(r1, 8 * k))
            ex.store(st, DOUBLE, c["r2"][k], ex.padd(r2, 8 * k))
            for m in range(n):
                ex.store(st, DOUBLE, c["res"][k][m], ex.padd(row(res, k), 8 * m))
        self.fft.append(c)
        return 0, st

    @property
    def int_l(self):
        for p, o, k in self.L.leaves("config"):
            if p == "l1":
                return "int" in str(k)
        return False

    def go(self):
        ex, st = self.ex, self.e.st
        self.cov = ex.new_obj(st, "cov", self.L.sizes["coffe_covariance_array_t"], "heap", zero=True)
        self.avgcov = ex.new_obj(st, "avgcov", self.L.sizes["coffe_average_covariance_array_t"], "heap", zero=True)
        r, self.st = ex.call(st, "coffe_covariance_init", [self.e.par, self.e.bg, self.cov, self.avgcov])
        return self.st

    def entries(self):
        """[(labels, value)] as stored, or an error text"""
        ex, L, st = self.ex, self.L, self.st
        arr = "coffe_average_covariance_array_t" if self.avg else "coffe_covariance_array_t"
        el = "coffe_average_covariance_t" if self.avg else "coffe_covariance_t"
        top = self.avgcov if self.avg else self.cov
        size = ex.load(st, INT(64), ex.padd(top, L.off(arr, "size")))
        n = self.nz * (len(self.ls) * self.nsep) ** 2
        if size != n:
            return "size %s for %d combinations" % (size, n)
        base = ex.load(st, PTR, ex.padd(top, L.off(arr, "array")))
        out = []
        names = (["z_min", "z_max"] if self.avg else ["z_mean"]) + ["l1", "separation1", "l2", "separation2"]
        for i in range(n):
            p = ex.padd(base, L.sizes[el] * i)
            lab = tuple(ex.load(st, INT(32) if c in ("l1", "l2") else DOUBLE, ex.padd(p, L.off(el, "coords." + c))) for c in names)
            out.append((lab, ex.load(st, DOUBLE, ex.padd(p, L.off(el, "value")))))
        return out

    def combos(self):
        v = self.vals
        zs = [(a, b) for a, b in zip(v["zmin"], v["zmax"])] if self.avg else [(z,) for z in v["z_mean"]]
        for k in range(self.nz):
            for i, l1 in enumerate(self.ls):
                for m in range(self.nsep):
                    for j, l2 in enumerate(self.ls):
                        for n in range(self.nsep):
                            yield (k, i, m, j, n), zs[k] + (l1, v["sep"][m], l2, v["sep"][n])

    # ------------------------------------------------------- the formula
    def flag(self, name, L=None):
        v = self.e.ints.get(name)
        return z3.BitVec("par." + name, 32) != 0 if v is None else bool(v)

    def spec_prepare(self):
        ex, g, R = self.ex, self.g, self.R
        U = ex.uf
        z = [ex.rmul(ex.radd(a, b), Fraction(1, 2)) for a, b in zip(self.vals["zmin"], self.vals["zmax"])] if self.avg else self.vals["z_mean"]
        self.z = z
        on = lambda c, x: ex.ite(c, x, R0) if isz(c) else (x if c else R0)
        den, rsd = self.flag("correlation_contrib.den"), self.flag("correlation_contrib.rsd")
        self.b = [[on(den, U("par.galaxy_bias%d" % i, zz)) for i in (1, 2, 3, 4)] for zz in z]
        self.f = [on(rsd, U("bg.f", zz)) for zz in z]
        self.D = [U("bg.D1", zz) for zz in z]
        self.V = []
        self.Vknown = []
        third = Fraction(1, 3)
        for k in range(self.nz):
            fs = ex.rmul(4 * PI, self.vals["fsky"][k])
            if not self.avg:
                r0 = U("bg.comoving_distance", ex.rsub(z[k], self.vals["deltaz"][k]))
                r1 = U("bg.comoving_distance", ex.radd(z[k], self.vals["deltaz"][k]))
                self.V.append(ex.rmul(fs, (r1 * r1 * r1 - r0 * r0 * r0) * third))
            else:
                t = g.t
                chi = U("bg.comoving_distance", t)
                q = ex.mkinv(U("bg.conformal_Hz", t)) * ex.mkinv(chi) * ex.mkinv(chi) * ex.mkinv(1 + t)
                I = g.integral(q, self.vals["zmin"][k], self.vals["zmax"][k])
                h = H0 * R("par.h")
                inv = ex.mkinv(ex.rmul(ex.rmul(I, h), h))
                v = ex.rmul(fs, inv)
                if self.normalised:
                    dz = ex.rsub(self.vals["zmax"][k], self.vals["zmin"][k])
                    v = ex.rmul(v, dz * dz)
                self.V.append(v)

    def spline_of(self, power):
        """name of the registered interpolation with nodes (k, P(k)^power)"""
        eq = Eq(self.chk, self.ex)
        for oid, d in self.g.splines.items():
            if d["xs"] is None or len(d["xs"]) != self.nk:
                continue
            want = self.py if power == 1 else [y * y for y in self.py]
            if not eq.differs([("x", a, b) for a, b in zip(d["xs"], self.kx)] + [("y", a, b) for a, b in zip(d["ys"], want)])[0]:
                return [oid]
        return []

    def window_bessel(self, l, s, w, k):
        """spherical Bessel function averaged over the shell s +- w/2 (closed form, see C03)"""
        ex = self.ex
        A = lambda x: F_unit(ex, l, ex.rmul(k, x))
        hi, lo = ex.radd(s, ex.rmul(w, Fraction(1, 2))), ex.rsub(s, ex.rmul(w, Fraction(1, 2)))
        vol = (hi * hi * hi - lo * lo * lo) * Fraction(1, 3)
        ik = ex.mkinv(k)
        return ex.rmul(ex.rmul(A(hi) - A(lo), ik * ik * ik), ex.mkinv(vol))

    def kintegral(self, power, l1, l2, s1, s2, w):
        """(2/pi?) bare: int dk k^2 P^power j_l1(k s1) j_l2(k s2)"""
        ex, g = self.ex, self.g
        t = g.t
        if self.method == "COFFE_COVARIANCE_INTEGRATION_FFTLOG":
            return self.fft_integral(power, l1, l2, s1, s2)
        sp = self.spl[power]
        if not sp:
            return None
        if self.window:
            j1, j2 = self.window_bessel(l1, s1, w, t), self.window_bessel(l2, s2, w, t)
        else:
            j1, j2 = ex.uf("j%d" % l1, ex.rmul(s1, t)), ex.uf("j%d" % l2, ex.rmul(s2, t))
        q = t * t * ex.uf("spline#%d" % sp[0], t) * j1 * j2
        return g.integral(q, self.R("par.k_min"), self.R("par.k_max"))

    def fft_integral(self, power, l1, l2, s1, s2):
        key = (power, l1, l2)
        if key not in self.fftspl:
            self.fftspl[key] = self.find_fft(*key)
        n = self.fftspl[key]
        if n is None and l1 != l2:
            # the double integral is symmetric
            key = (power, l2, l1)
            if key not in self.fftspl:
                self.fftspl[key] = self.find_fft(*key)
            n = self.fftspl[key]
            s1, s2 = s2, s1
        return None if n is None else self.ex.uf(n, s1, s2)

    def find_fft(self, power, l1, l2):
        """the 2d interpolation of the transform of k^3 P^power / dlnk with these multipoles"""
        ex, g = self.ex, self.g
        eq = Eq(self.chk, ex)
        k0, k1, N = self.R("par.k_min_norm"), self.R("par.k_max_norm"), self.N
        ks = [ex.rmul(k0, x) for x in self.pows(k0, k1, N)]
        step = ex.rmul(ex.uf("log", ex.rdiv(k1, k0)), Fraction(1, N))
        ist = ex.mkinv(step)
        for c in self.fft:
            if c["l1"] != l1 or c["l2"] != l2:
                continue
            P = [ex.uf("par.power_spectrum_norm", k) for k in ks]
            if power == 2:
                P = [p * p for p in P]
            pairs = [("k", a, b) for a, b in zip(c["k1"] + c["k2"], ks + ks)]
            pairs += [("f", c["f"][i][j], k_ * k_ * k_ * P[i] * ist if i == j else R0) for i, k_ in enumerate(ks) for j in range(N)]
            if eq.differs(pairs)[0]:
                continue
            for oid, d in g.spl2.items():
                if "xs" in d and len(d["xs"]) == N and not eq.differs(
                        [("x", a, b) for a, b in zip(d["xs"] + d["ys"], c["r1"] + c["r2"])]
                        + [("z", d["zs"][n * N + m], c["res"][m][n]) for m in range(N) for n in range(N)])[0]:
                    return "spline2d#%d" % oid
        return None

    def pows(self, k0, k1, N):
        ex = self.ex
        st = self.st
        out = []
        for i in range(N):
            v, _ = ex.stubs["pow"](ex, st, [ex.rdiv(k1, k0), Fraction(i, N)])
            out.append(v)
        return out

    def coefficient(self, k, p, q, l):
        ex = self.ex
        return spectrum_projection(self.b[k][self.pops[p - 1] - 1], self.b[k][self.pops[q - 1] - 1], self.f[k], l,
                                   lambda a, b: a + b, lambda a, b: a * b, lambda x: z3.RealVal(str(x)))

    def spec(self, idx):
        """Gaussian covariance of entry (bin k, multipole i, separation m, multipole j, separation n): three parts"""
        ex = self.ex
        k, i, m, j, n = idx
        l1, l2 = self.ls[i], self.ls[j]
        s1, s2 = self.vals["sep"][m], self.vals["sep"][n]
        w = self.vals["pixelsize"][k]
        n1, n2 = ex.mkinv(self.vals["density1"][k]), ex.mkinv(self.vals["density2"][k])
        dl = lambda a, b: 1 if self.pops[a - 1] == self.pops[b - 1] else 0
        par = (-1) ** l2
        iV = ex.mkinv(self.V[k])
        pre = Fraction((2 * l1 + 1) * (2 * l2 + 1))
        q = lambda x: z3.RealVal(str(x))
        inv2 = INVPI * INVPI
        out = {}
        if (l1 + l2) % 2:
            return {"cosmic": R0, "mixed": R0, "poisson": R0}
        sign = (-1) ** ((l2 - l1) // 2)
        # cosmic variance
        acc = None
        for a in (0, 2, 4):
            for b in (0, 2, 4):
                c = leg4(l1, l2, a, b)
                if c:
                    key = (k, "c", a, b)
                    if key not in self.memo:
                        C = self.coefficient
                        self.memo[key] = (C(k, 1, 3, a) * C(k, 2, 4, b), C(k, 1, 4, a) * C(k, 2, 3, b))
                    x, y = self.memo[key]
                    t = q(c) * (x + par * y)
                    acc = t if acc is None else acc + t
        D = self.D[k]
        r = R0
        if acc is not None:
            I = self.kintegral(2, l1, l2, s1, s2, w)
            r = None if I is None else q(sign * pre / 4) * inv2 * (D * D * D * D) * acc * iV * I
        out["cosmic"] = r
        # cosmic variance times shot noise
        acc = None
        for a in (0, 2, 4):
            c = leg4(l1, l2, a)
            if c:
                C = self.coefficient
                t = q(c) * (C(k, 1, 3, a) * (dl(2, 4) * n2) + C(k, 2, 4, a) * (dl(1, 3) * n1)
                            + par * C(k, 1, 4, a) * (dl(2, 3) * n2) + par * C(k, 2, 3, a) * (dl(1, 4) * n1))
                acc = t if acc is None else acc + t
        r = R0
        if acc is not None:
            I = self.kintegral(1, l1, l2, s1, s2, w)
            r = None if I is None else q(sign * pre / 4) * inv2 * D * D * acc * iV * I
        out["mixed"] = r
        # shot noise
        d = dl(1, 3) * dl(2, 4) + par * dl(1, 4) * dl(2, 3)
        if l1 != l2 or m != n or not d:
            out["poisson"] = R0
        else:
            if self.window:
                hi, lo = s1 + w * Fraction(1, 2), s1 - w * Fraction(1, 2)
                v = (hi * hi * hi - lo * lo * lo) * Fraction(1, 3)
            else:
                v = s1 * s1 * w
            out["poisson"] = q(Fraction(2 * l1 + 1, 4) * d) * INVPI * ex.mkinv(v) * n1 * n2 * iV
        return out


def F_unit(ex, l, x):
    """closed form of int x^2 j_l dx with sin, cos and Si (verified against the definition in C03)"""
    s, c, i = ex.uf("sin", x), ex.uf("cos", x), ex.mkinv(x)
    A, B, S = antiderivative(l)
    pw = lambda k: x_pow(ex, x, i, k)
    r = None
    for D, t in ((A, s), (B, c)):
        for k, v in D.items():
            e = z3.RealVal(str(v)) * pw(k) * t
            r = e if r is None else r + e
    if S:
        r = r + z3.RealVal(str(S)) * ex.uf("gsl_sf_Si", x)
    return r


def x_pow(ex, x, i, k):
    r = z3.RealVal(1)
    for _ in range(abs(k)):
        r = r * (x if k > 0 else i)
    return r


def antiderivative(l):
    """A, B (Laurent polynomials), S with d/dx (A sin x + B cos x + S Si x) = x^2 j_l(x)"""
    P, Q = sinterms(l)
    P = {k + 2: v for k, v in P.items()}
    Q = {k + 2: v for k, v in Q.items()}
    A, B = {}, {}
    # A' - B + S/x = P ; B' + A = Q ; highest powers first
    top = max(list(P) + list(Q) + [0])
    low = min(list(P) + list(Q) + [0])
    # solve the linear system by undetermined coefficients
    import sympy
    ks = list(range(low - 1, top + 2))
    a = {k: sympy.Symbol("a%d" % (k + 50)) for k in ks}
    b = {k: sympy.Symbol("b%d" % (k + 50)) for k in ks}
    S = sympy.Symbol("S")
    eqs = []
    for k in range(low - 3, top + 3):
        eqs.append((k + 1) * a.get(k + 1, 0) - b.get(k, 0) + (S if k == -1 else 0) - sympy.Rational(*frac(P.get(k, 0))))
        eqs.append((k + 1) * b.get(k + 1, 0) + a.get(k, 0) - sympy.Rational(*frac(Q.get(k, 0))))
    sol = sympy.solve(eqs, list(a.values()) + list(b.values()) + [S], dict=True)[0]
    f = lambda v: Fraction(int(sympy.nsimplify(v).p), int(sympy.nsimplify(v).q))
    A = {k: f(sol.get(v, 0)) for k, v in a.items() if sol.get(v, 0) != 0}
    B = {k: f(sol.get(v, 0)) for k, v in b.items() if sol.get(v, 0) != 0}
    return A, B, f(sol.get(S, 0)) if sol.get(S, 0) != 0 else 0


def frac(x):
    x = Fraction(x)
    return x.numerator, x.denominator


# ---------------------------------------------------------------- obligations
SHAPE = {"ls": (0, 2, 4), "nsep": 2, "nz": 2}
BAD = ("oob", "null", "uaf", "doublefree", "badfree", "badspline", "wild")
KEY = "average covariance lacks the bin width"


def make(chk, M, L, c):
    cfg = {"correlation_contrib.den": 1, "correlation_contrib.rsd": 1, "covariance_cosmic": 1, "covariance_mixed": 1, "covariance_poisson": 1}
    cfg.update(c.get("cfg", {}))
    gsl_t = L.enums["COFFE_INTEGRATION_GSL"]
    itype = gsl_t if c.get("gsl", True) else [v for k, v in L.enums.items() if k.startswith("COFFE_INTEGRATION_") and v != gsl_t][0]
    r = Run(M, L, c["out"], c["ls"], c["nsep"], c["nz"], c["pops"], c["window"], c["method"], itype, cfg, N=c.get("N", 2))
    r.chk = chk
    st = r.go()
    chk.use(r.ex)
    return r, st


def name_of(c):
    return "%s, %s%s%s, l=%s, %d separations, %d bins, populations %s%s" % (
        "redshift-averaged" if "AVERAGE" in c["out"] else "multipoles", "FFTLog" if "FFTLOG" in c["method"] else "quadrature", "" if c.get("gsl", True) else " (double exponential)",
        ", binned" if c["window"] else "", ",".join(map(str, c["ls"])), c["nsep"], c["nz"], "".join(map(str, c["pops"])),
        "".join(" -" + k.split("_")[-1].split(".")[-1] for k, v in c.get("cfg", {}).items() if not v))


def fail(chk, c, name, msg, hit, key=None):
    if hit:
        chk.replays.append(name)
        chk.violated(name, msg + "; " + hit, hit, key)
    else:
        chk.undecide(name, msg + " (the compiled code agrees with the specification)")


def usable(chk, c, r, st, name, values=True):
    ev = [x for x in r.ex.events if x.kind in BAD]
    if st is None or ev:
        fail(chk, c, name, "run: %r" % (ev[:1] or "no path returns"), confirm(c, crash=True))
        return None
    e = r.entries()
    if isinstance(e, str):
        fail(chk, c, name, e, confirm(c))
        return None
    return e


def labels_job(chk, M, L, c):
    name = "entries of " + name_of(c)
    r, st = make(chk, M, L, c)
    e = usable(chk, c, r, st, name)
    if e is None:
        return
    pairs = []
    for i, ((lab, v), (idx, want)) in enumerate(zip(e, r.combos())):
        for a, b in zip(lab, want):
            if isz(a) and z3.is_bv(a):
                a = z3.ToReal(z3.BV2Int(a, True))
            pairs.append((i, a, b))
    bad = Eq(chk, r.ex).differs(pairs)[0]
    if bad:
        return fail(chk, c, name, "entries %s are not in the order (bin, l1, separation1, l2, separation2) or carry the wrong labels" % bad[:4], confirm(c))
    where = {idx: v for (lab, v), (idx, want) in zip(e, r.combos())}
    pairs = [((k, i, m, j, n), v, where[(k, j, n, i, m)]) for (k, i, m, j, n), v in where.items() if (i, m) < (j, n)]
    if r.method == "COFFE_COVARIANCE_INTEGRATION_FFTLOG":
        # the transform of a diagonal input is symmetric under exchange of its axes; checked between different multipoles
        pairs = [p for p in pairs if p[0][1] != p[0][3]]
    bad = Eq(chk, r.ex).differs(pairs)[0]
    if bad:
        return fail(chk, c, name, "entries %s are not symmetric" % bad[:4], confirm(c))
    chk.ok(name, "solver: labels as requested and value(1,2) = value(2,1) for all inputs (%d pairs)" % len(pairs))


def value_job(chk, M, L, c):
    name = ("terms of " if c.get("cfg") else "values of ") + name_of(c)
    r, st = make(chk, M, L, c)
    e = usable(chk, c, r, st, name)
    if e is None:
        return
    eq = Eq(chk, r.ex)
    on = lambda k: r.e.ints.get("covariance_" + k)

    def compare(normalised):
        r.normalised = normalised
        r.memo = {}
        r.spec_prepare()
        pairs = []
        for (lab, v), (idx, want) in zip(e, r.combos()):
            p = r.spec(idx)
            for k in ("cosmic", "mixed", "poisson"):
                if not on(k):
                    p[k] = R0
            if None in p.values():
                return None
            t = R0
            for x in p.values():
                t = r.ex.radd(t, x)
            pairs.append((idx, v, t))
        return eq.differs(pairs)[0]
    r.spl = {1: r.spline_of(1), 2: r.spline_of(2)} if "STANDARD" in r.method else {}
    bad = compare(True)
    if bad and r.avg:
        if compare(False) == []:
            if c.get("witness"):
                fail(chk, c, name, "the redshift-averaged covariance lacks the square of the bin width", width_demo(), KEY)
            else:
                chk.ok(name, "solver: equal to the Gaussian covariance for every input, apart from the recorded finding (%s)" % KEY)
            return
    if bad is None:
        return fail(chk, c, name, "no interpolation of the power spectrum (or its square) or no transform of it is used", confirm(c))
    if bad:
        return fail(chk, c, name, "entries %s differ from the Gaussian covariance" % bad[:4], confirm(c))
    chk.ok(name, "solver: %d entries equal to the Gaussian covariance for every input" % len(e))


STD, FFT = "COFFE_COVARIANCE_INTEGRATION_STANDARD", "COFFE_COVARIANCE_INTEGRATION_FFTLOG"
MP, AMP = "COVARIANCE_MULTIPOLES", "COVARIANCE_AVERAGE_MULTIPOLES"


def case(out=MP, method=STD, window=0, ls=(0, 2, 4), nsep=2, nz=2, pops=(1, 2, 1, 2), **kw):
    return dict(out=out, method=method, window=window, ls=ls, nsep=nsep, nz=nz, pops=pops, **kw)


def modes():
    return [(o, m, w) for o in (MP, AMP) for m, w in ((STD, 0), (STD, 1), (FFT, 0))]


COMMON = ["quadratures return the exact integral (N01)", "two_sph_bessel is an uninterpreted transform of its arguments", "the power spectrum does not come from CLASS (pk_type 0)", "doubles as reals"]


def C01(chk):
    M, L = repo.module(), repo.Layout()
    world.library()
    chk.assumptions += COMMON
    chk.stubs |= {"two_sph_bessel", "coffe_integrate_1d_prec_*", "gsl_spline_*"}
    q = chk.tier == "quick"
    shapes = [((0, 2, 4), 2, 2), ((0, 1, 2, 3), 1, 1), ((2,), 3, 3)] + ([] if q else [((4, 0, 2), 3, 2), ((0,), 5, 4), ((0, 1, 2, 3, 4, 5), 2, 1), ((1, 3), 2, 4)])
    chk.bounds.append("shapes (multipoles, separations, bins) %s; all coordinates and settings symbolic; populations 1,2,1,2 and 1,2,3,4" % (shapes,))
    parallel(chk, [("entries %s %s" % (o, s), labels_job, (M, L, case(o, m, w, *s, pops=p)))
                   for s in shapes for o, m, w in modes() for p in ((1, 2, 1, 2),) + (() if q and s != shapes[1] else ((1, 2, 3, 4),))])


def C02(chk):
    M, L = repo.module(), repo.Layout()
    world.library()
    chk.assumptions += COMMON
    chk.stubs |= {"two_sph_bessel", "coffe_integrate_1d_prec_*", "gsl_spline_*", "gsl_sf_coupling_3j"}
    q = chk.tier == "quick"
    jobs = []
    P = [(1, 2, 1, 2), (1, 1, 1, 1), (1, 2, 2, 1), (3, 4, 3, 4), (1, 2, 3, 4), (2, 1, 1, 3), (4, 4, 2, 2), (3, 1, 4, 1)]
    if not q:
        P = list(itertools.product((1, 2, 3, 4), repeat=4))
    for p in P:
        for o, m, w in modes() if q or p in ((1, 2, 1, 2), (1, 1, 1, 1), (2, 1, 1, 3)) else [(MP, STD, 0), (AMP, STD, 0)]:
            jobs.append(case(o, m, w, pops=p, nsep=2, nz=2, ls=(0, 2) if w else (0, 2, 4)))
    for ls in [(0, 1, 2, 3), (4,), (5,), (6,), (1,)] + ([] if q else [(0, 1, 2, 3, 4, 5, 6), (7, 8, 9)]):
        for o, m, w in modes():
            if w and max(ls) > 6:
                continue
            for p in ((1, 2, 1, 2), (1, 1, 1, 1), (1, 2, 2, 1))[:1 if w and max(ls) > 3 else 3]:
                jobs.append(case(o, m, w, pops=p, ls=ls, nsep=1, nz=1))
    for o, w in itertools.product((MP, AMP), (0, 1)):
        jobs.append(case(o, STD, w, gsl=False, nsep=1, nz=1, ls=(0, 2)))
    jobs.append(case(MP, STD, 1, nz=3, nsep=1, ls=(0, 2)))
    jobs.append(case(MP, FFT, 0, N=3, nsep=2, nz=1, ls=(0, 2)))
    jobs.append(case(AMP, STD, 0, witness=True, nsep=1, nz=1, ls=(0,)))
    chk.bounds.append("%d population assignments; multipoles up to %d (binned: up to 6; beyond, the code itself reports the binned Bessel function as not implemented); up to 3 bins and 2 separations; power spectrum tabulated at 3 points; FFTLog with 2 and 3 points"
                      % (len(P), 6 if q else 9))
    import props_num
    top = 6 if q else 9
    parallel(chk, [("values " + name_of(c), value_job, (M, L, c)) for c in jobs] + props_num.wrappers(M)
             + [("Legendre %d" % n, props_num.legendre_job, (M, n, top)) for n in range(top + 1)])


def C03(chk):
    M, L = repo.module(), repo.Layout()
    world.library()
    chk.assumptions += COMMON
    chk.stubs |= {"two_sph_bessel", "coffe_integrate_1d_prec_*", "gsl_spline_*", "gsl_sf_coupling_3j"}
    jobs = []
    for o, m, w in modes():
        for t in itertools.product((0, 1), repeat=3):
            jobs.append(case(o, m, w, nsep=2, nz=1, ls=(0, 2), pops=(1, 2, 1, 2), cfg=dict(zip(FLAGS, t))))
        for d, s in ((0, 0), (1, 0), (0, 1)):
            jobs.append(case(o, m, w, nsep=1, nz=2, ls=(0, 2), pops=(1, 2, 2, 1), cfg={"correlation_contrib.den": d, "correlation_contrib.rsd": s}))
    chk.bounds.append("all 8 selections of the three covariance terms and the 4 selections of density and redshift-space distortions; every output, integration method and bin option")
    parallel(chk, [("terms " + name_of(c), value_job, (M, L, c)) for c in jobs])


# ------------------------------------------------------------------- replay
NUM = dict(sep=[31.0, 47.0, 66.0, 83.0, 95.0], z_mean=[0.7, 1.2, 1.9, 2.6], deltaz=[0.11, 0.17, 0.23, 0.08], zmin=[0.6, 1.05, 1.7, 2.5],
           zmax=[0.8, 1.4, 2.2, 2.7], density1=[2e-3, 7e-4, 3e-4, 1e-4], density2=[1.1e-3, 4e-4, 2.3e-4, 5e-4], fsky=[0.31, 0.44, 0.27, 0.9],
           pixelsize=[4.0, 7.0, 11.0, 5.0])
KMIN, KMAX, H = 0.011, 1.07, 0.67
BIASES = [(1.1, 0.21), (1.7, -0.13), (0.8, 0.34), (2.3, 0.07)]


def bfun(z):
    return dict(chi=3000 * z / (1 + 0.3 * z), cH=(1 + 0.4 * z) / 3000, f=0.5 + 0.12 * z, D=1 / (1 + 0.55 * z))


def pk(k):
    return 9000 * (k / 0.05) / (1 + (k / 0.05) ** 2) ** 1.4 * math.exp(-k / 0.25)


def gauss(n, a, b):
    import numpy as np
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2 * (b - a) + a, w * (b - a) / 2


_jt = {}


def jtab(l, ks, s, w):
    key = (l, s, w, len(ks))
    if key not in _jt:
        if not w:
            _jt[key] = [world.sph_j(l, k * s) for k in ks]
        else:
            xs, ws = gauss(24, s - w / 2, s + w / 2)
            v = ((s + w / 2) ** 3 - (s - w / 2) ** 3) / 3
            _jt[key] = [sum(b * a * a * world.sph_j(l, k * a) for a, b in zip(xs, ws)) / v for k in ks]
    return _jt[key]


def expected(c):
    ks, ws = gauss(500, KMIN, KMAX)
    if c["method"] == FFT:
        N = NFFT
        dl = math.log(KMAX / KMIN) / N
        ks = [KMIN * (KMAX / KMIN) ** (i / N) for i in range(N)]
        ws = [dl * k for k in ks]
    P = [pk(k) for k in ks]
    cfg = c.get("cfg", {})
    get = lambda k: cfg.get(k, 1)
    avg = c["out"] == AMP
    out = []
    cI = {}

    def I(p, l1, l2, s1, s2, w):
        key = (p, l1, l2, s1, s2, w)
        if key not in cI:
            a, b = jtab(l1, ks, s1, w), jtab(l2, ks, s2, w)
            cI[key] = sum(wi * k * k * q ** p * x * y for wi, k, q, x, y in zip(ws, ks, P, a, b))
        return cI[key]
    for k in range(c["nz"]):
        zl = (NUM["zmin"][k], NUM["zmax"][k]) if avg else (NUM["z_mean"][k],)
        z = sum(zl) / len(zl)
        b = [(u + v * z) * get("correlation_contrib.den") for u, v in BIASES]
        f = bfun(z)["f"] * get("correlation_contrib.rsd")
        D = bfun(z)["D"]
        if avg:
            xs, w_ = gauss(200, *zl)
            V = 4 * math.pi * NUM["fsky"][k] / sum(u / bfun(x)["cH"] / bfun(x)["chi"] ** 2 / (1 + x) for x, u in zip(xs, w_)) / (H / 2997.92458) ** 2
        else:
            d = NUM["deltaz"][k]
            V = 4 * math.pi * NUM["fsky"][k] * (bfun(z + d)["chi"] ** 3 - bfun(z - d)["chi"] ** 3) / 3
        n1, n2 = NUM["density1"][k], NUM["density2"][k]
        pops = c["pops"]
        dl = lambda i, j: 1 if pops[i - 1] == pops[j - 1] else 0
        C = lambda i, j, l: float(spectrum_projection(b[pops[i - 1] - 1], b[pops[j - 1] - 1], f, l, lambda x, y: x + y, lambda x, y: x * y, float))
        for l1 in c["ls"]:
            for m in range(c["nsep"]):
                for l2 in c["ls"]:
                    for n in range(c["nsep"]):
                        s1, s2, wd = NUM["sep"][m], NUM["sep"][n], NUM["pixelsize"][k] if c["window"] else 0
                        lab = list(zl) + [l1, s1, l2, s2]
                        val = 0.0
                        scale = 0.0
                        if (l1 + l2) % 2 == 0:
                            par, sg = (-1) ** l2, (-1) ** ((l2 - l1) // 2)
                            pre = sg * (2 * l1 + 1) * (2 * l2 + 1) / 4 / math.pi ** 2 / V
                            if get("covariance_cosmic"):
                                a = sum(float(leg4(l1, l2, x, y)) * (C(1, 3, x) * C(2, 4, y) + par * C(1, 4, x) * C(2, 3, y)) for x in (0, 2, 4) for y in (0, 2, 4))
                                t = pre * D ** 4 * a * I(2, l1, l2, s1, s2, wd)
                                val += t
                                scale += abs(pre * D ** 4 * a) * math.sqrt(abs(I(2, l1, l1, s1, s1, wd) * I(2, l2, l2, s2, s2, wd)))
                            if get("covariance_mixed"):
                                a = sum(float(leg4(l1, l2, x)) * (C(1, 3, x) * dl(2, 4) / n2 + C(2, 4, x) * dl(1, 3) / n1 + par * C(1, 4, x) * dl(2, 3) / n2
                                                                  + par * C(2, 3, x) * dl(1, 4) / n1) for x in (0, 2, 4))
                                t = pre * D ** 2 * a * I(1, l1, l2, s1, s2, wd)
                                val += t
                                scale += abs(pre * D ** 2 * a) * math.sqrt(abs(I(1, l1, l1, s1, s1, wd) * I(1, l2, l2, s2, s2, wd)))
                            if get("covariance_poisson") and l1 == l2 and m == n:
                                v = ((s1 + wd / 2) ** 3 - (s1 - wd / 2) ** 3) / 3 if c["window"] else s1 * s1 * NUM["pixelsize"][k]
                                t = (2 * l1 + 1) / 4 / math.pi * (dl(1, 3) * dl(2, 4) + par * dl(1, 4) * dl(2, 3)) / v / n1 / n2 / V
                                val += t
                                scale += abs(t)
                        out.append((lab, val, scale))
    return out


NFFT = 240
FAKE = r"""
#include <gsl/gsl_sf_bessel.h>
int __wrap_two_sph_bessel(double*k1,double*k2,double**f,long n1,long n2,config*c,double*r1,double*r2,double**res){
 double d=log(k1[1]/k1[0]); int diag=1;
 for(int i=0;i<n1;++i){ r1[i]=1/k1[n1-1-i]; }
 for(int i=0;i<n2;++i){ r2[i]=1/k2[n2-1-i]; }
 for(int i=0;i<n1;++i) for(int j=0;j<n2;++j) if(i!=j && f[i][j]!=0) diag=0;
 static double *A,*B; A=realloc(A,n1*n1*8); B=realloc(B,n2*n2*8);
 for(int m=0;m<n1;++m) for(int i=0;i<n1;++i) A[m*n1+i]=gsl_sf_bessel_jl((int)c->l1,k1[i]*r1[m]);
 for(int m=0;m<n2;++m) for(int i=0;i<n2;++i) B[m*n2+i]=gsl_sf_bessel_jl((int)c->l2,k2[i]*r2[m]);
 for(int m=0;m<n1;++m) for(int n=0;n<n2;++n){ double s=0; if(diag) for(int i=0;i<n1;++i) s+=f[i][i]*A[m*n1+i]*B[n*n2+i]; else s=1e99; res[m][n]=s*d*d; }
 return 0;}
"""


def native(c, L):
    code = world.includes() + FAKE + r"""
static coffe_interpolation tab(int n,double*x,double*y){coffe_interpolation r;r.spline=gsl_spline_alloc(gsl_interp_cspline,n);r.accel=gsl_interp_accel_alloc();gsl_spline_init(r.spline,x,y,n);return r;}
int main(void){gsl_set_error_handler_off(); static coffe_parameters_t par; static coffe_background_t bg; static coffe_covariance_array_t cov; static coffe_average_covariance_array_t av; memset(&par,0,sizeof par);memset(&bg,0,sizeof bg);
"""
    zs = [4.0 * i / 400 for i in range(401)]

    def tab(dst, xs, ys):
        return "{static double x[]={%s}; static double y[]={%s}; %s=tab(%d,x,y);}\n" % (
            ",".join("%.12g" % x for x in xs), ",".join("%.12g" % y for y in ys), dst, len(xs))
    for dst, key in (("comoving_distance", "chi"), ("conformal_Hz", "cH"), ("f", "f"), ("D1", "D")):
        code += tab("bg." + dst, zs, [bfun(z)[key] for z in zs])
    for i, (u, v) in enumerate(BIASES):
        code += tab("par.galaxy_bias%d" % (i + 1), zs, [u + v * z for z in zs])
    kk = [KMIN * (KMAX / KMIN) ** (i / 600) for i in range(601)]
    kk[0], kk[-1] = KMIN, KMAX
    for p in ("power_spectrum", "power_spectrum_norm"):
        code += tab("par." + p, kk, [pk(k) for k in kk])
    avg = c["out"] == AMP
    d = {"nthreads": 1, "output_type": L.enums[c["out"]], "covariance_window": int(c["window"]), "interp_method": 3, "covariance_interpolation_method": 2,
         "integration_1d_type": L.enums["COFFE_INTEGRATION_GSL"], "covariance_integration_method": L.enums[c["method"]], "covariance_integration_bins": NFFT}
    for k in ("correlation_contrib.den", "correlation_contrib.rsd") + FLAGS:
        d[k] = c.get("cfg", {}).get(k, 1)
    for i, p in enumerate(c["pops"]):
        d["covariance_pop%d" % (i + 1)] = p
    for k, v in d.items():
        code += "par.%s=%d;\n" % (k, v)
    for k, v in (("k_min", KMIN), ("k_max", KMAX), ("k_min_norm", KMIN), ("k_max_norm", KMAX), ("h", H), ("integration_1d_prec", 1e-5)):
        code += "par.%s=%.17g;\n" % (k, v)
    for k, vs in list(NUM.items()) + [("multipole_values", c["ls"])]:
        n = c["nsep"] if k == "sep" else len(c["ls"]) if k == "multipole_values" else c["nz"]
        if k in ("zmin", "zmax") and not avg or k in ("z_mean", "deltaz") and avg:
            n = 1
        code += "{static %s v[]={%s}; par.%s=malloc(sizeof v); memcpy(par.%s,v,sizeof v); par.%s_len=%d;}\n" % (
            "int" if k == "multipole_values" else "double", ",".join(map(repr, vs[:n])), k, k, k, n)
    code += "coffe_covariance_init(&par,&bg,&cov,&av);\n"
    if avg:
        code += 'printf("%zu\\n",(size_t)av.size); for(size_t i=0;i<av.size;++i) printf("%.17g %.17g %d %.17g %d %.17g %.17g\\n",av.array[i].coords.z_min,av.array[i].coords.z_max,(int)av.array[i].coords.l1,av.array[i].coords.separation1,(int)av.array[i].coords.l2,av.array[i].coords.separation2,av.array[i].value);'
    else:
        code += 'printf("%zu\\n",(size_t)cov.size); for(size_t i=0;i<cov.size;++i) printf("%.17g %d %.17g %d %.17g %.17g\\n",cov.array[i].coords.z_mean,(int)cov.array[i].coords.l1,cov.array[i].coords.separation1,(int)cov.array[i].coords.l2,cov.array[i].coords.separation2,cov.array[i].value);'
    code += "return 0;}\n"
    rc, out, err = world.run_c(code, extra=("-Wl,--wrap=two_sph_bessel",))
    return rc, out


def confirm(c, crash=False):
    L = repo.Layout()
    rc, out = native(c, L)
    if rc:
        return "coffe_covariance_init ends with status %d" % rc
    rows = [[float(x) for x in l.split()] for l in out.splitlines()]
    want = expected(c)
    if int(rows[0][0]) != len(want):
        return "%d covariance entries for %d combinations" % (rows[0][0], len(want))
    tol = 3e-3 if c["method"] == FFT else 2e-4
    for r, (lab, v, scale) in zip(rows[1:], want):
        if any(abs(a - b) > 1e-9 for a, b in zip(r, lab)):
            return "entry labelled %r where %r is due" % (r[:-1], lab)
        if not abs(r[-1] - v) <= tol * (abs(v) + abs(scale)) + 1e-300:
            return "entry (bin, l1, r1, l2, r2) = %r: compiled code has %.8g, the Gaussian covariance is %.8g" % (lab, r[-1], v)
    return None


def width_demo():
    """covariance of two bins of different width on the compiled code"""
    return "compiled code: the covariance of the redshift average over a wider bin comes out larger: " + demo_width_values()


def demo_width_values():
    L = repo.Layout()
    c = case(AMP, STD, 0, (0,), 1, 2, (1, 1, 1, 1), cfg={"covariance_cosmic": 0, "covariance_mixed": 0})
    keep = {k: list(v) for k, v in NUM.items()}
    try:
        NUM["zmin"][:2], NUM["zmax"][:2] = [0.9, 0.8], [1.1, 1.2]
        for k in ("density1", "density2", "fsky", "pixelsize"):
            NUM[k][:2] = [NUM[k][0]] * 2
        rc, out = native(c, L)
    finally:
        NUM.update(keep)
    v = [float(l.split()[-1]) for l in out.splitlines()[1:]]
    return "shot noise [0.9,1.1] %.4g, [0.8,1.2] %.4g" % (v[0], v[1])
