"""A concrete smooth universe: values for every uninterpreted function, so that
a symbolic disagreement can be replayed on the compiled program."""
import math
import os
import random
from fractions import Fraction

import z3

import repo
from symex import isz, PI, INVPI

Z = 6.0            # largest redshift tabulated
R = 3.0            # largest comoving distance (units c/H0)


def sph_j(l, x):
    if abs(x) < 1.0:
        # series
        t = 1.0
        for k in range(1, l + 1):
            t *= x / (2 * k + 1)
        s, term, k = 0.0, 1.0, 0
        while abs(term) > 1e-18 and k < 40:
            s += term
            k += 1
            term *= -x * x / 2 / k / (2 * l + 2 * k + 1)
        return t * s
    j0 = math.sin(x) / x
    if l == 0:
        return j0
    j1 = math.sin(x) / x / x - math.cos(x) / x
    for n in range(1, l):
        j0, j1 = j1, (2 * n + 1) / x * j1 - j0
    return j1


def bessel_J(n, x):
    N = 400
    return sum(math.cos(n * t - x * math.sin(t)) for t in ((i + 0.5) * math.pi / N for i in range(N))) / N


class World:
    def __init__(self, seed=1, scale=1.0):
        r = random.Random(seed)
        self.r = r
        self.c = {}
        self.modes = [(3.1, 0.9), (7.3, 0.5), (1.3, 0.31)]
        self.val = {}
        self.h = 0.67

    def smooth(self, name, z):
        if name not in self.c:
            r = random.Random(name + str(1))
            self.c[name] = (0.6 + r.random(), 0.2 + 0.4 * r.random(), 0.3 * r.random(), 0.7 + r.random())
        a, b, c, w = self.c[name]
        return a + b * z + c * math.sin(w * z + a)

    def stored(self, n, l, x):
        s = 0.0
        for k, w in self.modes:
            if n > l:
                # r^(n-l) I^n_l
                y = k * x
                if y < 1e-8:
                    t = 1.0
                    for i in range(1, l + 1):
                        t /= (2 * i + 1)
                    v = t * k ** (l - n)
                else:
                    v = sph_j(l, y) / y ** n * x ** (n - l)
            else:
                y = k * x
                if y < 1e-5:
                    t = 1.0
                    for i in range(1, l + 1):
                        t /= (2 * i + 1)
                    v = t * (y ** (l - n) if l > n else 1.0)
                else:
                    v = sph_j(l, y) / y ** n
            s += w * v
        return s

    def func(self, name, args):
        x = args[0]
        if name == "bg.comoving_distance":
            return x / (1 + 0.3 * x)
        if name == "bg.z_as_chi":
            return x / (1 - 0.3 * x)
        if name == "bg.a":
            return 1 / (1 + x)
        if name.startswith("I("):
            body, _, tag = name.partition(":")
            n, l = body[2:-1].split(",")
            if tag == "renormalization":
                return sum(w * sph_j(0, k * args[0]) * sph_j(0, k * args[1]) / k ** 4 for k, w in self.modes)
            if tag == "renormalization_zero_separation":
                return sum(w * (1 - sph_j(0, k * x) ** 2) / k ** 4 for k, w in self.modes)
            if tag:
                return self.smooth(name, x)
            if "/" in n or "/" in l:
                return sum(w * math.cos(k * x) * math.exp(-x) for k, w in self.modes)
            return self.stored(int(n), int(l), x)
        return self.smooth(name, x)

    def is2d(self, name):
        return name.endswith(":renormalization")

    # ---- numeric evaluation of z3 terms
    def ev(self, e, ex, inp, cache):
        if not isz(e):
            return float(e) if not isinstance(e, bool) else e
        k = e.get_id()
        if k in cache:
            return cache[k]
        v = self.ev_(e, ex, inp, cache)
        cache[k] = v
        return v

    def ev_(self, e, ex, inp, cache):
        E = lambda i: self.ev(e.arg(i), ex, inp, cache)
        if z3.is_rational_value(e):
            return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        d = e.decl()
        kind = d.kind()
        n = e.num_args()
        if kind == z3.Z3_OP_ADD:
            return math.fsum(E(i) for i in range(n))
        if kind == z3.Z3_OP_MUL:
            p = 1.0
            for i in range(n):
                p *= E(i)
            return p
        if kind == z3.Z3_OP_SUB:
            p = E(0)
            for i in range(1, n):
                p -= E(i)
            return p
        if kind == z3.Z3_OP_UMINUS:
            return -E(0)
        if kind == z3.Z3_OP_DIV:
            return E(0) / E(1)
        if kind == z3.Z3_OP_POWER:
            return E(0) ** E(1)
        if kind == z3.Z3_OP_ITE:
            return E(1) if E(0) else E(2)
        if kind == z3.Z3_OP_LE:
            return E(0) <= E(1)
        if kind == z3.Z3_OP_GE:
            return E(0) >= E(1)
        if kind == z3.Z3_OP_LT:
            return E(0) < E(1)
        if kind == z3.Z3_OP_GT:
            return E(0) > E(1)
        if kind == z3.Z3_OP_EQ:
            return E(0) == E(1)
        if kind == z3.Z3_OP_DISTINCT:
            return E(0) != E(1)
        if kind == z3.Z3_OP_NOT:
            return not E(0)
        if kind == z3.Z3_OP_AND:
            return all(E(i) for i in range(n))
        if kind == z3.Z3_OP_OR:
            return any(E(i) for i in range(n))
        if n == 0:
            nm = d.name()
            if e.eq(PI):
                return math.pi
            if e.eq(INVPI):
                return 1 / math.pi
            if nm in ex.bysym:
                f, args = ex.bysym[nm]
                a = [self.ev(x, ex, inp, cache) for x in args]
                if f == "Inv":
                    return 1 / a[0]
                if f in ("sqrt", "exp", "log", "sin", "cos", "tan", "floor", "ceil", "sinh", "cosh", "tanh", "log10"):
                    if f == "sqrt" and a[0] < 0:
                        return float("nan")
                    return getattr(math, f)(a[0])
                if f == "pow":
                    return a[0] ** a[1]
                return self.func(f, a)
            if nm in inp:
                return float(inp[nm])
            return self.default(nm)
        raise ValueError("cannot evaluate " + str(e)[:80])

    def default(self, nm):
        if nm == "par.h":
            return self.h
        r = random.Random(nm)
        return 0.2 + 0.5 * r.random()


_lib = None


def library():
    """the library's objects, compiled once per process"""
    global _lib
    if _lib is None:
        d = repo.scratch()
        import subprocess
        ps = []
        objs = []
        for s in repo.source_files():
            o = os.path.join(d, "nat_%s.o" % s)
            objs.append(o)
            ps.append((s, subprocess.Popen(["gcc", "-std=gnu99", "-w", "-O1", "-fopenmp", "-DNDEBUG", "-I" + repo.SRC, "-c",
                                            os.path.join(repo.SRC, s + ".c"), "-o", o])))
        for s, p in ps:
            if p.wait():
                raise RuntimeError("cannot compile " + s)
        _lib = objs
    return _lib


_n = [0]


def run_c(code, timeout=300, extra=(), env=None, cwd=None, args=(), without=()):
    """compile a harness against the library of the current tree and run it; returns (rc, stdout, stderr)"""
    import subprocess
    d = repo.scratch()
    _n[0] += 1
    src = os.path.join(d, "h%d.c" % _n[0])
    exe = os.path.join(d, "h%d" % _n[0])
    with open(src, "w") as f:
        f.write(code)
    repo.run(["gcc", "-std=gnu99", "-w", "-O1", "-fopenmp", "-I" + repo.SRC, "-o", exe, src, *[o for o in library() if os.path.basename(o)[4:-2] not in without], *extra,
              "-lgsl", "-lgslcblas", "-lfftw3", "-lconfig", "-lm"])
    r = subprocess.run([exe, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
    return r.returncode, r.stdout.decode("latin1"), r.stderr.decode("latin1")


HEAD = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_spline.h>
#include <gsl/gsl_spline2d.h>
#include <gsl/gsl_interp2d.h>
"""


def includes():
    hs = sorted(f for f in os.listdir(repo.SRC) if f.endswith(".h"))
    first = [h for h in ("common.h", "background.h", "integrals.h") if h in hs]
    hs = first + [h for h in hs if h not in first and h != "compatibility.h"]
    return HEAD + "".join('#include "%s"\n' % h for h in hs)


class Native:
    """evaluates library functions on the compiled code in this universe"""

    def __init__(self, world):
        self.w = world
        self.N = 3072
        self.N2 = 192

    def tables(self, splines, d):
        """write one table file; splines: {c_expr: (name)}"""
        path = os.path.join(d, "tables_%d.txt" % _n[0])
        with open(path, "w") as f:
            for name in splines:
                if self.w.is2d(name):
                    xs = [R * i / self.N2 for i in range(self.N2 + 1)]
                    f.write("%d\n" % len(xs))
                    f.write(" ".join("%.17g" % x for x in xs) + "\n")
                    for y in xs:
                        f.write(" ".join("%.17g" % self.w.func(name, [x, y]) for x in xs) + "\n")
                else:
                    top = R if (name.startswith("I(") or name == "bg.z_as_chi") else Z
                    if name == "bg.z_as_chi":
                        top = 2.625
                    xs = [top * i / self.N for i in range(self.N + 1)]
                    f.write("%d\n" % len(xs))
                    f.write(" ".join("%.17g" % x for x in xs) + "\n")
                    f.write(" ".join("%.17g" % self.w.func(name, [x]) for x in xs) + "\n")
        return path

    PARS = ["galaxy_bias1", "galaxy_bias2", "magnification_bias1", "magnification_bias2", "evolution_bias1", "evolution_bias2"]
    BGS = ["z_as_chi", "a", "Hz", "conformal_Hz", "conformal_Hz_prime", "D1", "f", "G1", "G2", "comoving_distance"]

    def run(self, calls, nl, ex=None):
        """calls: [(fn, ints, reals, swap, args as list of C literals)] -> list of floats"""
        from env import Env
        d = repo.scratch()
        names = []
        code = [includes(), r"""
static FILE *tf;
static coffe_interpolation rd1(void){ int n; fscanf(tf,"%d",&n); double *x=malloc(n*8),*y=malloc(n*8);
 for(int i=0;i<n;++i) fscanf(tf,"%lf",x+i); for(int i=0;i<n;++i) fscanf(tf,"%lf",y+i);
 coffe_interpolation r; r.spline=gsl_spline_alloc(gsl_interp_cspline,n); r.accel=gsl_interp_accel_alloc(); gsl_spline_init(r.spline,x,y,n); free(x);free(y); return r;}
static coffe_interpolation2d rd2(void){ int n; fscanf(tf,"%d",&n); double *x=malloc(n*8),*z=malloc(n*n*8);
 for(int i=0;i<n;++i) fscanf(tf,"%lf",x+i); for(int i=0;i<n*n;++i) fscanf(tf,"%lf",z+i);
 coffe_interpolation2d r; memset(&r,0,sizeof r); r.spline=gsl_spline2d_alloc(gsl_interp2d_bicubic,n,n); r.xaccel=gsl_interp_accel_alloc(); r.yaccel=gsl_interp_accel_alloc();
 gsl_spline2d_init(r.spline,x,x,z,n,n); free(x);free(z); return r;}
int main(int argc,char**argv){ gsl_set_error_handler_off(); tf=fopen(argv[1],"r");
 static coffe_parameters_t par0; static coffe_background_t bg0;
 memset(&par0,0,sizeof par0); memset(&bg0,0,sizeof bg0);
"""]
        for p in self.PARS:
            names.append("par." + p)
            code.append("par0.%s=rd1();\n" % p)
        for p in self.BGS:
            names.append("bg." + p)
            code.append("bg0.%s=rd1();\n" % p)
        code.append("static coffe_integral_t arr[%d]; memset(arr,0,sizeof arr); coffe_integral_array_t integral; integral.array=arr; integral.size=%d;\n" % (len(nl), len(nl)))
        for i, (n, l, sn, sl) in enumerate(nl):
            tag = "I(%d%s,%d%s)" % (n, "/2" if sn else "", l, "/2" if sl else "")
            names.append(tag)
            code.append("arr[%d].n=%d;arr[%d].l=%d;arr[%d].state_n=%d;arr[%d].state_l=%d;arr[%d].result=rd1();\n" % (i, n, i, l, i, sn, i, sl, i))
            if (n, l) == (4, 0):
                names.append(tag + ":renormalization")
                code.append("arr[%d].renormalization=rd2();\n" % i)
                names.append(tag + ":renormalization_zero_separation")
                code.append("arr[%d].renormalization_zero_separation=rd1();\n" % i)
        for fn, ints, reals, swap, args in calls:
            code.append("{ coffe_parameters_t par=par0; coffe_background_t bg=bg0;\n")
            for k, v in ints.items():
                code.append("par.%s=%d;\n" % (k, v))
            for k, v in reals.items():
                code.append("par.%s=%.17g;\n" % (k, v))
            if swap:
                for a, b in (("galaxy_bias1", "galaxy_bias2"), ("magnification_bias1", "magnification_bias2"), ("evolution_bias1", "evolution_bias2")):
                    code.append("par.%s=par0.%s; par.%s=par0.%s;\n" % (a, b, b, a))
                code.append("bg.G1=bg0.G2; bg.G2=bg0.G1;\n")
            code.append('printf("%%.17g\\n", (double)%s(&par,&bg,&integral%s)); fflush(stdout);}\n' % (fn, "".join(", " + a for a in args)))
        code.append("return 0;}\n")
        path = self.tables(names, d)
        rc, out, err = run_c("".join(code), args=[path])
        vals = [float(x) for x in out.split()]
        return rc, vals, err
