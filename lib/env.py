"""Symbolic environment of the coffe library: lazily created parameter,
background and integral structures whose scalar members are solver variables
and whose splines are uninterpreted functions."""
from fractions import Fraction

import z3

import symex
from irparse import *
from symex import *

FLAGS = ["den", "rsd", "len", "d1", "d2", "g1", "g2", "g3", "g4", "g5"]


class Env:
    """one symbolic run of library code.

    ints   : concrete (or z3) values of integer members of coffe_parameters_t
    swap   : exchange the two galaxy populations (bias1<->bias2, G1<->G2)
    signs  : list of (real term, '>'|'<'|'=') : the region of inputs considered
    """

    SWAP = {"galaxy_bias1": "galaxy_bias2", "magnification_bias1": "magnification_bias2",
            "evolution_bias1": "evolution_bias2", "G1": "G2"}
    SWAP.update({v: k for k, v in list(SWAP.items())})

    def __init__(self, module, layout, ints=None, reals=None, swap=False, stubs=None, ex=None, nl=(), ptrs=None, **kw):
        self.L = layout
        st = {"gsl_spline_eval": self.s_spline, "gsl_spline2d_eval": self.s_spline2d}
        st.update(stubs or {})
        self.ex = ex or Exec(module, st, **kw)
        if ex is not None:
            self.ex.stubs.update(st)
        self.ints = ints or {}
        self.reals = reals or {}
        self.ptrs = ptrs or {}
        self.swap = swap
        self.st = State()
        self.spl = {}
        self.splname = {}
        self.par = self.lazy_struct("par", "coffe_parameters_t", self.f_par)
        self.bg = self.lazy_struct("bg", "coffe_background_t", self.f_bg)
        self.integral = self.mk_integrals(nl) if nl is not None else NULL

    # ---- lazily created members
    def lazy_struct(self, name, sname, fld, size=None):
        return self.ex.new_obj(self.st, name, size or self.sizeof(sname), "heap",
                               lazy=lambda ex, st, oid, off, t: fld(st, self.L.path(sname, off), t))

    def sizeof(self, sname):
        return self.L.sizes[sname]

    def spline(self, st, name):
        if self.swap:
            parts = name.split(".")
            if len(parts) == 2 and parts[1] in self.SWAP:
                name = parts[0] + "." + self.SWAP[parts[1]]
        if name not in self.spl:
            self.ex.nobj += 1
            oid = self.ex.nobj
            self.spl[name] = (oid, Obj("spline " + name, 256, "lib"))
            self.splname[oid] = name
        oid, o = self.spl[name]
        if oid not in st.mem:
            st.mem[oid] = o
        return Ptr(oid, 0)

    def f_par(self, st, path, t):
        return self.member(st, "par", path, t)

    def f_bg(self, st, path, t):
        return self.member(st, "bg", path, t)

    def member(self, st, base, path, t):
        if path in self.ints:
            return self.ints[path]
        if path in self.reals:
            return self.reals[path]
        if path in self.ptrs:
            p = self.ptrs[path]
            return p(self, st) if callable(p) else p
        if t.k == "ptr":
            if path.endswith(".spline"):
                return self.spline(st, base + "." + path[:-7])
            if path.endswith("accel"):
                return self.spline(st, base + "." + path)
            return self.pointer(st, base, path)
        if t.k == "int":
            return z3.BitVec(base + "." + path, t.w)
        return z3.Real(base + "." + path)

    def pointer(self, st, base, path):
        return Undef(PTR)

    def mk_integrals(self, nl):
        """array with the integrals nl = [(n, l, state_n, state_l)]"""
        L = self.L
        sz = self.sizeof("coffe_integral_t")
        self.nl = list(nl)

        def fld(ex, st, oid, off, t):
            i, o = divmod(off, sz)
            p = L.path("coffe_integral_t", o)
            n, l, sn, sl = self.nl[i]
            if p in ("n", "l", "state_n", "state_l"):
                v = {"n": n, "l": l, "state_n": sn, "state_l": sl}[p]
                return v & 0xffffffff
            tag = "I(%d%s,%d%s)" % (n, "/2" if sn else "", l, "/2" if sl else "")
            if p.endswith(".spline"):
                p = p[:-7]
                return self.spline(st, tag + ("" if p == "result" else ":" + p))
            return self.spline(st, tag + ":" + p)
        arr = self.ex.new_obj(self.st, "integral.array", sz * len(self.nl), "heap", lazy=fld)
        top = self.ex.new_obj(self.st, "integral", self.sizeof("coffe_integral_array_t"), "heap")
        o = self.st.w(top.o)
        o.cells[L.off("coffe_integral_array_t", "array")] = (8, arr)
        o.cells[L.off("coffe_integral_array_t", "size")] = (8, len(self.nl))
        return top

    # ---- stubs
    def sname(self, st, p):
        if isinstance(p, Ptr) and p.o in self.splname:
            return self.splname[p.o]
        if isinstance(p, Ptr) and p.o == 0:
            return None
        if isinstance(p, Multi):
            raise Unsupported("choice of splines")
        return None

    def s_spline(self, ex, st, a):
        p = a[0]
        if isinstance(p, Multi):
            v = None
            for c, q in reversed(p.alts):
                w, _ = self.s_spline(ex, st, [q] + a[1:])
                v = w if v is None else ex.ite(c, w, v)
            return v, st
        n = self.sname(st, p)
        if n is None:
            ex.event("badspline", st, "evaluation of a spline that was never set (%r)" % (p,))
            return ex.fresh_real("badspline"), st
        return ex.uf(n, a[1]), st

    def s_spline2d(self, ex, st, a):
        n = self.sname(st, a[0])
        if n is None:
            ex.event("badspline", st, "evaluation of a 2d spline that was never set")
            return ex.fresh_real("badspline"), st
        x, y = a[1], a[2]
        if n.endswith(":renormalization"):
            # table of a function symmetric in its two arguments (property I02)
            if self.order_key(x) > self.order_key(y):
                x, y = y, x
        return ex.uf(n, x, y), st

    def order_key(self, x):
        return self.ex.nf(x).sexpr() if isz(x) else str(x)


ALL_NL = [(0, 0, 0, 0), (0, 2, 0, 0), (0, 4, 0, 0), (1, 1, 0, 0), (1, 3, 0, 0), (2, 0, 0, 0), (2, 2, 0, 0),
          (3, 1, 0, 0), (4, 0, 0, 0), (1, -1, 1, 1)]


