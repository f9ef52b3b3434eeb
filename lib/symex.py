"""Symbolic executor for LLVM IR with state merging.

Machine integers are bit-vectors (exact), doubles are real numbers (the stated
abstraction: IEEE rounding is not modelled, and the shipped binaries are built
with -ffast-math anyway), pointers are (object, byte offset) pairs with every
access checked for bounds/lifetime.  Functions outside /repo (GSL, libm, ...)
are stubs or uninterpreted functions; each application becomes an atom keyed by
the normal form of its arguments (Ackermann encoding)."""
import functools
import math
import sys
import time
from fractions import Fraction

import z3

from irparse import *

sys.setrecursionlimit(20000)

R0 = Fraction(0)


class Unsupported(Exception):
    pass


# ------------------------------------------------------------ real constants
PI = z3.Real("pi")
INVPI = z3.Real("1/pi")


@functools.lru_cache(maxsize=65536)
def rat(d):
    """double -> the rational a C programmer wrote (within 1 ulp), else exact."""
    f = Fraction(d)
    if f == 0 or f.denominator == 1:
        return f
    for lim in (1000, 100000, 10**7):
        g = f.limit_denominator(lim)
        if g != 0 and abs(g - f) <= abs(f) * Fraction(1, 2**52) and \
                abs(g.numerator) * g.denominator < 10**9:
            return g
    # decimal literal such as 2997.92458 or 1e-20
    from decimal import Decimal
    s = repr(d)
    g = Fraction(Decimal(s))
    if len(s.replace(".", "").replace("-", "").split("e")[0].strip("0")) <= 12:
        return g
    return f


def real_const(d):
    if d != d or d in (math.inf, -math.inf):
        return z3.Real("inf" if d == math.inf else "-inf" if d == -math.inf else "nan")
    f = rat(d)
    if f.denominator > 10**9 or abs(f.numerator) > 10**12:
        g = rat(1 / d)
        if g and g.denominator <= 10**6 and abs(g.numerator) < 10**10 and float(1 / g) == d:
            return 1 / g
        for sym, val in ((PI, math.pi), (INVPI, 1 / math.pi), (PI * PI, math.pi ** 2), (INVPI * INVPI, 1 / math.pi ** 2)):
            q = d / val
            if q in (math.inf, -math.inf):
                break
            g = Fraction(q).limit_denominator(5000)
            if g != 0 and abs(float(g) - q) <= abs(q) * 4e-16 and abs(g.numerator) < 5000:
                return z3.RealVal(str(g)) * sym if g != 1 else sym
    return f


def isz(x):
    return isinstance(x, z3.ExprRef)


def z3_mul(f):
    return z3.ArithRef(z3.Z3_mk_mul(f[0].ctx_ref(), len(f), (z3.Ast * len(f))(*[x.as_ast() for x in f])), f[0].ctx)


def z3_add(f):
    return z3.ArithRef(z3.Z3_mk_add(f[0].ctx_ref(), len(f), (z3.Ast * len(f))(*[x.as_ast() for x in f])), f[0].ctx)


def toz(x):
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return z3.RealVal(str(Fraction(x)))
    return x


# ------------------------------------------------------------ pointers
class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.o, self.off)


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Fn(%s)" % self.name


NULL = Ptr(0, 0)


class Multi:
    """guarded choice of pointers; alternatives [(cond|None, ptr)], first match"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts


class Undef:
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def same_ptr(a, b):
    if isinstance(a, Fn) and isinstance(b, Fn):
        return a.name == b.name
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.o != b.o:
            return False
        if isz(a.off) or isz(b.off):
            return isz(a.off) and isz(b.off) and a.off.eq(b.off)
        return a.off == b.off
    return False


# ------------------------------------------------------------ guards
TRUE = ()


def lit_expr(l):
    return l[0] if l[1] else z3.Not(l[0])


def g_expr(g):
    if not g:
        return z3.BoolVal(True)
    if len(g) == 1:
        return lit_expr(g[0])
    return z3.And(*[lit_expr(l) for l in g])


def g_add(g, c, pol=True):
    while z3.is_not(c):
        c, pol = c.arg(0), not pol
    for l in g:
        if l[0].eq(c):
            return g if l[1] == pol else None
    return g + ((c, pol),)


def g_merge(a, b):
    """(guard, cond) cond selects a given (a or b)"""
    n = 0
    while n < len(a) and n < len(b) and a[n][1] == b[n][1] and a[n][0].eq(b[n][0]):
        n += 1
    sa, sb = a[n:], b[n:]
    if not sa or not sb:
        # one is implied by the other: overlapping (should not happen)
        return a[:n], g_expr(sa) if sa else z3.Not(g_expr(sb))
    if sa[0][0].eq(sb[0][0]) and sa[0][1] != sb[0][1]:
        cond = lit_expr(sa[0])
        if len(sa) == 1 and len(sb) == 1:
            return a[:n], cond
        d = z3.Or(g_expr(sa), g_expr(sb))
        return a[:n] + ((d, True),), cond
    cond = g_expr(sa)
    return a[:n] + ((z3.Or(cond, g_expr(sb)), True),), cond


# ------------------------------------------------------------ memory
class Obj:
    __slots__ = ("name", "size", "cells", "freed", "zero", "lazy", "kind", "const")

    def __init__(self, name, size, kind="heap", lazy=None, zero=False):
        self.name, self.size, self.kind, self.lazy, self.zero = name, size, kind, lazy, zero
        self.cells = {}
        self.freed = None      # None | True | z3 cond
        self.const = False

    def copy(self):
        o = Obj(self.name, self.size, self.kind, self.lazy, self.zero)
        o.cells = dict(self.cells)
        o.freed = self.freed
        o.const = self.const
        return o


class State:
    __slots__ = ("mem", "own", "g", "log")

    def __init__(self, mem=None, g=TRUE, log=()):
        self.mem = mem if mem is not None else {}
        self.own = set()
        self.g = g
        self.log = log        # tuple of user events (ordered side effects)

    def fork(self, g):
        s = State(dict(self.mem), g, self.log)
        self.own = set()
        return s

    def w(self, oid):
        if oid not in self.own:
            self.mem[oid] = self.mem[oid].copy()
            self.own.add(oid)
        return self.mem[oid]


class Event:
    __slots__ = ("kind", "g", "where", "detail", "extra")

    def __init__(self, kind, g, where, detail, extra=None):
        self.kind, self.g, self.where, self.detail, self.extra = kind, g, where, detail, extra

    def __repr__(self):
        return "%s@%s %s" % (self.kind, self.where, self.detail)


class Exec:
    def __init__(self, module, stubs=None, max_steps=4000000, feas=None):
        self.varargs = []
        self.m = module
        self.stubs = dict(DEFAULT_STUBS)
        if stubs:
            self.stubs.update(stubs)
        self.events = []
        self.atoms = {}        # key -> (z3const, fname, args)
        self.bysym = {}        # z3 name -> (fname, args)
        self.inv = {}          # name -> denominators
        self.nobj = 0
        self.steps = 0
        self.max_steps = max_steps
        self.gobj = {}
        self.fresh_n = 0
        self.used = {}
        self.axioms = []
        self.feas = feas       # optional solver for pruning
        self.feas_n = 0
        self.nf_cache = {}
        self.stack = []
        self.track_rw = None
        self.check_uninit = False
        self.lazy_ptr = {}
        self.assume = []
        self.objname = {}
        self.nfkeep = []
        self.atomid = {}
        self.atomlist = []
        self.poly_cache = {}
        self.poly_expr = {}
        self.mm_cache = {}
        self.invof = {}
        self.dom = None
        self.domargs = set()
        self.elem_off = {}
        self.cond_cache = {}
        self.signs = {}
        self.sign_list = []
        self.omp_iter = None   # race analysis: one iteration of a parallel loop

    # -------------------------------------------------- helpers
    def new_obj(self, st, name, size, kind="heap", lazy=None, zero=False):
        self.nobj += 1
        oid = self.nobj
        st.mem[oid] = Obj(name, size, kind, lazy, zero)
        st.own.add(oid)
        self.objname[oid] = name
        return Ptr(oid, 0)

    def fresh_real(self, name):
        self.fresh_n += 1
        return z3.Real("%s!%d" % (name, self.fresh_n))

    def fresh_bv(self, name, w):
        self.fresh_n += 1
        return z3.BitVec("%s!%d" % (name, self.fresh_n), w)

    def event(self, kind, st, detail, extra=None):
        self.events.append(Event(kind, st.g, self.where(), detail, extra))

    def where(self):
        return "/".join("%s" % f for f in self.stack[-3:])

    # ---- polynomial normal form over atoms
    def atom_id(self, e):
        k = e.get_id()
        r = self.atomid.get(k)
        if r is None:
            r = len(self.atomlist)
            self.atomlist.append(e)
            self.atomid[k] = r
        return r

    def poly(self, e):
        """z3 real term (or rational) -> {monomial: coefficient}; monomial = tuple of (atom, power)"""
        if not isz(e):
            return {(): Fraction(e)} if e else {}
        k = e.get_id()
        r = self.poly_cache.get(k)
        if r is not None:
            return r
        r = self.poly_(e)
        self.poly_cache[k] = r
        self.nfkeep.append(e)
        return r

    def poly_(self, e):
        if z3.is_rational_value(e):
            f = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return {(): f} if f else {}
        kind = e.decl().kind()
        if kind == z3.Z3_OP_ADD or kind == z3.Z3_OP_SUB:
            out = dict(self.poly(e.arg(0)))
            for i in range(1, e.num_args()):
                for m, c in self.poly(e.arg(i)).items():
                    v = out.get(m, 0) + (c if kind == z3.Z3_OP_ADD else -c)
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
            return out
        if kind == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in self.poly(e.arg(0)).items()}
        if kind == z3.Z3_OP_MUL:
            out = self.poly(e.arg(0))
            for i in range(1, e.num_args()):
                out = self.pmul(out, self.poly(e.arg(i)))
            return out
        if kind == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).denominator_as_long() == 1 \
                and 0 <= e.arg(1).numerator_as_long() <= 64:
            out = {(): Fraction(1)}
            p = self.poly(e.arg(0))
            for _ in range(e.arg(1).numerator_as_long()):
                out = self.pmul(out, p)
            return out
        if kind == z3.Z3_OP_DIV:
            return self.pmul(self.poly(e.arg(0)), self.poly(toz(self.mkinv(e.arg(1)))))
        if kind == z3.Z3_OP_ITE:
            a, b = self.nf(e.arg(1)), self.nf(e.arg(2))
            a, b = toz(a), toz(b)
            if a.eq(b):
                return self.poly(a)
            c = self.simp_bool(e.arg(0))
            if c is True:
                return self.poly(a)
            if c is False:
                return self.poly(b)
            t = z3.If(c, a, b)
            self.nfkeep.append(t)
            return {((self.atom_id(t), 1),): Fraction(1)}
        if e.num_args() == 0:
            return {((self.atom_id(e), 1),): Fraction(1)}
        t = z3.simplify(e)
        if t.num_args() and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_ITE, z3.Z3_OP_UMINUS) or z3.is_rational_value(t):
            return self.poly(t)
        self.nfkeep.append(t)
        return {((self.atom_id(t), 1),): Fraction(1)}

    def pmul(self, p, q):
        if len(p) * len(q) > 4000000:
            raise Unsupported("polynomial blow-up")
        if len(p) == 1 and () in p:
            c = p[()]
            return {m: c * v for m, v in q.items()}
        if len(q) == 1 and () in q:
            c = q[()]
            return {m: c * v for m, v in p.items()}
        out = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self.mmul(m1, m2)
                v = out.get(m, 0) + c1 * c2
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
        return out

    def mmul(self, a, b):
        if not a:
            return b
        if not b:
            return a
        key = (a, b)
        r = self.mm_cache.get(key)
        if r is not None:
            return r
        d = dict(a)
        for k, n in b:
            d[k] = d.get(k, 0) + n
        # x * (1/x) = 1 for atomic x (division by zero is outside the real-number model)
        for k in [k for k in d if k in self.invof]:
            j = self.invof[k]
            if j in d and k in d:
                n = min(d[j], d[k])
                for q in (j, k):
                    d[q] -= n
                    if not d[q]:
                        del d[q]
        r = tuple(sorted(d.items()))
        self.mm_cache[key] = r
        return r

    def nf(self, e):
        """canonical z3 term of the polynomial normal form over atoms"""
        if not isz(e):
            return e
        k = e.get_id()
        r = self.nf_cache.get(k)
        if r is not None:
            return r
        r = self.from_poly(self.poly(e))
        self.nf_cache[k] = r
        self.nf_cache[r.get_id()] = r
        self.nfkeep.append((e, r))
        return r

    def from_poly(self, p):
        key = frozenset(p.items())
        r = self.poly_expr.get(key)
        if r is not None:
            return r
        ts = []
        for m, c in sorted(p.items(), key=lambda x: (sum(n for _, n in x[0]), x[0])):
            f = []
            for a, n in m:
                f += [self.atomlist[a]] * n
            if c != 1 or not f:
                f = [z3.RealVal(str(c))] + f
            ts.append(f[0] if len(f) == 1 else z3.Product(f) if False else z3_mul(f))
        r = z3.RealVal(0) if not ts else ts[0] if len(ts) == 1 else z3_add(ts)
        self.poly_expr[key] = r
        self.poly_cache[r.get_id()] = p
        self.nf_cache[r.get_id()] = r
        self.nfkeep.append(r)
        return r

    def uf(self, fname, *args):
        key = [fname]
        nargs = []
        for a in args:
            if isz(a):
                a = self.nf(a)
                if z3.is_rational_value(a):
                    a = Fraction(a.numerator_as_long(), a.denominator_as_long())
                    key.append(("q", a))
                else:
                    key.append(("z", a.get_id()))
            else:
                key.append(("q", a))
            nargs.append(a)
        key = tuple(key)
        if key not in self.atoms:
            n = "%s(%s)" % (fname, ",".join(self.short(a) for a in nargs))
            if n in self.bysym:
                n += "#%d" % len(self.atoms)
            c = z3.Real(n)
            self.atoms[key] = c
            self.bysym[n] = (fname, nargs)
        return self.atoms[key]

    def short(self, a):
        if not isz(a):
            return str(a)
        s = a.sexpr() if a.num_args() <= 3 else ""
        s = " ".join(s.split())
        if s and len(s) < 60:
            return s.replace("|", "")
        return "t%d" % a.get_id()

    def mkinv(self, d):
        if not isz(d):
            return 1 / d if d else z3.Real("div0")
        p = self.poly(d)
        if not p:
            return z3.Real("div0")
        if len(p) == 1:
            (m, c), = p.items()
            out = 1 / c
            for a, n in m:
                out = self.rmul(out, self.rpow(self.inv_atom(a), n))
            return out
        # content: common monomial and leading coefficient
        ms = sorted(p, key=lambda m: (sum(n for _, n in m), m))
        common = dict(ms[0])
        for m in ms[1:]:
            dm = dict(m)
            common = {k: min(n, dm[k]) for k, n in common.items() if k in dm}
        lead = p[ms[0]]
        q = {}
        for m, c in p.items():
            dm = dict(m)
            for k, n in common.items():
                dm[k] -= n
                if not dm[k]:
                    del dm[k]
            q[tuple(sorted(dm.items()))] = c / lead
        d2 = self.from_poly(q)
        a = self.uf("Inv", d2)
        self.inv.setdefault(a.decl().name(), d2)
        out = self.rmul(1 / lead, a)
        for k, n in common.items():
            out = self.rmul(out, self.rpow(self.inv_atom(k), n))
        return out

    def inv_atom(self, k):
        """1/atom"""
        x = self.atomlist[k]
        if k in self.invof:
            return self.atomlist[self.invof[k]]
        if x.eq(PI):
            a = INVPI
        elif x.eq(INVPI):
            a = PI
        else:
            a = self.uf("Inv", x)
            self.inv.setdefault(a.decl().name(), x)
        j = self.atom_id(a)
        self.invof[k] = j
        self.invof[j] = k
        self.mm_cache.clear()
        return a

    # -------------------------------------------------- sign assumptions
    def monic(self, d):
        """(key term, sign): d = positive constant * sign * key"""
        p = self.poly(d)
        if not p:
            return z3.RealVal(0), 1
        c = p[min(p, key=lambda m: (sum(n for _, n in m), m))]
        return self.from_poly({m: v / c for m, v in p.items()}), (1 if c > 0 else -1)

    FLIP = {">": "<", "<": ">", "=": "=", ">=": "<=", "<=": ">=", "!": "!"}

    def assume_sign(self, d, s):
        """restrict the inputs to d s 0 (s one of > < = >= <= !); comparisons of d are then decided"""
        d = toz(d)
        self.sign_list.append({">": d > 0, "<": d < 0, "=": d == 0, ">=": d >= 0, "<=": d <= 0, "!": d != 0}[s])
        n, sg = self.monic(d)
        self.signs[n.get_id()] = s if sg > 0 else self.FLIP[s]

    def sign_of(self, d):
        if not self.signs:
            return None
        n, sg = self.monic(d)
        s = self.signs.get(n.get_id())
        return s if s is None or sg > 0 else self.FLIP[s]

    # -------------------------------------------------- real arithmetic
    def radd(self, a, b):
        if isz(a) or isz(b):
            if not isz(a) and a == 0:
                return b
            if not isz(b) and b == 0:
                return a
            return toz(a) + toz(b)
        return a + b

    def rsub(self, a, b):
        if isz(a) or isz(b):
            if not isz(b) and b == 0:
                return a
            return toz(a) - toz(b)
        return a - b

    def rmul(self, a, b):
        if isz(a) or isz(b):
            if not isz(a):
                if a == 0:
                    return R0
                if a == 1:
                    return b
            if not isz(b):
                if b == 0:
                    return R0
                if b == 1:
                    return a
            return toz(a) * toz(b)
        return a * b

    def rdiv(self, a, b, st=None):
        if not isz(b):
            if b == 0:
                if st is not None:
                    self.event("div0", st, "division by constant zero")
                return z3.Real("div0")
            return self.rmul(a, 1 / b)
        if isz(a):
            p, q = self.poly(a), self.poly(b)
            if p and len(p) == len(q) > 1:
                k = next(iter(q))
                r = p.get(k, 0) / q[k]
                if r and all(p.get(m) == r * c for m, c in q.items()):
                    return toz(r)
        return self.rmul(a, self.mkinv(b))

    def rneg(self, a):
        return -a

    def rpow(self, a, n):
        r = Fraction(1)
        for _ in range(n):
            r = self.rmul(r, a)
        return r

    # -------------------------------------------------- globals
    def global_ptr(self, st, name):
        if name in self.m.funcs or (name in self.m.decls and name not in self.m.globals):
            return Fn(name)
        if name in self.gobj:
            oid = self.gobj[name]
            if oid not in st.mem:
                st.mem[oid] = self.ginit[oid]
            return Ptr(oid, 0)
        if name not in self.m.globals:
            return Fn(name)
        ty, init, const = self.m.globals[name]
        p = self.new_obj(st, "@" + name, self.m.size(ty) if ty.k != "opaque" else None, "global")
        o = st.mem[p.o]
        o.const = const
        self.gobj[name] = p.o
        if not hasattr(self, "ginit"):
            self.ginit = {}
        if init is not None:
            self.init_const(st, o, 0, ty, init)
        self.ginit[p.o] = o
        st.own.discard(p.o)
        return p

    def init_const(self, st, o, off, ty, v):
        rt = self.m.resolve(ty)
        if v[0] == "zero":
            if off == 0 and self.m.size(ty) == o.size:
                o.zero = True
                return
            for k in range(self.m.size(ty)):
                o.cells[off + k] = (1, 0)
            return
        if v[0] == "bytes":
            for k, b in enumerate(v[1]):
                o.cells[off + k] = (1, b)
            return
        if v[0] == "agg":
            for i, (et, ev) in enumerate(v[1]):
                eo = off + (i * self.m.size(rt.el) if rt.k == "arr" else self.m.field_off(ty, i))
                self.init_const(st, o, eo, et, ev)
            return
        if v[0] == "undef":
            return
        o.cells[off] = (self.m.size(ty), self.operand(st, {}, v, ty))

    # -------------------------------------------------- operands
    def operand(self, st, env, v, ty=None):
        k = v[0]
        if k == "r":
            return env[v[1]]
        if k == "c":
            return v[1]
        if k == "f":
            return real_const(v[1])
        if k == "null":
            return NULL
        if k == "g":
            return self.global_ptr(st, v[1][1:].strip('"'))
        if k == "undef":
            return Undef(v[1])
        if k == "zero":
            t = self.m.resolve(v[1])
            return self.zero_of(t)
        if k == "gep":
            base = self.operand(st, env, v[2])
            return self.gep(st, env, v[1], base, v[3])
        if k == "cast":
            return self.operand(st, env, v[2])
        if k == "agg":
            return Agg([self.operand(st, env, x, t) for t, x in v[1]])
        raise Unsupported("operand %r" % (v,))

    def zero_of(self, t):
        t = self.m.resolve(t)
        if t.k == "int":
            return 0
        if t.k in ("double", "float", "x86_fp80"):
            return R0
        if t.k == "ptr":
            return NULL
        if t.k == "struct":
            return Agg([self.zero_of(e) for e in t.el])
        raise Unsupported("zero %r" % t)

    def idx64(self, ity, v):
        w = ity.w
        if isinstance(v, int):
            return v - (1 << w) if v >> (w - 1) else v
        if isinstance(v, Undef):
            return self.fresh_bv("undef", 64)
        if w < 64:
            return z3.SignExt(64 - w, v)
        return v

    def gep(self, st, env, sty, base, idx):
        if isinstance(base, Multi):
            return Multi([(c, self.gep(st, env, sty, p, idx)) for c, p in base.alts])
        if isinstance(base, Undef):
            return base
        if isinstance(base, Fn):
            raise Unsupported("gep on function")
        off = base.off
        t = sty
        for n, (ity, iv) in enumerate(idx):
            v = self.operand(st, env, iv, ity)
            i = self.idx64(ity, v)
            if n == 0:
                sz = self.m.size(t)
            else:
                t = self.m.resolve(t)
                if t.k == "struct":
                    off = off + self.m.field_off(t, i)
                    t = t.el[i]
                    continue
                t = t.el
                sz = self.m.size(t)
            if isz(i):
                off = z3.simplify((off if isz(off) else z3.BitVecVal(off, 64)) + i * z3.BitVecVal(sz, 64))
                if z3.is_bv_value(off):
                    off = off.as_signed_long()
            else:
                if isz(off):
                    off = z3.simplify(off + z3.BitVecVal(i * sz, 64))
                else:
                    off = off + i * sz
        return Ptr(base.o, off)

    # -------------------------------------------------- memory access
    def access(self, st, p, size, what):
        """checks; returns the object or None"""
        if isinstance(p, Undef):
            self.event("wild", st, what + " through an undefined pointer")
            return None
        if isinstance(p, Fn):
            self.event("wild", st, what + " through a function pointer")
            return None
        if p.o == 0:
            self.event("null", st, what + " through NULL (+%s)" % p.off)
            return None
        o = st.mem.get(p.o)
        if o is None:
            self.event("wild", st, what + " of object out of scope %s" % p.o)
            return None
        if o.freed is not None:
            if o.freed is True:
                self.event("uaf", st, "%s of freed %s" % (what, o.name))
            else:
                g2 = g_add(st.g, o.freed)
                if g2 is not None:
                    self.events.append(Event("uaf", g2, self.where(), "%s of freed %s" % (what, o.name)))
        if o.size is not None:
            if not isz(p.off) and not isz(o.size):
                if p.off < 0 or p.off + size > o.size:
                    self.event("oob", st, "%s of %d bytes at offset %d of %s (%d bytes)" % (what, size, p.off, o.name, o.size))
                    return None
            else:
                off = p.off if isz(p.off) else z3.BitVecVal(p.off, 64)
                osz = o.size if isz(o.size) else z3.BitVecVal(o.size, 64)
                bad = z3.simplify(z3.Or(z3.UGT(off, osz), z3.UGT(z3.BitVecVal(size, 64), osz - off)))
                if not z3.is_false(bad):
                    g2 = g_add(st.g, bad)
                    if g2 is not None:
                        self.events.append(Event("oob", g2, self.where(), "%s at symbolic offset of %s" % (what, o.name), (off, osz)))
        if self.track_rw is not None:
            self.track_rw(what, p, size, st, o)
        return o

    def load(self, st, ty, p):
        if isinstance(p, Multi):
            out = None
            for c, q in reversed(p.alts):
                if c is not None:
                    g = g_add(st.g, c)
                    if g is None:
                        continue
                    s2 = State(st.mem, g, st.log)
                else:
                    s2 = st
                v = self.load(s2, ty, q)
                out = v if out is None else self.ite(c, v, out)
            return out
        size = self.m.size(ty)
        rt = self.m.resolve(ty)
        if rt.k == "struct":
            return Agg([self.load(st, e, self.padd(p, self.m.field_off(rt, i))) for i, e in enumerate(rt.el)])
        o = self.access(st, p, size, "read")
        if o is None:
            return self.undef_val(rt)
        if isz(p.off):
            return self.load_sym(st, rt, o, p, size)
        return self.load_at(st, rt, o, p.o, p.off, size)

    def padd(self, p, k):
        if isinstance(p, Multi):
            return Multi([(c, self.padd(q, k)) for c, q in p.alts])
        if isz(p.off):
            return Ptr(p.o, z3.simplify(p.off + k))
        return Ptr(p.o, p.off + k)

    def undef_val(self, t):
        if t.k == "int":
            return self.fresh_bv("undef", t.w)
        if t.k in ("double", "float", "x86_fp80"):
            return self.fresh_real("undef")
        return Undef(t)

    def load_at(self, st, rt, o, oid, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.coerce(c[1], rt)
        # overlapping cells?
        if c is not None or any((k in o.cells) for k in range(off + 1, off + size)) or \
                any((off - k) in o.cells and o.cells[off - k][0] > k for k in range(1, 8)):
            if rt.k == "int":
                return self.load_bytes(st, rt, o, oid, off, size)
            # zero-filled bytes
            bs = [self.byte_at(st, o, off + k) for k in range(size)]
            if all(isinstance(b, int) and b == 0 for b in bs):
                return self.zero_of(rt)
            raise Unsupported("partial load %r at %s+%d" % (rt, o.name, off))
        if o.zero:
            return self.zero_of(rt)
        if o.lazy is not None:
            v = o.lazy(self, st, oid, off, rt)
            if v is not None:
                st.w(oid).cells[off] = (size, v)
                return v
        if self.check_uninit:
            self.event("uninit", st, "read of uninitialised %s+%d" % (o.name, off))
        v = self.undef_val(rt)
        if not isinstance(v, Undef):
            st.w(oid).cells[off] = (size, v)
        return v

    def byte_at(self, st, o, off):
        c = o.cells.get(off)
        if c is not None and c[0] == 1:
            return c[1]
        for k in range(0, 16):
            c = o.cells.get(off - k)
            if c is not None:
                if c[0] <= k:
                    break
                v = c[1]
                if isinstance(v, int):
                    return (v >> (8 * k)) & 255
                if isz(v) and z3.is_bv(v):
                    return z3.simplify(z3.Extract(8 * k + 7, 8 * k, v))
                if isinstance(v, Fraction) and v == 0:
                    return 0
                if isinstance(v, Ptr) and v.o == 0 and v.off == 0:
                    return 0
                raise Unsupported("byte of non-int cell")
        if o.zero:
            return 0
        if o.lazy is not None:
            v = o.lazy(self, st, None, off, INT(8))
            if v is not None:
                o.cells[off] = (1, v)
                return v
        return self.fresh_bv("undefbyte", 8)

    def load_bytes(self, st, rt, o, oid, off, size):
        bs = [self.byte_at(st, o, off + k) for k in range(size)]
        if all(isinstance(b, int) for b in bs):
            return sum(b << (8 * k) for k, b in enumerate(bs))
        bs = [b if isz(b) else z3.BitVecVal(b, 8) for b in bs]
        return bs[0] if size == 1 else z3.simplify(z3.Concat(*reversed(bs)))

    def coerce(self, v, rt):
        if isinstance(v, Undef):
            return self.undef_val(rt) if rt.k != "ptr" else v
        if rt.k == "int":
            if isinstance(v, (int,)) or (isz(v) and (z3.is_bv(v) or z3.is_bool(v))):
                return v
            if isinstance(v, Fraction) and v == 0:
                return 0
            if isinstance(v, Ptr) and v.o == 0:
                return v.off
            if isinstance(v, (Ptr, Fn, Multi)):
                return v      # pointer punned as integer
            raise Unsupported("int load of %r" % (v,))
        if rt.k in ("double", "float", "x86_fp80"):
            if isinstance(v, Fraction) or (isz(v) and z3.is_real(v)):
                return v
            if isinstance(v, int) and v == 0:
                return R0
            raise Unsupported("fp load of %r" % (v,))
        if rt.k == "ptr":
            if isinstance(v, int):
                return Ptr(0, v)
            return v
        raise Unsupported("load %r" % rt)

    def offsets_in(self, st, o, rt, size):
        n = o.size
        if isz(n):
            raise Unsupported("symbolic-size object access " + o.name)
        return range(0, n - size + 1, size)

    def load_sym(self, st, rt, o, p, size):
        if o.size is None or isz(o.size):
            raise Unsupported("symbolic offset into unbounded " + o.name)
        stride = self.stride(o, p.off, size)
        cand = range(self.base_of(p.off, stride), o.size - size + 1, stride)
        out = None
        oid = p.o
        for off in reversed(list(cand)):
            v = self.load_at(st, rt, st.mem[oid], oid, off, size)
            if isinstance(v, (Ptr, Multi, Fn)) or rt.k == "ptr":
                cond = p.off == z3.BitVecVal(off, 64)
                out = v if out is None else self.ite(cond, v, out)
            else:
                out = v if out is None else self.ite_w(p.off == z3.BitVecVal(off, 64), v, out, 8 * size)
        if out is None:
            return self.undef_val(rt)
        return out

    def stride(self, o, off, size):
        """largest power-of-two-free stride that provably divides off - base"""
        e = off
        mult = 0
        terms = e.children() if (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_BADD) else [e]
        g = 0
        for t in terms:
            if z3.is_bv_value(t):
                continue
            if t.decl().kind() == z3.Z3_OP_BMUL and z3.is_bv_value(t.arg(0)):
                g = math.gcd(g, t.arg(0).as_signed_long())
            elif t.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(t.arg(t.num_args() - 1)) \
                    and t.arg(t.num_args() - 1).as_long() == 0:
                g = math.gcd(g, 1 << t.arg(t.num_args() - 1).size())
            else:
                g = math.gcd(g, 1)
        return max(abs(g), 1)

    def base_of(self, off, stride):
        c = 0
        if z3.is_app(off) and off.decl().kind() == z3.Z3_OP_BADD:
            for t in off.children():
                if z3.is_bv_value(t):
                    c += t.as_signed_long()
        return c % stride

    def store(self, st, ty, v, p):
        if isinstance(p, Multi):
            rest = None
            for c, q in p.alts:
                if c is None:
                    c2 = rest
                else:
                    c2 = c if rest is None else z3.And(rest, c)
                    rest = z3.Not(c) if rest is None else z3.And(rest, z3.Not(c))
                g = st.g if c2 is None else g_add(st.g, c2)
                if g is None:
                    continue
                s2 = State(st.mem, g, st.log)
                s2.own = st.own
                old = None
                o = self.access(s2, q, self.m.size(ty), "write")
                if o is None:
                    continue
                if c2 is not None:
                    old = self.load_at(st, self.m.resolve(ty), st.mem[q.o], q.o, q.off, self.m.size(ty))
                    nv = self.ite(c2, v, old)
                else:
                    nv = v
                self.put(st, q.o, q.off, self.m.size(ty), nv)
            return
        size = self.m.size(ty)
        rt = self.m.resolve(ty)
        if isinstance(v, Agg):
            for i, e in enumerate(rt.el):
                self.store(st, e, v.v[i], self.padd(p, self.m.field_off(rt, i)))
            return
        o = self.access(st, p, size, "write")
        if o is None:
            return
        if isz(p.off):
            if self.omp_iter is not None and self.omp_iter.it is not None and o.size is not None and o.size > 2048:
                return          # only the location matters there
            if o.size is None or isz(o.size):
                raise Unsupported("symbolic store into unbounded " + o.name)
            stride = self.stride(o, p.off, size)
            for off in range(self.base_of(p.off, stride), o.size - size + 1, stride):
                old = self.load_at(st, rt, st.mem[p.o], p.o, off, size)
                self.put(st, p.o, off, size, self.ite_w(p.off == z3.BitVecVal(off, 64), v, old, 8 * size))
            return
        self.put(st, p.o, p.off, size, v)

    def put(self, st, oid, off, size, v):
        o = st.w(oid)
        if off in o.cells and o.cells[off][0] == size:
            o.cells[off] = (size, v)
            return
        # split overlapping cells into bytes where needed
        lo = off
        for k in range(1, 17):
            c = o.cells.get(off - k)
            if c is not None:
                if c[0] > k:
                    bs = [self.byte_at(st, o, off - k + j) for j in range(c[0])]
                    del o.cells[off - k]
                    for j, b in enumerate(bs):
                        o.cells[off - k + j] = (1, b)
                break
        for k in range(0, size):
            c = o.cells.get(off + k)
            if c is not None:
                if k + c[0] > size:
                    bs = [self.byte_at(st, o, off + k + j) for j in range(c[0])]
                    del o.cells[off + k]
                    for j, b in enumerate(bs):
                        o.cells[off + k + j] = (1, b)
        for k in range(0, size):
            o.cells.pop(off + k, None)
        o.cells[off] = (size, v)

    # -------------------------------------------------- merging values
    def ite(self, c, a, b):
        if c is None or z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if a is b:
            return a
        if isinstance(a, Undef):
            return b
        if isinstance(b, Undef):
            return a
        if isinstance(a, (Ptr, Fn, Multi)) or isinstance(b, (Ptr, Fn, Multi)):
            if isinstance(a, int):
                a = Ptr(0, a)
            if isinstance(b, int):
                b = Ptr(0, b)
            if same_ptr(a, b):
                return a
            aa = a.alts if isinstance(a, Multi) else [(None, a)]
            bb = b.alts if isinstance(b, Multi) else [(None, b)]
            out = []
            for cc, p in aa:
                out.append((c if cc is None else z3.And(c, cc), p))
            out.extend(bb)
            # collapse if all the same
            if all(same_ptr(out[0][1], p) for _, p in out[1:]):
                return out[0][1]
            return Multi(out)
        if isinstance(a, Agg):
            return Agg([self.ite(c, x, y) for x, y in zip(a.v, b.v)])
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            if a == b:
                return a
            return z3.If(c, toz(a), toz(b))
        if isinstance(a, int) and isinstance(b, int):
            if a == b:
                return a
            w = 64
            raise_w = getattr(self, "_w", None)
            return z3.If(c, z3.BitVecVal(a, raise_w or w), z3.BitVecVal(b, raise_w or w))
        if isz(a) and isz(b) and a.eq(b):
            return a
        if isz(a) and z3.is_real(a) or isz(b) and z3.is_real(b):
            return z3.If(c, toz(a), toz(b))
        if isz(a) and z3.is_bool(a) or isz(b) and z3.is_bool(b):
            f = lambda x: x if isz(x) else z3.BoolVal(bool(x))
            return z3.If(c, f(a), f(b))
        if isz(a) and z3.is_bv(a):
            b = b if isz(b) else z3.BitVecVal(b, a.size())
            if b.size() != a.size():
                raise Unsupported("ite width")
            return z3.If(c, a, b)
        if isz(b) and z3.is_bv(b):
            return z3.If(c, z3.BitVecVal(a, b.size()), b)
        raise Unsupported("ite %r %r" % (a, b))

    def ite_w(self, c, a, b, w):
        self._w = w
        try:
            return self.ite(c, a, b)
        finally:
            self._w = None

    def merge(self, A, B, envA, envB, widths):
        """merge two states (same block)"""
        g, c = g_merge(A.g, B.g)
        env = {}
        for k, v in envA.items():
            if k in envB:
                u = envB[k]
                if v is u:
                    env[k] = v
                else:
                    env[k] = self.ite_w(c, v, u, widths.get(k))
        st = State({}, g)
        st.log = A.log if A.log == B.log else (("ite", c, A.log, B.log),)
        for oid, oa in A.mem.items():
            ob = B.mem.get(oid)
            if ob is None or ob is oa:
                st.mem[oid] = oa
                continue
            st.mem[oid] = self.merge_obj(c, oa, ob, st)
            st.own.add(oid)
        for oid, ob in B.mem.items():
            if oid not in A.mem:
                st.mem[oid] = ob
        return st, env

    def merge_obj(self, c, a, b, st):
        o = a.copy()
        if a.freed is not b.freed:
            fa = z3.BoolVal(False) if a.freed is None else z3.BoolVal(True) if a.freed is True else a.freed
            fb = z3.BoolVal(False) if b.freed is None else z3.BoolVal(True) if b.freed is True else b.freed
            f = z3.simplify(z3.If(c, fa, fb))
            o.freed = None if z3.is_false(f) else True if z3.is_true(f) else f
        if isz(a.size) or isz(b.size) or a.size != b.size:
            if not (isz(a.size) and isz(b.size) and a.size.eq(b.size)):
                za = a.size if isz(a.size) else z3.BitVecVal(a.size, 64)
                zb = b.size if isz(b.size) else z3.BitVecVal(b.size, 64)
                o.size = z3.If(c, za, zb)
        for off in set(a.cells) | set(b.cells):
            ca, cb = a.cells.get(off), b.cells.get(off)
            if ca is cb:
                continue
            if ca is not None and cb is not None and ca[0] == cb[0]:
                if ca[1] is cb[1]:
                    continue
                o.cells[off] = (ca[0], self.ite_w(c, ca[1], cb[1], 8 * ca[0]))
            elif ca is None or cb is None:
                have = ca or cb
                side = b if ca is None else a
                oth = a if ca is None else b
                if oth.zero and not any((off + k) in oth.cells for k in range(have[0])):
                    z = self.zero_like(have[1])
                    va, vb = (z, have[1]) if ca is None else (have[1], z)
                    o.cells[off] = (have[0], self.ite_w(c, va, vb, 8 * have[0]))
                elif oth.lazy is not None and not any((off + k) in oth.cells for k in range(have[0])):
                    t = self.type_like(have[1], have[0])
                    z = oth.lazy(self, st, None, off, t)
                    va, vb = (z, have[1]) if ca is None else (have[1], z)
                    o.cells[off] = (have[0], self.ite_w(c, va, vb, 8 * have[0]))
                elif any((off + k) in oth.cells for k in range(1, have[0])) or \
                        any((off - k) in oth.cells and oth.cells[off - k][0] > k for k in range(1, 16)):
                    self.bytewise(o, a, b, c, off, st)
                else:
                    o.cells[off] = have    # other side undefined
            else:
                self.bytewise(o, a, b, c, off, st)
        return o

    def bytewise(self, o, a, b, c, off, st):
        ca, cb = a.cells.get(off), b.cells.get(off)
        n = max(x[0] for x in (ca, cb) if x)
        o.cells.pop(off, None)
        for k in range(n):
            o.cells[off + k] = (1, self.ite_w(c, self.byte_at(st, a, off + k), self.byte_at(st, b, off + k), 8))

    def zero_like(self, v):
        if isinstance(v, Fraction) or (isz(v) and z3.is_real(v)):
            return R0
        if isinstance(v, (Ptr, Fn, Multi)):
            return NULL
        return 0

    def type_like(self, v, size):
        if isinstance(v, Fraction) or (isz(v) and z3.is_real(v)):
            return DOUBLE
        if isinstance(v, (Ptr, Fn, Multi)):
            return PTR
        return INT(8 * size)

    # -------------------------------------------------- running functions
    def call(self, st, name, args):
        """returns (ret, state) ; state None if no path returns"""
        if name in self.stubs:
            return self.stubs[name](self, st, args)
        f = self.m.funcs.get(name)
        if f is None:
            raise Unsupported("call to unknown function " + name)
        return self.run(st, f, args)

    def run(self, st, f, args):
        self.used[f.name] = self.used.get(f.name, 0) + 1
        if len(self.stack) > 60:
            raise Unsupported("recursion")
        self.stack.append(f.name)
        self.varargs.append(args[len(f.params):])
        env = {}
        for i, (ty, nm, info) in enumerate(f.params):
            if nm:
                env[nm] = args[i]
        base_g = st.g
        if not hasattr(f, "widths"):
            f.widths = {}
            for b in f.order:
                for ins in f.blocks[b]:
                    if ins.dst:
                        t = ins.ty
                        if ins.op in ("icmp", "fcmp"):
                            f.widths[ins.dst] = 1
                        elif t is not None and t.k == "int":
                            f.widths[ins.dst] = t.w
        # env pruning: keep only values live somewhere else (cheap version: all)
        pend = {f.order[0]: [(st, env, None)]}
        rets = []
        while pend:
            b = min(pend, key=lambda x: (-f.depth[x], f.rpo[x]))
            lst = pend.pop(b)
            # evaluate phis per incoming then merge
            cur = None
            for (s, e, pred) in lst:
                e = dict(e)
                new = {}
                for ins in f.blocks[b]:
                    if ins.op != "phi":
                        break
                    for v, pb in ins.x:
                        if pb == pred:
                            new[ins.dst] = self.operand(s, e, v, ins.ty)
                            break
                    else:
                        raise Unsupported("phi")
                e.update(new)
                if cur is None:
                    cur = (s, e)
                else:
                    cur = self.merge(cur[0], s, cur[1], e, f.widths)
            s, e = cur
            out = self.block(s, f, b, e)
            for kind, *r in out:
                if kind == "ret":
                    rets.append((r[0], r[1]))
                elif kind == "goto":
                    s2, e2, tgt = r
                    pend.setdefault(tgt, []).append((s2, e2, b))
        self.stack.pop()
        self.varargs.pop()
        if not rets:
            return None, None
        v, s = rets[0]
        wd = {"%r": f.ret.w} if f.ret.k == "int" else {}
        for v2, s2 in rets[1:]:
            s, e = self.merge(s, s2, {"%r": v}, {"%r": v2}, wd)
            v = e["%r"]
        # drop stack objects? keep (escape is impossible to misuse: events)
        return v, s

    def simp_bool(self, c):
        if isinstance(c, int):
            return bool(c)
        if isinstance(c, Undef):
            self.fresh_n += 1
            return z3.Bool("undef!%d" % self.fresh_n)
        if z3.is_bv(c):
            c = c == 1
        k = c.get_id()
        r = self.cond_cache.get(k)
        if r is None:
            r = z3.simplify(c)
            self.cond_cache[k] = r
            self.nfkeep.append((c, r))
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return r

    def feasible(self, g):
        if self.feas is None:
            return True
        self.feas_n += 1
        self.feas.push()
        for l in g:
            self.feas.add(lit_expr(l))
        r = self.feas.check()
        self.feas.pop()
        return r != z3.unsat

    def block(self, st, f, b, env):
        for ins in f.blocks[b]:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported("step budget")
            op = ins.op
            if op == "phi":
                continue
            if op == "br":
                if isinstance(ins.x, str):
                    return [("goto", st, env, ins.x)]
                if self.omp_iter is not None and self.omp_iter.it is not None and b.startswith("%omp.inner.for.cond"):
                    n, self.omp_iter.enter = self.omp_iter.enter, False
                    return [("goto", st, env, ins.x[0 if n else 1])]
                c = self.simp_bool(self.operand(st, env, ins.a[0]))
                if c is True:
                    return [("goto", st, env, ins.x[0])]
                if c is False:
                    return [("goto", st, env, ins.x[1])]
                ga, gb = g_add(st.g, c), g_add(st.g, c, False)
                if ga is not None and gb is not None and self.feas is not None:
                    if not self.feasible(ga):
                        ga = None
                    elif not self.feasible(gb):
                        gb = None
                if ga is None:
                    return [("goto", st, env, ins.x[1])]
                if gb is None:
                    return [("goto", st, env, ins.x[0])]
                s2 = st.fork(gb)
                st.g = ga
                return [("goto", st, env, ins.x[0]), ("goto", s2, dict(env), ins.x[1])]
            if op == "switch":
                v = self.operand(st, env, ins.a[0])
                d, cases = ins.x
                if isinstance(v, int):
                    for c, l in cases:
                        if c == v:
                            return [("goto", st, env, l)]
                    return [("goto", st, env, d)]
                out = []
                tg = {}
                rest = st.g
                for c, l in cases:
                    cond = self.simp_bool(v == z3.BitVecVal(c, v.size()))
                    if cond is False:
                        continue
                    if cond is True:
                        g = rest
                        rest = None
                    else:
                        g = g_add(rest, cond)
                        rest = g_add(rest, cond, False)
                    if g is not None and self.feasible(g):
                        out.append((g, l))
                    if rest is None:
                        break
                if rest is not None and self.feasible(rest):
                    out.append((rest, d))
                res = []
                for g, l in out:
                    res.append(("goto", st.fork(g), dict(env), l))
                return res
            if op == "ret":
                v = self.operand(st, env, ins.a[0], ins.ty) if ins.a else None
                return [("ret", v, st)]
            if op == "unreachable":
                return []
            if op == "call":
                r = self.do_call(st, env, ins)
                if r is None:
                    return []
                v, st = r
                if ins.dst:
                    env[ins.dst] = v
                continue
            self.simple(st, env, ins)
        raise Unsupported("no terminator")

    def do_call(self, st, env, ins):
        args = []
        for ty, v, info in ins.a:
            a = self.operand(st, env, v, ty)
            if "byval" in info:
                t = info["byval"]
                p = self.new_obj(st, "byval", self.m.size(t), "stack")
                self.copy(st, p, a, self.m.size(t))
                a = p
            args.append(a)
        callee = ins.x
        if callee.startswith("%"):
            fp = env[callee]
            if isinstance(fp, Multi):
                return self.call_multi(st, fp, args)
            if not isinstance(fp, Fn):
                if "indirect" in self.stubs:
                    r = self.stubs["indirect"](self, st, [fp] + args)
                    return r
                self.event("wild", st, "call through %r" % fp)
                return None
            name = fp.name
        else:
            name = callee[1:]
        v, s2 = self.call(st, name, args)
        if s2 is None:
            return None
        return v, s2

    def call_multi(self, st, fp, args):
        res = None
        rest = st.g
        outs = []
        for c, p in fp.alts:
            g = rest if c is None else g_add(rest, c)
            if g is not None:
                s2 = st.fork(g)
                v, s3 = self.call(s2, p.name, args)
                if s3 is not None:
                    outs.append((v, s3))
            if c is None:
                rest = None
                break
            rest = g_add(rest, c, False)
            if rest is None:
                break
        if not outs:
            return None
        v, s = outs[0]
        for v2, s2 in outs[1:]:
            s, e = self.merge(s, s2, {"r": v}, {"r": v2}, {})
            v = e["r"]
        return v, s

    def copy(self, st, dst, src, n):
        """memcpy"""
        if n == 0:
            return
        so = self.access(st, src, n, "read")
        do = self.access(st, dst, n, "write")
        if so is None or do is None:
            return
        if isz(src.off) or isz(dst.off):
            raise Unsupported("memcpy at symbolic offset")
        if so.lazy is not None and not so.cells:
            pass
        d = st.w(dst.o)
        so = st.mem[src.o]
        # drop destination cells
        for k in [k for k in d.cells if dst.off <= k < dst.off + n]:
            if src.o != dst.o:
                del d.cells[k]
        items = [(k, c) for k, c in so.cells.items() if src.off <= k < src.off + n]
        covered = 0
        for k, c in items:
            d.cells[dst.off + k - src.off] = c
            covered += c[0]
        if covered < n and so.zero and not d.zero:
            have = set()
            for k, c in items:
                have.update(range(k, k + c[0]))
            for k in range(src.off, src.off + n):
                if k not in have:
                    d.cells[dst.off + k - src.off] = (1, 0)
        if covered < n and so.lazy is not None:
            # keep reading lazily from the source through an indirection
            lz, delta, soid = so.lazy, src.off - dst.off, src.o
            lo, hi = dst.off, dst.off + n
            prev = d.lazy

            def lazy(ex, st2, oid, off, t, lz=lz, delta=delta, lo=lo, hi=hi, prev=prev, soid=soid):
                if lo <= off < hi:
                    return lz(ex, st2, soid, off + delta, t)
                return prev(ex, st2, oid, off, t) if prev else None
            d.lazy = lazy

    def simple(self, st, env, ins):
        op = ins.op
        A = ins.a
        if op == "alloca":
            n = 1
            if ins.x is not None:
                n = self.operand(st, env, ins.x[1], ins.x[0])
            if isz(n):
                raise Unsupported("symbolic alloca")
            env[ins.dst] = self.new_obj(st, self.stack[-1] + ":" + ins.dst, self.m.size(ins.ty) * n, "stack")
            return
        if op == "load":
            env[ins.dst] = self.load(st, ins.ty, self.operand(st, env, A[0]))
            return
        if op == "store":
            self.store(st, ins.ty, self.operand(st, env, A[0], ins.ty), self.operand(st, env, A[1]))
            return
        if op == "getelementptr":
            env[ins.dst] = self.gep(st, env, ins.ty, self.operand(st, env, A[0]), ins.x)
            return
        if op == "select":
            c = self.simp_bool(self.operand(st, env, A[0]))
            if c is True:
                env[ins.dst] = self.operand(st, env, A[1], ins.ty)
            elif c is False:
                env[ins.dst] = self.operand(st, env, A[2], ins.ty)
            else:
                env[ins.dst] = self.ite_w(c, self.operand(st, env, A[1], ins.ty), self.operand(st, env, A[2], ins.ty),
                                          ins.ty.w if ins.ty.k == "int" else None)
            return
        if op == "extractvalue":
            v = self.operand(st, env, A[0], ins.ty)
            env[ins.dst] = v.v[ins.x] if isinstance(v, Agg) else self.undef_val(self.m.resolve(ins.ty).el[ins.x])
            return
        if op == "insertvalue":
            v = self.operand(st, env, A[0], ins.ty)
            if not isinstance(v, Agg):
                v = Agg([Undef(e) for e in self.m.resolve(ins.ty).el])
            n = list(v.v)
            n[ins.x] = self.operand(st, env, A[1])
            env[ins.dst] = Agg(n)
            return
        if op in ("freeze", "bitcast"):
            env[ins.dst] = self.operand(st, env, A[0], ins.ty)
            return
        a = self.operand(st, env, A[0], ins.ty)
        b = self.operand(st, env, A[1], ins.ty) if len(A) > 1 else None
        if isinstance(a, Undef) and not (ins.ty is PTR or ins.ty.k == "ptr"):
            a = self.undef_val(self.m.resolve(ins.x if op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fpext", "fptrunc") else ins.ty))
        if isinstance(b, Undef) and ins.ty.k != "ptr":
            b = self.undef_val(self.m.resolve(ins.ty))
        env[ins.dst] = self.arith(st, op, ins, a, b)

    def arith(self, st, op, ins, a, b):
        ty = ins.ty
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "frem"):
            if op == "fadd":
                return self.radd(a, b)
            if op == "fsub":
                return self.rsub(a, b)
            if op == "fmul":
                return self.rmul(a, b)
            if op == "fdiv":
                return self.rdiv(a, b, st)
            if op == "fneg":
                return -a
            return self.uf("fmod", a, b)
        if op == "fcmp":
            return self.fcmp(ins.x, a, b)
        if op in ("fpext", "fptrunc"):
            return a
        if op in ("sitofp", "uitofp"):
            w = ins.x.w
            if isinstance(a, int):
                if op == "sitofp" and a >> (w - 1):
                    a -= 1 << w
                return Fraction(a)
            if z3.is_bool(a):
                return z3.If(a, z3.RealVal(1 if op == "uitofp" else -1), z3.RealVal(0))
            # If(c, k1, k2) of constants -> keep as a real ite
            r = self.bv_ite_real(a, op == "sitofp")
            if r is not None:
                return r
            return z3.ToReal(z3.BV2Int(a, op == "sitofp"))
        if op in ("fptosi", "fptoui"):
            w = ty.w
            if isinstance(a, Fraction):
                return int(a) & ((1 << w) - 1)
            q = z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
            return z3.Int2BV(q, w)
        if op in ("sext", "zext", "trunc"):
            w0, w1 = ins.x.w, ty.w
            if isinstance(a, (Ptr, Fn, Multi)):
                return a
            if isinstance(a, (bool, int)):
                a = int(a)
                if op == "sext" and a >> (w0 - 1):
                    a -= 1 << w0
                return a & ((1 << w1) - 1)
            if z3.is_bool(a):
                if op == "trunc":
                    return a
                one = z3.BitVecVal(1 if op == "zext" else -1, w1)
                return z3.If(a, one, z3.BitVecVal(0, w1))
            if w1 == 1:
                return z3.Extract(0, 0, a) == 1
            if op == "trunc":
                return z3.simplify(z3.Extract(w1 - 1, 0, a))
            return z3.simplify((z3.SignExt if op == "sext" else z3.ZeroExt)(w1 - w0, a))
        if op in ("ptrtoint", "inttoptr"):
            if op == "inttoptr" and isinstance(a, int):
                return Ptr(0, a)
            return a
        if op == "icmp":
            return self.icmp(st, ins.x, ty, a, b)
        # integer arithmetic
        w = ty.w
        if isinstance(a, (Ptr, Multi)) or isinstance(b, (Ptr, Multi)):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                r = a.off - b.off
                return z3.simplify(r) if isz(r) else r & ((1 << w) - 1)
            if op == "add":
                p, k = (a, b) if isinstance(a, (Ptr, Multi)) else (b, a)
                return self.padd(p, self.idx64(INT(64), k))
            raise Unsupported("pointer arithmetic " + op)
        if w == 1 and op in ("and", "or", "xor"):
            f = lambda x: x if isz(x) else z3.BoolVal(bool(x))
            if isinstance(a, int) and isinstance(b, int):
                return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
            r = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](f(a), f(b))
            r = z3.simplify(r)
            return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
        if isinstance(a, int) and isinstance(b, int):
            return self.intop(st, op, a, b, w)
        f = lambda x: x if isz(x) else z3.BitVecVal(x, w)
        za, zb = f(a), f(b)
        if op in ("sdiv", "udiv", "srem", "urem"):
            if isz(b):
                g = g_add(st.g, zb == 0)
                if g is not None:
                    self.events.append(Event("intdiv0", g, self.where(), "integer division by zero"))
        r = {
            "add": lambda: za + zb, "sub": lambda: za - zb, "mul": lambda: za * zb,
            "sdiv": lambda: za / zb, "udiv": lambda: z3.UDiv(za, zb),
            "srem": lambda: z3.SRem(za, zb), "urem": lambda: z3.URem(za, zb),
            "shl": lambda: za << zb, "lshr": lambda: z3.LShR(za, zb), "ashr": lambda: za >> zb,
            "and": lambda: za & zb, "or": lambda: za | zb, "xor": lambda: za ^ zb,
        }[op]()
        r = z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r

    def bv_ite_real(self, a, signed):
        if z3.is_bv_value(a):
            return z3.RealVal(a.as_signed_long() if signed else a.as_long())
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            x = self.bv_ite_real(a.arg(1), signed)
            y = self.bv_ite_real(a.arg(2), signed)
            if x is not None and y is not None:
                return z3.If(a.arg(0), x, y)
        return None

    def intop(self, st, op, a, b, w):
        M = (1 << w) - 1
        s = lambda x: x - (1 << w) if x >> (w - 1) else x
        if op in ("sdiv", "udiv", "srem", "urem") and b == 0:
            self.event("intdiv0", st, "integer division by zero")
            return 0
        if op == "add":
            r = a + b
        elif op == "sub":
            r = a - b
        elif op == "mul":
            r = a * b
        elif op == "udiv":
            r = a // b
        elif op == "urem":
            r = a % b
        elif op in ("sdiv", "srem"):
            x, y = s(a), s(b)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            r = q if op == "sdiv" else x - q * y
        elif op == "shl":
            r = a << b if b < w else 0
        elif op == "lshr":
            r = a >> b if b < w else 0
        elif op == "ashr":
            r = s(a) >> b
        elif op == "and":
            r = a & b
        elif op == "or":
            r = a | b
        else:
            r = a ^ b
        return r & M

    def icmp(self, st, pred, ty, a, b):
        if ty.k == "ptr" or isinstance(a, (Ptr, Fn, Multi)) or isinstance(b, (Ptr, Fn, Multi)):
            return self.pcmp(st, pred, a, b)
        w = ty.w
        if isinstance(a, int) and isinstance(b, int):
            s = lambda x: x - (1 << w) if x >> (w - 1) else x
            if pred[0] == "s":
                a, b = s(a), s(b)
            return int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[
                pred[1:] if pred[0] in "su" else pred])
        if w == 1:
            f = lambda x: x if isz(x) else z3.BoolVal(bool(x))
            r = f(a) == f(b)
            return r if pred == "eq" else z3.Not(r)
        f = lambda x: x if isz(x) else z3.BitVecVal(x, w)
        # ite of constants compared with constants: push in
        za, zb = f(a), f(b)
        r = {
            "eq": lambda: za == zb, "ne": lambda: za != zb,
            "ugt": lambda: z3.UGT(za, zb), "uge": lambda: z3.UGE(za, zb),
            "ult": lambda: z3.ULT(za, zb), "ule": lambda: z3.ULE(za, zb),
            "sgt": lambda: za > zb, "sge": lambda: za >= zb, "slt": lambda: za < zb, "sle": lambda: za <= zb,
        }[pred]()
        r = z3.simplify(r)
        return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r

    def pcmp(self, st, pred, a, b):
        if isinstance(a, int):
            a = Ptr(0, a)
        if isinstance(b, int):
            b = Ptr(0, b)
        if isinstance(a, Multi) or isinstance(b, Multi):
            aa = a.alts if isinstance(a, Multi) else [(None, a)]
            out = None
            for c, p in reversed(aa):
                v = self.pcmp(st, pred, p, b) if not isinstance(b, Multi) else self.pcmp(st, pred, b, p)
                v = v if isz(v) else z3.BoolVal(bool(v))
                out = v if out is None else (z3.If(c, v, out) if c is not None else v)
            return z3.simplify(out)
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.fresh_n += 1
            return z3.Bool("undefcmp!%d" % self.fresh_n)
        if pred in ("eq", "ne"):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and (isz(a.off) or isz(b.off)):
                r = (a.off == b.off)
                return r if pred == "eq" else z3.Not(r)
            r = same_ptr(a, b)
            return int(r if pred == "eq" else not r)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
            return self.icmp(st, pred, INT(64), a.off & (2**64 - 1) if not isz(a.off) else a.off,
                             b.off & (2**64 - 1) if not isz(b.off) else b.off)
        raise Unsupported("pointer order compare")

    def fcmp(self, pred, a, b):
        if pred == "ord":
            return 1
        if pred == "uno":
            return 0
        if pred == "true":
            return 1
        if pred == "false":
            return 0
        p = pred[1:]
        if not isz(a) and not isz(b):
            return int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p])
        # expose structure of ite-of-constants to the simplifier
        a, b = toz(a), toz(b)
        r = {"eq": lambda: a == b, "ne": lambda: a != b, "gt": lambda: a > b, "ge": lambda: a >= b,
             "lt": lambda: a < b, "le": lambda: a <= b}[p]()
        if self.norm_cmp:
            d = self.nf(a - b)
            if z3.is_rational_value(d):
                q = Fraction(d.numerator_as_long(), d.denominator_as_long())
                return int({"eq": q == 0, "ne": q != 0, "gt": q > 0, "ge": q >= 0, "lt": q < 0, "le": q <= 0}[p])
            s = self.sign_of(d)
            if s is not None:
                t = {">": dict(eq=0, ne=1, gt=1, ge=1, lt=0, le=0), "<": dict(eq=0, ne=1, gt=0, ge=0, lt=1, le=1),
                     "=": dict(eq=1, ne=0, gt=0, ge=1, lt=0, le=1), ">=": dict(lt=0, ge=1), "<=": dict(gt=0, le=1),
                     "!": dict(eq=0, ne=1)}[s].get(p)
                if t is not None:
                    return t
            z = z3.RealVal(0)
            r = {"eq": lambda: d == z, "ne": lambda: d != z, "gt": lambda: d > z, "ge": lambda: d >= z,
                 "lt": lambda: d < z, "le": lambda: d <= z}[p]()
        r = z3.simplify(r)
        return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r

    norm_cmp = True


# ------------------------------------------------------------ default stubs
def s_nop(ret=0):
    def f(ex, st, a):
        return ret, st
    return f


def s_malloc(ex, st, a):
    n = a[0]
    if isinstance(n, int):
        return ex.new_obj(st, "heap#%d(%s)" % (ex.nobj + 1, ex.where()), n), st
    return ex.new_obj(st, "heap#%d(%s)" % (ex.nobj + 1, ex.where()), n), st


def s_calloc(ex, st, a):
    if isz(a[0]) or isz(a[1]):
        raise Unsupported("symbolic calloc")
    return ex.new_obj(st, "heap#%d(%s)" % (ex.nobj + 1, ex.where()), a[0] * a[1], zero=True), st


def do_free(ex, st, p, what="free"):
    if isinstance(p, Multi):
        rest = None
        for c, q in p.alts:
            c2 = rest if c is None else (c if rest is None else z3.And(rest, c))
            if c is not None:
                rest = z3.Not(c) if rest is None else z3.And(rest, z3.Not(c))
            g = st.g if c2 is None else g_add(st.g, c2)
            if g is None:
                continue
            s2 = State(st.mem, g, st.log)
            s2.own = st.own
            free_one(ex, s2, q, c2)
        return
    free_one(ex, st, p, None)


def free_one(ex, st, p, cond):
    if isinstance(p, Undef):
        ex.event("badfree", st, "free of an undefined pointer")
        return
    if isinstance(p, Ptr) and p.o == 0:
        return
    if not isinstance(p, Ptr) or isz(p.off) or p.off != 0:
        ex.event("badfree", st, "free of an interior pointer")
        return
    o = st.mem[p.o]
    if o.kind not in ("heap", "lib"):
        ex.event("badfree", st, "free of non-heap " + o.name)
        return
    if o.freed is True:
        ex.event("doublefree", st, "double free of " + o.name)
    elif o.freed is not None:
        g = g_add(st.g, o.freed)
        if g is not None:
            ex.events.append(Event("doublefree", g, ex.where(), "double free of " + o.name))
    w = st.w(p.o)
    if cond is None:
        w.freed = True
    else:
        w.freed = cond if w.freed is None else True if w.freed is True else z3.Or(w.freed, cond)


def s_free(ex, st, a):
    do_free(ex, st, a[0])
    return None, st


def s_realloc(ex, st, a):
    p, n = a
    if isz(n) or isinstance(p, Multi):
        raise Unsupported("symbolic realloc")
    q = ex.new_obj(st, "heap#%d(%s)" % (ex.nobj + 1, ex.where()), n)
    if isinstance(p, Ptr) and p.o:
        k = min(n, st.mem[p.o].size)
        ex.copy(st, q, Ptr(p.o, 0), k)
        do_free(ex, st, p)
    return q, st


def s_exit(ex, st, a):
    ex.event("exit", st, "exit(%s)" % (a[0] if a else ""))
    return None, None


def s_memcpy(ex, st, a):
    if isz(a[2]):
        raise Unsupported("symbolic memcpy length")
    ex.copy(st, a[0], a[1], a[2])
    return a[0], st


def s_memset(ex, st, a):
    p, v, n = a[:3]
    if isz(n) or isz(p.off):
        raise Unsupported("symbolic memset")
    if n == 0:
        return p, st
    if ex.access(st, p, n, "write") is None:
        return p, st
    o = st.w(p.o)
    for k in [k for k in o.cells if p.off <= k < p.off + n]:
        del o.cells[k]
    if p.off == 0 and n == o.size and v == 0:
        o.zero = True
        o.lazy = None
        return p, st
    for k in range(n):
        o.cells[p.off + k] = (1, v & 255 if isinstance(v, int) else z3.Extract(7, 0, v))
    return p, st


def to_int(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return None


def s_pow(ex, st, a):
    x, y = a
    if isinstance(y, Fraction):
        n = to_int(y)
        if n is not None and abs(n) <= 64:
            if n >= 0:
                return ex.rpow(x, n), st
            if not isz(x):
                return x ** n, st
            i = ex.mkinv(x)
            return ex.rpow(i, -n), st
        if to_int(2 * y) is not None and abs(y) < 32:
            s = s_sqrt(ex, st, [x])[0]
            m = int(2 * y)
            if m > 0:
                return ex.rmul(ex.rpow(x, m // 2), s), st
    if isinstance(x, Fraction) and x == 1:
        return Fraction(1), st
    return ex.uf("pow", x, y), st


def s_sqrt(ex, st, a):
    x = a[0]
    if isz(x):
        n = ex.nf(x)
        if z3.is_rational_value(n):
            x = Fraction(n.numerator_as_long(), n.denominator_as_long())
    if isinstance(x, Fraction):
        if x >= 0:
            p, q = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if p * p == x.numerator and q * q == x.denominator:
                return Fraction(p, q), st
    c = ex.uf("sqrt", x)
    return c, st


def s_fabs(ex, st, a):
    x = a[0]
    if isinstance(x, Fraction):
        return abs(x), st
    n = ex.nf(x)
    sg = ex.sign_of(n)
    if sg in (">", ">="):
        return n, st
    if sg in ("<", "<="):
        return -n, st
    # canonical sign so that |x| and |-x| are the same atom
    k, sg = ex.monic(n)
    if sg < 0:
        n = ex.nf(-n)
    return z3.If(n >= 0, n, -n), st


def s_minmax(mx):
    def f(ex, st, a):
        x, y = a
        if not isz(x) and not isz(y):
            return (max if mx else min)(x, y), st
        d = ex.nf(toz(ex.rsub(x, y)))
        if z3.is_rational_value(d):
            c = (d.numerator_as_long() >= 0) == mx
            return (x if c else y), st
        sg = ex.sign_of(d)
        if sg in (">", ">=", "<", "<="):
            return (x if (sg[0] == ">") == mx else y), st
        c = d >= 0 if mx else d <= 0
        return z3.If(c, toz(x), toz(y)), st
    return f


def s_uf(name):
    def f(ex, st, a):
        return ex.uf(name, *[x for x in a]), st
    return f


def s_const1(ex, st, a):
    return 1, st


def legendre(ex, l, x):
    p0, p1 = Fraction(1), x
    if l == 0:
        return p0
    for n in range(1, l):
        p0, p1 = p1, ex.rdiv(ex.rsub(ex.rmul(Fraction(2 * n + 1), ex.rmul(x, p1)), ex.rmul(Fraction(n), p0)), Fraction(n + 1))
    return p1


def s_leg(l):
    def f(ex, st, a):
        return legendre(ex, l, a[0]), st
    return f


def sgn(v, w=32):
    return v - (1 << w) if v >> (w - 1) else v


def s_legl(ex, st, a):
    l = a[0]
    if isinstance(l, int):
        return legendre(ex, sgn(l), a[1]), st
    raise Unsupported("symbolic l in Legendre")


def s_fact(ex, st, a):
    return Fraction(math.factorial(a[0])), st


def s_choose(ex, st, a):
    return Fraction(math.comb(a[0], a[1])), st


def s_absi(ex, st, a):
    v = a[0]
    if isinstance(v, int):
        return abs(sgn(v)), st
    return z3.If(v < 0, -v, v), st


def s_strlen(ex, st, a):
    return len(read_cstr(ex, st, a[0])), st


def read_cstr(ex, st, p):
    o = st.mem[p.o]
    out = bytearray()
    off = p.off
    while True:
        b = ex.byte_at(st, o, off)
        if isz(b):
            raise Unsupported("symbolic string")
        if b == 0:
            return bytes(out)
        out.append(b)
        off += 1


def s_strcmp(ex, st, a):
    x, y = read_cstr(ex, st, a[0]), read_cstr(ex, st, a[1])
    return (0 if x == y else 1 if x > y else 0xFFFFFFFF), st


def s_va_start(ex, st, a):
    """x86-64 va_list with every variable argument in the overflow area"""
    xs = ex.varargs[-1]
    p = ex.new_obj(st, "variable arguments", 8 * len(xs), "stack")
    for k, x in enumerate(xs):
        st.w(p.o).cells[8 * k] = (8, x)
    o, b = st.w(a[0].o), a[0].off
    for off, n, v in ((0, 4, 48), (4, 4, 176), (8, 8, p), (16, 8, Undef(PTR))):
        o.cells[b + off] = (n, v)
    return None, st


def s_floorlike(name):
    def f(ex, st, a):
        x = a[0]
        if isinstance(x, Fraction):
            return Fraction(math.floor(x) if name == "floor" else math.ceil(x)), st
        return ex.uf(name, x), st
    return f


DEFAULT_STUBS = {
    "malloc": s_malloc, "coffe_malloc_": s_malloc, "calloc": s_calloc, "free": s_free, "realloc": s_realloc,
    "fftw_malloc": s_malloc, "fftw_free": s_free,
    "exit": s_exit, "abort": s_exit,
    "llvm.memcpy.p0.p0.i64": s_memcpy, "llvm.memmove.p0.p0.i64": s_memcpy, "memcpy": s_memcpy,
    "llvm.memset.p0.i64": s_memset, "memset": s_memset,
    "printf": s_nop(0), "fprintf": s_nop(0), "puts": s_nop(0), "putchar": s_nop(0), "fflush": s_nop(0),
    "clock": s_nop(0), "gsl_set_error_handler_off": s_nop(NULL), "gsl_set_error_handler": s_nop(NULL),
    "print_error": s_nop(None), "print_error_verbose": s_nop(None),
    "pow": s_pow, "sqrt": s_sqrt, "fabs": s_fabs, "fmax": s_minmax(True), "fmin": s_minmax(False),
    "llvm.maxnum.f64": s_minmax(True), "llvm.minnum.f64": s_minmax(False), "llvm.fabs.f64": s_fabs,
    "exp": s_uf("exp"), "log": s_uf("log"), "sin": s_uf("sin"), "cos": s_uf("cos"), "log10": s_uf("log10"),
    "tan": s_uf("tan"), "sinh": s_uf("sinh"), "cosh": s_uf("cosh"), "tanh": s_uf("tanh"),
    "gsl_finite": s_const1, "gsl_isnan": s_nop(0),
    "gsl_sf_legendre_P1": s_leg(1), "gsl_sf_legendre_P2": s_leg(2), "gsl_sf_legendre_P3": s_leg(3),
    "gsl_sf_legendre_Pl": s_legl, "gsl_sf_fact": s_fact, "gsl_sf_choose": s_choose,
    "llvm.abs.i32": s_absi, "abs": s_absi, "strlen": s_strlen, "strcmp": s_strcmp,
    "floor": s_floorlike("floor"), "ceil": s_floorlike("ceil"),
    "llvm.stacksave.p0": s_nop(NULL), "llvm.stackrestore.p0": s_nop(None),
    "llvm.lifetime.start.p0": s_nop(None), "llvm.lifetime.end.p0": s_nop(None),
    "llvm.assume": s_nop(None), "llvm.va_start": s_va_start, "llvm.va_end": s_nop(None),
    "llvm.va_start.p0": s_va_start, "llvm.va_end.p0": s_nop(None),
    "omp_get_max_threads": s_nop(1), "omp_get_num_threads": s_nop(1), "omp_get_thread_num": s_nop(0),
    "omp_get_wtime": s_nop(R0),
}
