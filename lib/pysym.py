"""Symbolic execution of the Python layer: the converted coffe.pyx (pyxconv) runs on proxy numbers; every branch on a
proxy asks Z3 which sides are possible and both are explored (re-execution with a decision prefix)."""
import builtins
import configparser
import importlib.util
import io
import os
import re
import types

import z3

import repo
from pyxconv import convert


class Unsupported(BaseException):
    """not an Exception: the checked code's own handlers never see it"""


class Infeasible(BaseException):
    pass


CUR = None


class Path:
    def __init__(self, prefix, chk=None):
        self.prefix, self.trace, self.pending = prefix, [], []
        self.pc = []
        self.s = z3.Solver()
        self.s.set("timeout", 10000)
        self.n = 0
        self.tokens = {}
        self.log = []
        self.vfs = {}
        self.queries = 0

    def fresh(self, name, sort="real"):
        self.n += 1
        n = "%s!%d" % (name, self.n)
        return z3.Int(n) if sort == "int" else z3.Bool(n) if sort == "bool" else z3.Real(n)

    def add(self, c):
        self.pc.append(c)
        self.s.add(c)

    def sat(self, c):
        self.queries += 1
        self.s.push()
        self.s.add(c)
        r = self.s.check()
        self.s.pop()
        return r != z3.unsat

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            t, f = self.sat(c), self.sat(z3.Not(c))
            if not t and not f:
                raise Infeasible()
            v = t
            if t and f:
                self.pending.append(self.trace + [False])
        self.trace.append(v)
        self.add(c if v else z3.Not(c))
        return v

    def value_of(self, term, limit=8):
        """a concrete value for an integer term (one path per feasible value)"""
        t = z3.simplify(term)
        if z3.is_int_value(t):
            return t.as_long()
        for _ in range(limit):
            self.queries += 1
            if self.s.check() != z3.sat:
                raise Infeasible()
            v = self.s.model().eval(term, model_completion=True).as_long()
            # deterministic choice: smallest feasible from below in the searched window
            lo = v
            for c in range(0, 5):
                if c < v and self.sat(term == c):
                    lo = c
                    break
            if self.branch(term == lo):
                return lo
        raise Unsupported("unbounded integer")


def explore(run, limit=400, setup=None):
    """run(path) -> result; yields (path, kind, result) for every feasible path"""
    global CUR
    todo = [[]]
    n = 0
    while todo:
        p = Path(todo.pop())
        CUR = p
        n += 1
        if n > limit:
            raise Unsupported("more than %d paths" % limit)
        try:
            try:
                r = run(p)
                kind = "return"
            except Infeasible:
                todo += p.pending
                continue
            except Unsupported as e:
                if not str(e).startswith("FAULT"):
                    raise
                r, kind = e, "fault"
            except Exception as e:      # noqa - the checked code raised
                r, kind = e, "raise"
            todo += p.pending
            yield p, kind, r
        finally:
            if CUR is p:
                CUR = None


# ------------------------------------------------------------------ proxies
def rv(x):
    """python number -> exact z3 real (decimal value of its repr)"""
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    return z3.RealVal(repr(x)) if isinstance(x, float) else z3.RealVal(x)


def term(x, real=False):
    if isinstance(x, SymNum):
        return z3.ToReal(x.t) if real and x.kind == "int" else x.t
    if isinstance(x, SymBool):
        t = z3.If(x.t, 1, 0)
        return z3.ToReal(t) if real else t
    if isinstance(x, builtins.bool):
        x = builtins.int(x)
    if isinstance(x, builtins.int):
        return z3.RealVal(x) if real else z3.IntVal(x)
    if isinstance(x, builtins.float):
        if x != x or x in (builtins.float("inf"), -builtins.float("inf")):
            raise Unsupported("non-finite number")
        return rv(x)
    raise TypeError("must be real number, not %s" % type(x).__name__)


def isnum(x):
    return isinstance(x, (SymNum, SymBool, builtins.int, builtins.float))


class SymBool:
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CUR.branch(self.t)

    def _n(self):
        return SymNum(z3.If(self.t, 1, 0), "int")

    def __eq__(self, o):
        return self._n() == o

    def __ne__(self, o):
        return self._n() != o

    def __hash__(self):
        return hash(builtins.bool(self))

    def __and__(self, o):
        return SymBool(z3.And(self.t, o.t if isinstance(o, SymBool) else z3.BoolVal(builtins.bool(o))))

    def __or__(self, o):
        return SymBool(z3.Or(self.t, o.t if isinstance(o, SymBool) else z3.BoolVal(builtins.bool(o))))

    __rand__, __ror__ = __and__, __or__

    def __repr__(self):
        return str(builtins.bool(self))

    def __format__(self, spec):
        return repr(self)

    def __index__(self):
        return builtins.int(builtins.bool(self))

    def __int__(self):
        return builtins.int(builtins.bool(self))


def _bin(name, real, f):
    def op(self, o):
        if not isnum(o):
            return NotImplemented
        k = "float" if real or self.kind == "float" or isinstance(o, builtins.float) or (isinstance(o, SymNum) and o.kind == "float") else "int"
        a, b = term(self, k == "float"), term(o, k == "float")
        return SymNum(f(a, b), k)

    def rop(self, o):
        if not isnum(o):
            return NotImplemented
        k = "float" if real or self.kind == "float" or isinstance(o, builtins.float) or (isinstance(o, SymNum) and o.kind == "float") else "int"
        a, b = term(o, k == "float"), term(self, k == "float")
        return SymNum(f(a, b), k)
    return op, rop


def _cmp(f):
    def op(self, o):
        if not isnum(o):
            return NotImplemented
        real = self.kind == "float" or isinstance(o, builtins.float) or (isinstance(o, SymNum) and o.kind == "float")
        return SymBool(f(term(self, real), term(o, real)))
    return op


class SymNum:
    def __init__(self, t, kind):
        self.t, self.kind = t, kind
        if kind == "int":
            # an explicit call keeps the value symbolic; operator.index still uses the method of the class
            self.__dict__["__index__"] = lambda: self

    __add__, __radd__ = _bin("+", False, lambda a, b: a + b)
    __sub__, __rsub__ = _bin("-", False, lambda a, b: a - b)
    __mul__, __rmul__ = _bin("*", False, lambda a, b: a * b)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def _div(self, a, b):
        if CUR.branch(b == 0):
            raise ZeroDivisionError("float division")
        return SymNum(a / b, "float")

    def __truediv__(self, o):
        return self._div(term(self, True), term(o, True)) if isnum(o) else NotImplemented

    def __rtruediv__(self, o):
        return self._div(term(o, True), term(self, True)) if isnum(o) else NotImplemented

    def __eq__(self, o):
        if not isnum(o):
            return False
        return _cmp(lambda a, b: a == b)(self, o)

    def __ne__(self, o):
        if not isnum(o):
            return True
        return _cmp(lambda a, b: a != b)(self, o)

    def __neg__(self):
        return SymNum(-self.t, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.t >= 0, self.t, -self.t), self.kind)

    def __pow__(self, n):
        if not isinstance(n, builtins.int) or not -6 <= n <= 8:
            raise Unsupported("power")
        r = SymNum(z3.RealVal(1) if self.kind == "float" else z3.IntVal(1), self.kind)
        for _ in range(abs(n)):
            r = r * self
        return 1 / r if n < 0 else r

    def __bool__(self):
        return CUR.branch(self.t != 0)

    def __index__(self):
        if self.kind != "int":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CUR.value_of(self.t)

    def __hash__(self):
        # the tables of the module are keyed by small integers: one path per such value, one for all others
        for c in range(10):
            if CUR.branch(self.t == c):
                return hash(c)
        return 0x5eed0000 + id(self) % 65536 * 16

    def __repr__(self):
        k = len(CUR.tokens)
        CUR.tokens[k] = self
        return "\u00a7%d\u00a7" % k

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def is_integer(self):
        return SymBool(z3.IsInt(term(self, True)))

    def __trunc__(self):
        return toint(self)


TOK = re.compile("^\\s*\u00a7(\\d+)\u00a7\\s*$")


def tofloat(x=0.0):
    if isinstance(x, SymNum):
        return SymNum(term(x, True), "float")
    if isinstance(x, SymBool):
        return SymNum(term(x, True), "float")
    if isinstance(x, str):
        m = TOK.match(x)
        if m:
            return tofloat(CUR.tokens[builtins.int(m.group(1))])
    return builtins.float(x)


def toint(x=0, *a):
    if isinstance(x, SymNum):
        if x.kind == "int":
            return x
        t = z3.ToInt(x.t)
        return SymNum(z3.If(z3.And(x.t < 0, z3.ToReal(t) != x.t), t + 1, t), "int")
    if isinstance(x, SymBool):
        return SymNum(term(x), "int")
    if isinstance(x, str):
        m = TOK.match(x)
        if m:
            v = CUR.tokens[builtins.int(m.group(1))]
            if v.kind != "int":
                raise ValueError("invalid literal for int() with base 10: '0.5'")
            return v
    return builtins.int(x, *a)


def tobool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return SymBool(x.t != 0)
    return builtins.bool(x)


class _M(type):
    def __instancecheck__(cls, x):
        return isinst(x, cls)

    def __call__(cls, *a):
        return cls.conv(*a)

    def __eq__(cls, o):
        return cls is o or o is cls.real

    def __hash__(cls):
        return hash(cls.real)

    def __repr__(cls):
        return "<class '%s'>" % cls.real.__name__


class PFloat(metaclass=_M):
    conv, real = staticmethod(tofloat), builtins.float


class PInt(metaclass=_M):
    conv, real = staticmethod(toint), builtins.int


class PBool(metaclass=_M):
    conv, real = staticmethod(tobool), builtins.bool


def isinst(x, kinds):
    if isinstance(kinds, (tuple, list)):
        return any(isinst(x, k) for k in kinds)
    if kinds in (PFloat, builtins.float):
        return isinstance(x, builtins.float) or (isinstance(x, SymNum) and x.kind == "float")
    if kinds in (PInt, builtins.int):
        return isinstance(x, (builtins.int, SymBool)) or (isinstance(x, SymNum) and x.kind == "int")
    if kinds in (PBool, builtins.bool):
        return isinstance(x, (builtins.bool, SymBool))
    return builtins.isinstance(x, kinds)


def ptype(x):
    if isinstance(x, SymNum):
        return PInt if x.kind == "int" else PFloat
    if isinstance(x, SymBool):
        return PBool
    return builtins.type(x)


def prange(*a):
    return builtins.range(*[CUR.value_of(x.t) if isinstance(x, SymNum) else x for x in a])


def plen(x):
    return builtins.len(x)


# -------------------------------------------------------------------- numpy
class NDArr(list):
    def tolist(self):
        return list(self)

    def _map(self, o, f):
        return NDArr([f(a, b) for a, b in zip(self, o)] if isinstance(o, (list, tuple)) else [f(a, o) for a in self])

    def __mul__(self, o):
        return self._map(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._map(o, lambda a, b: a / b)

    def __add__(self, o):
        return self._map(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._map(o, lambda a, b: a - b)

    @property
    def size(self):
        return len(self)

    def __str__(self):
        return "[" + " ".join(str(a) for a in self) + "]"

    def __format__(self, spec):
        return str(self)

    def __hash__(self):
        return id(self)


class FakeNP:
    ndarray = NDArr
    float64 = PFloat

    @staticmethod
    def _close(a, b, rtol=1e-5, atol=1e-8):
        d = abs(a - b)
        r = d <= atol + rtol * abs(b)
        return r if isinstance(r, SymBool) else SymBool(z3.BoolVal(bool(r)))

    def allclose(self, a, b, rtol=1e-5, atol=1e-8):
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            la = a if isinstance(a, (list, tuple)) else [a] * len(b)
            lb = b if isinstance(b, (list, tuple)) else [b] * len(a)
            if len(la) != len(lb):
                raise ValueError("operands could not be broadcast together")
            r = SymBool(z3.BoolVal(True))
            for x, y in zip(la, lb):
                if not isnum(x) or not isnum(y):
                    raise TypeError("ufunc 'isfinite' not supported for the input types")
                r = r & self._close(x, y, rtol, atol)
            return r
        if not isnum(a) or not isnum(b):
            raise TypeError("ufunc 'isfinite' not supported for the input types")
        return self._close(a, b, rtol, atol)

    isclose = allclose

    def array(self, x, dtype=None):
        return NDArr(x)

    asarray = array

    def sort(self, x):
        out = list(x)
        for v in out:
            if not isnum(v):
                raise TypeError("'<' not supported")
        if not any(isinstance(v, SymNum) for v in out):
            return NDArr(sorted(out))
        # compare-exchange network
        n = len(out)
        for i in range(n):
            for j in range(n - 1 - i):
                a, b = out[j], out[j + 1]
                k = "float" if any(isinstance(v, builtins.float) or (isinstance(v, SymNum) and v.kind == "float") for v in (a, b)) else "int"
                s, t = term(a, k == "float"), term(b, k == "float")
                out[j] = SymNum(z3.If(s <= t, s, t), k)
                out[j + 1] = SymNum(z3.If(s <= t, t, s), k)
        return NDArr(out)

    def diff(self, x):
        return NDArr([b - a for a, b in zip(x, list(x)[1:])])

    def all(self, x):
        return all(x)

    def any(self, x):
        return any(x)

    def sum(self, x):
        r = 0
        for v in x:
            r = r + v
        return r

    def linspace(self, a, b, n=50):
        n = CUR.value_of(n.t) if isinstance(n, SymNum) else n
        if n == 1:
            return NDArr([a])
        return NDArr([a + (b - a) * i / (n - 1) if 0 < i < n - 1 else (a if i == 0 else b) for i in range(n)])

    def isfinite(self, x):
        if isinstance(x, (list, tuple)):
            return NDArr([True for _ in x])
        return True

    def shape(self, x):
        return (len(x),)

    def ravel(self, x):
        return NDArr(x)

    def transpose(self, x):
        return NDArr([NDArr(r) for r in zip(*x)])

    def __getattr__(self, n):
        raise Unsupported("numpy." + n)


# ---------------------------------------------------------------- C objects
class Null:
    def __bool__(self):
        return False

    def __eq__(self, o):
        return isinstance(o, Null)

    def __hash__(self):
        return 0

    def __repr__(self):
        return "NULL"


NULL = Null()
HEAP = 0


class Fault(Exception):
    """memory error of the C level code in the extension module"""


class Buf:
    """malloc'ed block of n doubles or ints"""

    def __init__(self, nbytes, esize=None, data=None):
        global HEAP
        HEAP += 1
        self.id = HEAP
        self.nbytes, self.esize, self.freed = nbytes, esize, False
        self.data = data if data is not None else {}
        self.ctype = None

    def _chk(self, i):
        if self.freed:
            raise Unsupported("FAULT use after free")
        i = CUR.value_of(i.t) if isinstance(i, SymNum) else i
        if self.esize and isinstance(self.nbytes, int) and not 0 <= i * self.esize < self.nbytes:
            raise Unsupported("FAULT index %s outside a block of %s bytes" % (i, self.nbytes))
        return i

    def __getitem__(self, i):
        i = self._chk(i)
        if i not in self.data:
            raise Unsupported("FAULT read of uninitialised element %s" % i)
        return self.data[i]

    def __setitem__(self, i, v):
        i = self._chk(i)
        self.data[i] = conv(self.ctype or "double", v)

    def __bool__(self):
        return True

    def __len__(self):
        return len(self.data)


SIZES = {"double": 8, "int": 4, "size_t": 8, "long": 8, "char": 1, "float": 4}


def cast(t, x):
    if isinstance(x, Buf) and t.endswith("*"):
        x.ctype = t[:-1]
        x.esize = SIZES.get(x.ctype, 8)
        return x
    if t.endswith("*"):
        return x
    return conv(t, x)


def conv(t, x):
    if t in ("double", "float"):
        return tofloat(x) if isnum(x) else (_ for _ in ()).throw(TypeError("must be real number, not %s" % type(x).__name__))
    if t in ("int", "long", "size_t", "unsigned int", "enum", "long long"):
        if not isnum(x):
            raise TypeError("an integer is required")
        v = toint(x)
        lo, hi = (0, 2**64 - 1) if t in ("size_t", "unsigned long") else (-2**31, 2**31 - 1) if t in ("int", "enum") else (-2**63, 2**63 - 1)
        if isinstance(v, SymNum):
            if not CUR.branch(z3.And(v.t >= lo, v.t <= hi)):
                raise OverflowError("value too large to convert to %s" % t)
        elif not lo <= v <= hi:
            raise OverflowError("value too large to convert to %s" % t)
        return v
    if t == "bint":
        return tobool(x)
    return x


class Spline:
    """a gsl_spline: identity plus (when known) its nodes"""

    def __init__(self, name, x=None, y=None, size=None):
        self.name, self.xs, self.ys = name, x, y
        self.nodes = size if size is not None else (len(x) if x is not None else None)
        self.f = z3.Function("spline_" + name, z3.RealSort(), z3.RealSort())

    @property
    def size(self):
        return self.nodes

    @property
    def x(self):
        return Buf(8 * len(self.xs), 8, dict(enumerate(self.xs)))

    @property
    def y(self):
        return Buf(8 * len(self.ys), 8, dict(enumerate(self.ys)))

    def __call__(self, x):
        """value at x; at a node the node's value"""
        t = term(x, True)
        for a, b in zip(self.xs or (), self.ys or ()):
            if term(a, True).eq(t):
                return tofloat(b)
        return SymNum(self.f(t), "float")


class CStruct:
    def __init__(self, lay, sname, name):
        d = self.__dict__
        d["_lay"], d["_sname"], d["_name"] = lay, sname, name
        d["_f"] = {}
        d["_k"] = {}
        d["_owner"] = None
        for n, o, kind, sub in lay.structs[sname]:
            if kind == "struct" and sub and not sub.startswith("coffe_interpolation"):
                d["_f"][n] = CStruct(lay, sub, name + "." + n)
                d["_k"][n] = "struct"
            elif kind == "struct":
                d["_f"][n] = Interp(n)
                d["_f"][n].parent = self
                d["_k"][n] = "interp"
            else:
                d["_k"][n] = {"unsigned long": "size_t"}.get(kind, kind)

    def __getattr__(self, n):
        if n in self._f:
            return self._f[n]
        if n in self._k:
            raise Unsupported("read of unset C field %s.%s" % (self._name, n))
        raise Unsupported("no C field %s in %s" % (n, self._sname))

    def __setattr__(self, n, v):
        k = self._k.get(n)
        if k is None:
            raise Unsupported("no C field %s in %s" % (n, self._sname))
        self._f[n] = v if k in ("ptr", "struct", "interp", "array") else conv(k, v)

    def leaves(self, pre=""):
        for n, k in self._k.items():
            if k == "struct":
                yield from self._f[n].leaves(pre + n + ".")
            else:
                yield pre + n, k, self._f.get(n)

    def put(self, path, v):
        o = self
        ps = path.split(".")
        for p in ps[:-1]:
            o = o._f[p]
        o._f[ps[-1]] = v

    def get(self, path):
        o = self
        for p in path.split("."):
            o = o._f[p]
        return o


class Interp:
    def __init__(self, name):
        self.name = name
        self.spline = NULL
        self.accel = NULL
        self.xaccel = self.yaccel = NULL


class Ref:
    def __init__(self, obj, key):
        self.obj, self.key = obj, key

    def get(self):
        return getattr(self.obj, self.key) if isinstance(self.key, str) else self.obj[self.key]

    def set(self, v):
        if isinstance(self.key, str):
            setattr(self.obj, self.key, v)
        else:
            self.obj[self.key] = v


def addr(obj, key):
    if key is None:
        raise Unsupported("address of a local")
    v = getattr(obj, key) if isinstance(key, str) else obj[key]
    return v if isinstance(v, (CStruct, Interp)) else Ref(obj, key)


class CBase:
    __cattrs__ = ()

    def __new__(cls, *a, **k):
        self = object.__new__(cls)
        w = cls.__world__
        for n, t in cls.__cattrs__:
            s = t.split(".")[-1]
            if s in w.lay.structs:
                object.__setattr__(self, n, CStruct(w.lay, s, n))
                getattr(self, n).__dict__["_owner"] = self
            elif t in ("int", "size_t", "double"):
                object.__setattr__(self, n, 0)
            else:
                raise Unsupported("attribute of type " + t)
        self.__cinit__(*a, **k)
        return self

    def __init__(self, *a, **k):
        pass

    def __setattr__(self, n, v):
        # an extension type has no instance dictionary
        c = getattr(type(self), n, None)
        if isinstance(c, property):
            if c.fset is None:
                raise AttributeError("attribute '%s' of 'coffe.Coffe' objects is not writable" % n)
            return c.fset(self, v)
        t = dict(type(self).__cattrs__).get(n)
        if t is None:
            raise AttributeError("'coffe.Coffe' object has no attribute '%s'" % n)
        object.__setattr__(self, n, conv(t, v))


class VFile(io.StringIO):
    def __init__(self, fs, name, text=""):
        super().__init__(text)
        self.fs, self.nm = fs, name

    def close(self):
        if not self.closed:
            self.fs[self.nm] = self.getvalue()
        super().close()


def vopen(name, mode="r", *a, **k):
    if "w" in mode:
        return VFile(CUR.vfs, str(name))
    if str(name) not in CUR.vfs:
        raise FileNotFoundError(name)
    return io.StringIO(CUR.vfs[str(name)])


class VPath:
    def __init__(self, n):
        self.n = str(n)

    def read_text(self, *a, **k):
        if self.n not in CUR.vfs:
            raise FileNotFoundError(self.n)
        return CUR.vfs[self.n]

    def write_text(self, t, *a, **k):
        CUR.vfs[self.n] = t

    def __str__(self):
        return self.n


class VConfigParser(configparser.ConfigParser):
    def getfloat(self, section, option, **kw):
        return self._get_conv(section, option, tofloat, **kw)

    def getint(self, section, option, **kw):
        return self._get_conv(section, option, toint, **kw)


class World:
    """the converted module with its stand-ins; `c` = object giving the model of every C function"""

    def __init__(self, lay, cfun):
        self.lay, self.cfun = lay, cfun
        self.src = convert(os.path.join(repo.REPO, "python", "coffe", "coffe.pyx"))
        self.code = compile(self.src, "coffe.pyx", "exec")
        rp = os.path.join(repo.REPO, "python", "coffe", "representation.py")
        self.rep = compile(open(rp).read(), rp, "exec")
        self.mod = None

    def cimport(self, mod, name):
        if mod.startswith("libc"):
            return {"malloc": self.cfun.malloc, "free": self.cfun.free}[name]
        if name == "dereference":
            return lambda p: p.get() if isinstance(p, Ref) else p
        if mod.startswith("coffe"):
            return self.cfun
        raise Unsupported("cimport %s" % mod)

    def imp(self, name, g=None, l=None, fromlist=(), level=0):
        if name.endswith("representation"):
            return self.representation()
        if name == "numpy":
            return FakeNP()
        if name == "configparser":
            m = types.ModuleType("configparser")
            m.ConfigParser = VConfigParser
            return m
        if name == "pathlib":
            m = types.ModuleType("pathlib")
            m.Path = VPath
            return m
        if name == "os":
            m = types.ModuleType("os")
            m.environ = {}
            m.path = os.path
            return m
        if name == "warnings":
            m = types.ModuleType("warnings")
            m.warn = lambda *a, **k: None
            return m
        if name in ("sys", "typing", "ctypes", "abc", "collections", "functools", "itertools", "math", "contextlib", "enum", "dataclasses", "re"):
            return builtins.__import__(name, g, l, fromlist, level)
        raise Unsupported("import " + name)

    def builtins(self):
        b = dict(vars(builtins))
        b.update(float=PFloat, int=PInt, bool=PBool, isinstance=isinst, type=ptype3, range=prange, open=vopen, __import__=self.imp, round=builtins.round)
        return b

    def representation(self):
        m = types.ModuleType("coffe.representation")
        m.__dict__["__builtins__"] = dict(vars(builtins))
        exec(self.rep, m.__dict__)
        return m

    def load(self):
        """a fresh copy of the module for one path"""
        g = {"__builtins__": self.builtins(), "__name__": "coffe", "NULL": NULL, "_Kconv": conv, "_Kcast": cast, "_Kaddr": addr,
             "_Ksizeof": lambda t: SIZES.get(t, 8), "_Kundef": lambda t: NULL if t.endswith("*") else 0,
             "_Kset": set, "_Kjoin": lambda xs: "".join(xs), "_Kfmt": fmt, "_Kcimport": self.cimport,
             "_Kret": lambda t: (lambda f: f), "_KCBase": type("CB", (CBase,), {"__world__": self})}
        exec(self.code, g)
        return g


def ptype3(*a):
    return ptype(a[0]) if len(a) == 1 else builtins.type(*a)


def fmt(v, spec, conv_):
    if isinstance(v, (SymNum,)):
        return str(v)
    if conv_ == "r":
        v = repr(v)
    return format(v, spec) if not spec or not isinstance(v, (list, NDArr)) else str(v)
