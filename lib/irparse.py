"""Parser for the textual LLVM IR (clang 18) that the checks regenerate from
/repo's current sources on every run.  Only what clang emits for C is handled;
anything else raises, so that an unencodable construct is never silently
skipped."""
import re
import struct as _struct
from fractions import Fraction


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class T:
    __slots__ = ("k", "w", "n", "el", "name", "sa", "fo")

    def __init__(self, k, w=0, n=0, el=None, name=None):
        self.k, self.w, self.n, self.el, self.name = k, w, n, el, name
        self.sa = self.fo = None

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.w
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.el)
        if self.k == "named":
            return self.name
        if self.k == "struct":
            return "{%s}" % ", ".join(map(repr, self.el))
        return self.k


VOID = T("void")
PTR = T("ptr", 64)
DOUBLE = T("double", 64)
FLOAT = T("float", 32)
FP80 = T("x86_fp80", 80)
_INT = {}


def INT(w):
    if w not in _INT:
        _INT[w] = T("int", w)
    return _INT[w]


_tok = re.compile(
    r"""\s*(?:
      (?P<str>c?"(?:[^"])*")
     |(?P<id>[%@]"[^"]*"|[%@][-a-zA-Z$._0-9]+)
     |(?P<num>-?\d+\.\d+(?:e[-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
     |(?P<word>[a-zA-Z_][a-zA-Z_0-9.]*)
     |(?P<meta>!\w*|\#\d+)
     |(?P<dots>\.\.\.)
     |(?P<p>[()\[\]{}<>,=*:|])
    )""",
    re.X,
)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = _tok.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise IRError("tok: " + s[i:i + 60])
        out.append(m.group(m.lastgroup))
        i = m.end()
        r = s[i:].lstrip()
        if r.startswith(";"):
            break
    return out


ATTRS = set(
    """noundef nonnull signext zeroext inreg noalias nocapture readonly readnone
writeonly returned immarg nofree nosync dead_on_unwind writable dso_local internal
private unnamed_addr local_unnamed_addr external constant global linkonce_odr
common weak hidden allocptr allocsize mustprogress nest swiftself captures
tail notail musttail fast nnan ninf nsz arcp contract afn reassoc nuw nsw exact
inbounds volatile samesign disjoint nneg dso_preemptable""".split()
)


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def acc(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise IRError("expected %r got %r in %r" % (v, self.peek(), self.t))

    def skip_attrs(self):
        info = {}
        while True:
            p = self.peek()
            if p in ("byval", "sret", "inalloca", "byref", "elementtype"):
                self.next()
                self.exp("(")
                info[p] = self.type()
                self.exp(")")
            elif p in ("align", "addrspace"):
                self.next()
                if self.acc("("):
                    self.next()
                    self.exp(")")
                else:
                    self.next()
            elif p in ("dereferenceable", "dereferenceable_or_null", "range", "memory",
                       "allockind", "nofpclass", "captures", "initializes"):
                self.next()
                self.exp("(")
                d = 1
                while d:
                    x = self.next()
                    d += x == "("
                    d -= x == ")"
            elif p in ATTRS:
                self.next()
            elif p is not None and p.startswith("#"):
                self.next()
            else:
                return info

    def type(self):
        t = self.next()
        if t == "void":
            r = VOID
        elif t == "ptr":
            r = PTR
        elif t == "double":
            r = DOUBLE
        elif t == "float":
            r = FLOAT
        elif t == "x86_fp80":
            r = FP80
        elif t in ("label", "metadata"):
            r = T(t)
        elif re.fullmatch(r"i\d+", t):
            r = INT(int(t[1:]))
        elif t == "[":
            n = int(self.next())
            self.exp("x")
            el = self.type()
            self.exp("]")
            r = T("arr", 0, n, el)
        elif t == "{":
            el = []
            if not self.acc("}"):
                while True:
                    el.append(self.type())
                    if self.acc("}"):
                        break
                    self.exp(",")
            r = T("struct", el=el)
        elif t == "<":
            raise IRError("vector/packed type")
        elif t.startswith("%"):
            r = T("named", name=t)
        elif t == "opaque":
            r = T("opaque")
        else:
            raise IRError("type " + t + " in " + " ".join(map(str, self.t)))
        # function type: ret (args)
        if self.peek() == "(" and r.k != "metadata":
            # only treated as a function type by call parsing
            pass
        return r

    def value(self, ty):
        """returns an operand: ('c', pyval) | ('r', '%name') | ('g', '@name') | ..."""
        t = self.next()
        if t.startswith("%"):
            return ("r", t)
        if t.startswith("@"):
            return ("g", t)
        if t == "null":
            return ("null",)
        if t in ("undef", "poison"):
            return ("undef", ty)
        if t == "true":
            return ("c", 1)
        if t == "false":
            return ("c", 0)
        if t == "zeroinitializer":
            return ("zero", ty)
        if ty.k in ("double", "float"):
            return ("f", fpconst(t))
        if ty.k == "x86_fp80":
            return ("f", fp80(t))
        if ty.k == "int" and re.fullmatch(r"-?\d+", t):
            return ("c", int(t) & ((1 << ty.w) - 1))
        if t == "getelementptr":
            self.skip_attrs()
            self.exp("(")
            sty = self.type()
            self.exp(",")
            self.type()
            base = self.value(PTR)
            idx = []
            while self.acc(","):
                self.skip_attrs()
                ity = self.type()
                idx.append((ity, self.value(ity)))
            self.exp(")")
            return ("gep", sty, base, idx)
        if t in ("inttoptr", "ptrtoint", "bitcast"):
            self.exp("(")
            ty1 = self.type()
            v = self.value(ty1)
            self.exp("to")
            self.type()
            self.exp(")")
            return ("cast", t, v)
        if t.startswith('c"'):
            return ("bytes", cstr(t))
        if t == "[":
            out = []
            if not self.acc("]"):
                while True:
                    et = self.type()
                    out.append((et, self.value(et)))
                    if self.acc("]"):
                        break
                    self.exp(",")
            return ("agg", out)
        if t == "{":
            out = []
            while True:
                et = self.type()
                out.append((et, self.value(et)))
                if self.acc("}"):
                    break
                self.exp(",")
            return ("agg", out)
        raise IRError("value %r in %r" % (t, self.t))

    def tv(self):
        ty = self.type()
        self.skip_attrs()
        return ty, self.value(ty)


def cstr(t):
    s = t[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def fpconst(t):
    if t.startswith("0x"):
        d = _struct.unpack(">d", bytes.fromhex(t[2:].rjust(16, "0")))[0]
    else:
        d = float(t)
    return d


def fp80(t):
    b = int(t[3:], 16)
    sign = -1 if (b >> 79) & 1 else 1
    e = (b >> 64) & 0x7FFF
    m = b & ((1 << 64) - 1)
    if m == 0:
        return 0.0
    return float(sign * Fraction(m) * Fraction(2) ** (e - 16383 - 63))


class Instr:
    __slots__ = ("op", "dst", "ty", "a", "x", "line")

    def __init__(self, op, dst=None, ty=None, a=(), x=None, line=0):
        self.op, self.dst, self.ty, self.a, self.x, self.line = op, dst, ty, a, x, line


class Func:
    def __init__(self, name, ret, params, variadic):
        self.name, self.ret, self.params, self.variadic = name, ret, params, variadic
        self.blocks = {}
        self.order = []

    def finish(self):
        succ = {}
        for b in self.order:
            term = self.blocks[b][-1]
            if term.op == "br":
                succ[b] = [term.x] if isinstance(term.x, str) else list(term.x)
            elif term.op == "switch":
                succ[b] = [term.x[0]] + [l for _, l in term.x[1]]
            else:
                succ[b] = []
        self.succ = succ
        # RPO
        seen, post = set(), []
        stack = [(self.order[0], iter(succ[self.order[0]]))]
        seen.add(self.order[0])
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = list(reversed(post))
        self.rpo = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                preds[s].append(b)
        # dominators
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.rpo[x] > self.rpo[y]:
                                    x = idom[x]
                                while self.rpo[y] > self.rpo[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == rpo[0]:
                    return False
                b = idom[b]

        self.loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
                elif self.rpo[s] <= self.rpo[b]:
                    raise IRError("irreducible control flow in " + self.name)
        self.depth = {b: sum(b in body for body in self.loops.values()) for b in rpo}


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}

    # ------------------------------------------------ layout
    def resolve(self, t):
        while t.k == "named":
            t = self.types[t.name]
        return t

    def size_align(self, t):
        r = t.sa
        if r is None:
            r = self.size_align_(t)
            t.sa = r
        return r

    def size_align_(self, t):
        t = self.resolve(t)
        if t.k == "int":
            b = max(1, (t.w + 7) // 8)
            p = 1
            while p < b:
                p *= 2
            return p, min(p, 16)
        if t.k == "double":
            return 8, 8
        if t.k == "float":
            return 4, 4
        if t.k == "ptr":
            return 8, 8
        if t.k == "x86_fp80":
            return 16, 16
        if t.k == "arr":
            s, a = self.size_align(t.el)
            return s * t.n, a
        if t.k == "struct":
            off, al = 0, 1
            for e in t.el:
                s, a = self.size_align(e)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise IRError("size of %r" % t)

    def size(self, t):
        return self.size_align(t)[0]

    def field_off(self, t, i):
        t = self.resolve(t)
        fo = t.fo
        if fo is None:
            off, fo = 0, []
            for j, e in enumerate(t.el):
                s, a = self.size_align(e)
                off = (off + a - 1) // a * a
                fo.append(off)
                off += s
            t.fo = fo
        return fo[i]

    # ------------------------------------------------ parse
    def parse(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                name, rest = l.split(" = type ", 1)
                p = P(tokenize(rest), self)
                if p.peek() == "opaque":
                    self.types.setdefault(name.strip(), T("opaque"))
                else:
                    self.types[name.strip()] = p.type()
            elif l.startswith("@"):
                self._global(l)
            elif l.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self._func(lines, i, j)
                i = j
            elif l.startswith("declare"):
                m = re.search(r"@([-\w.$]+)\(", l)
                if m:
                    self.decls.setdefault(m.group(1), l)
            i += 1
        return self

    def _global(self, l):
        name, rest = l.split(" = ", 1)
        rest = re.sub(r",\s*(align \d+|comdat|section \"[^\"]*\"|!dbg !\d+)", "", rest)
        p = P(tokenize(rest), self)
        ext = False
        const = False
        while p.peek() in ATTRS or p.peek() in ("external", "extern_weak", "thread_local", "appending"):
            w = p.next()
            if w in ("external", "extern_weak"):
                ext = True
            if w == "constant":
                const = True
        try:
            ty = p.type()
        except IRError:
            return
        init = None
        if not ext and p.peek() is not None and p.peek() != ",":
            try:
                init = p.value(ty)
            except (IRError, IndexError):
                init = ("undef", ty)
        self.globals[name.strip()[1:]] = (ty, init, const)

    def _func(self, lines, i, j):
        l = lines[i]
        p = P(tokenize(l[: l.rindex("{")]), self)
        p.exp("define")
        p.skip_attrs()
        ret = p.type()
        p.skip_attrs()
        name = p.next()[1:].strip('"')
        p.exp("(")
        params, variadic = [], False
        if not p.acc(")"):
            while True:
                if p.acc("..."):
                    variadic = True
                else:
                    ty = p.type()
                    info = p.skip_attrs()
                    nm = p.next() if p.peek() and p.peek().startswith("%") else None
                    params.append((ty, nm, info))
                if p.acc(")"):
                    break
                p.exp(",")
        f = Func(name, ret, params, variadic)
        cur = None
        k = i + 1
        while k < j:
            s = lines[k]
            k += 1
            if not s.strip() or s.lstrip().startswith(";"):
                continue
            m = re.match(r'^("?[-a-zA-Z$._0-9]+"?):', s)
            if m:
                cur = "%" + m.group(1)
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = "%" + str(len(params))
                f.blocks[cur] = []
                f.order.append(cur)
            if s.strip().startswith("switch"):
                while "]" not in s:
                    s += " " + lines[k].strip()
                    k += 1
            ins = self._instr(s, k)
            if ins is not None:
                f.blocks[cur].append(ins)
        f.finish()
        self.funcs[name] = f

    def _instr(self, s, line):
        s = re.sub(r",\s*![a-zA-Z.]+ !\d+", "", s)
        s = re.sub(r",\s*!srcloc.*$", "", s)
        p = P(tokenize(s), self)
        dst = None
        if p.peek(1) == "=":
            dst = p.next()
            p.next()
        while p.peek() in ("tail", "notail", "musttail"):
            p.next()
        op = p.next()
        I = lambda ty=None, a=(), x=None: Instr(op, dst, ty, a, x, line)
        if op == "ret":
            ty = p.type()
            return I(ty, (p.value(ty),) if ty.k != "void" else ())
        if op == "br":
            if p.acc("label"):
                return I(x=p.next())
            ty, c = p.tv()
            p.exp(",")
            p.exp("label")
            a = p.next()
            p.exp(",")
            p.exp("label")
            b = p.next()
            return I(a=(c,), x=(a, b))
        if op == "switch":
            ty, v = p.tv()
            p.exp(",")
            p.exp("label")
            d = p.next()
            p.exp("[")
            cases = []
            while not p.acc("]"):
                t2, c = p.tv()
                p.exp(",")
                p.exp("label")
                cases.append((c[1], p.next()))
            return I(ty, (v,), (d, cases))
        if op == "unreachable":
            return I()
        if op == "alloca":
            p.skip_attrs()
            ty = p.type()
            cnt = None
            if p.acc(","):
                if p.peek() == "align":
                    pass
                else:
                    cnt = p.tv()
            return I(ty, x=cnt)
        if op == "load":
            p.skip_attrs()
            if p.peek() == "atomic":
                p.next()
            ty = p.type()
            p.exp(",")
            _, v = p.tv()
            return I(ty, (v,))
        if op == "store":
            p.skip_attrs()
            if p.peek() == "atomic":
                p.next()
            ty, v = p.tv()
            p.exp(",")
            _, q = p.tv()
            return I(ty, (v, q))
        if op == "getelementptr":
            p.skip_attrs()
            sty = p.type()
            p.exp(",")
            _, base = p.tv()
            idx = []
            while p.acc(","):
                idx.append(p.tv())
            return I(sty, (base,), idx)
        if op in ("icmp", "fcmp"):
            p.skip_attrs()
            pred = p.next()
            ty, a = p.tv()
            p.exp(",")
            b = p.value(ty)
            return I(ty, (a, b), pred)
        if op == "phi":
            p.skip_attrs()
            ty = p.type()
            inc = []
            while p.acc("["):
                v = p.value(ty)
                p.exp(",")
                inc.append((v, p.next()))
                p.exp("]")
                if not p.acc(","):
                    break
            return I(ty, x=inc)
        if op == "select":
            p.skip_attrs()
            _, c = p.tv()
            p.exp(",")
            ty, a = p.tv()
            p.exp(",")
            _, b = p.tv()
            return I(ty, (c, a, b))
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr",
                  "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"):
            p.skip_attrs()
            ty, a = p.tv()
            p.exp(",")
            return I(ty, (a, p.value(ty)))
        if op in ("fneg", "freeze"):
            p.skip_attrs()
            ty, a = p.tv()
            return I(ty, (a,))
        if op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext",
                  "fptrunc", "ptrtoint", "inttoptr", "bitcast"):
            p.skip_attrs()
            ty, a = p.tv()
            p.exp("to")
            return I(p.type(), (a,), ty)
        if op == "extractvalue":
            ty, a = p.tv()
            p.exp(",")
            return I(ty, (a,), int(p.next()))
        if op == "insertvalue":
            ty, a = p.tv()
            p.exp(",")
            t2, b = p.tv()
            p.exp(",")
            return I(ty, (a, b), int(p.next()))
        if op == "call":
            p.skip_attrs()
            ty = p.type()
            p.skip_attrs()
            if p.peek() == "(":
                d = 0
                while True:
                    x = p.next()
                    d += x == "("
                    d -= x == ")"
                    if d == 0:
                        break
            p.skip_attrs()
            callee = p.next()
            if not (callee.startswith("@") or callee.startswith("%")):
                raise IRError("callee " + s)
            p.exp("(")
            args = []
            if not p.acc(")"):
                while True:
                    at = p.type()
                    if at.k == "metadata":
                        return None
                    info = p.skip_attrs()
                    args.append((at, p.value(at), info))
                    if p.acc(")"):
                        break
                    p.exp(",")
            return I(ty, tuple(args), callee.replace('"', ""))
        if op in ("fence",):
            return None
        if op in ("atomicrmw", "cmpxchg"):
            return I(x=s)
        raise IRError("instr " + s)
