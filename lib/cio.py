"""C text input/output, directories and C strings for the symbolic executor.

A file written is the ordered list of what was printed to it: literal text and
printed values (terms), each under the path condition it was printed on.  C
strings are concrete (their contents never depend on symbolic numbers)."""
import re

import z3

import symex
from symex import *

DIR = re.compile(rb"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diouxXeEfFgGaAcsp%])")


class Num:
    """one printed value"""
    __slots__ = ("v", "conv", "prec", "mod", "flags", "width")

    def __init__(self, v, conv, prec, mod, flags=b"", width=None):
        self.v, self.conv, self.prec, self.mod, self.flags, self.width = v, conv, prec, mod, flags, width

    def __repr__(self):
        return "<%s %s>" % (self.conv, str(self.v)[:60])


def put_bytes(ex, st, p, data):
    if ex.access(st, p, len(data), "write") is None:
        return
    o = st.w(p.o)
    for k in [k for k, c in o.cells.items() if k < p.off + len(data) and k + c[0] > p.off]:
        if c_inside(k, o.cells[k][0], p.off, len(data)):
            del o.cells[k]
        else:
            raise Unsupported("string over part of a value")
    for k, b in enumerate(data):
        o.cells[p.off + k] = (1, b)


def c_inside(k, n, off, m):
    return off <= k and k + n <= off + m


def text_at(ex, st, p):
    return read_cstr(ex, st, p)


class Files:
    def __init__(self, ex, exists=()):
        self.ex = ex
        self.path, self.mode, self.rec, self.state = {}, {}, {}, {}
        self.order = []
        self.exists = set(exists)
        self.made = []
        self.confs = []
        self.calls = []
        self.tok = None
        n = {"fopen": self.fopen, "fclose": self.fclose, "fprintf": self.fprintf, "fputs": self.fputs, "fputc": self.fputc, "putc": self.fputc,
             "snprintf": self.snprintf, "sprintf": self.sprintf, "strcpy": self.strcpy, "strncpy": self.strncpy, "strcat": self.strcat,
             "strncat": self.strncat, "strtok": self.strtok, "strncmp": self.strncmp, "strchr": self.strchr, "strrchr": self.strrchr, "strdup": self.strdup,
             "stat": self.stat, "access": self.stat, "mkdir": self.mkdir, "config_write_file": self.conf, "fflush": s_nop(0), "ferror": s_nop(0),
             "__xstat": lambda ex_, st, a: self.stat(ex_, st, a[1:])}
        ex.stubs.update(n)

    # ------------------------------------------------------------- files
    def fopen(self, ex, st, a):
        path, mode = text_at(ex, st, a[0]).decode("latin1"), text_at(ex, st, a[1]).decode()
        p = ex.new_obj(st, "file " + path, 216, "file")
        self.path[p.o], self.mode[p.o], self.rec[p.o] = path, mode, []
        self.order.append(p.o)
        self.exists.add(path)
        return p, st

    def oid(self, st, p):
        if isinstance(p, Ptr) and p.o in self.path:
            return p.o
        if isinstance(p, (Fn, Undef)) or (isinstance(p, Ptr) and p.o in st.mem and st.mem[p.o].name.startswith("@std")):
            return None
        if isinstance(p, Ptr) and p.o == 0:
            self.ex.event("null", st, "printing to a NULL stream")
            return None
        return None

    def fclose(self, ex, st, a):
        f = self.oid(st, a[0])
        if f is not None:
            if st.mem[f].freed is not None:
                ex.event("closed", st, "stream closed twice")
            st.w(f).freed = True
        return 0, st

    def emit(self, st, p, pieces):
        f = self.oid(st, p)
        if f is not None:
            if st.mem[f].freed is not None:
                self.ex.event("closed", st, "write to a closed stream")
            self.rec[f].append((st.g, pieces))

    def fprintf(self, ex, st, a):
        if self.oid(st, a[0]) is None:
            return 1, st
        self.emit(st, a[0], self.fmt(ex, st, text_at(ex, st, a[1]), a[2:]))
        return 1, st

    def fputs(self, ex, st, a):
        if self.oid(st, a[1]) is not None:
            self.emit(st, a[1], [text_at(ex, st, a[0])])
        return 1, st

    def fputc(self, ex, st, a):
        if self.oid(st, a[1]) is not None:
            if isz(a[0]):
                raise Unsupported("symbolic character")
            self.emit(st, a[1], [bytes([a[0] & 255])])
        return a[0], st

    # ------------------------------------------------------------- formats
    def fmt(self, ex, st, f, args):
        out, pos, args = [], 0, list(args)
        for m in DIR.finditer(f):
            if b"%" in f[pos:m.start()]:
                raise Unsupported("format %r" % f)
            out.append(f[pos:m.start()])
            pos = m.end()
            fl, w, pr, mod, cv = m.groups()
            cv = cv.decode()
            if cv == "%":
                out.append(b"%")
                continue
            if w == b"*":
                w = args.pop(0)
            if pr == b"*":
                pr = args.pop(0)
            if not args:
                ex.event("format", st, "too few arguments for %r" % f)
                break
            v = args.pop(0)
            if cv == "s":
                s = text_at(ex, st, v)
                out.append(s if pr is None else s[:int(pr)])
                continue
            out.append(Num(v, cv, None if pr is None else int(pr), (mod or b"").decode(), fl, None if w is None else int(w)))
        if b"%" in f[pos:]:
            raise Unsupported("format %r" % f)
        out.append(f[pos:])
        return out

    def text(self, pieces):
        s = b""
        for x in pieces:
            if isinstance(x, bytes):
                s += x
            elif x.conv in "diouxX" and not isz(x.v):
                v = x.v & 0xffffffff if x.mod not in ("l", "ll", "z", "j", "t") else x.v
                if x.conv in "di":
                    v = sgn(v, 32 if x.mod not in ("l", "ll", "z", "j", "t") else 64)
                s += (b"%" + x.flags + (b"%d" % x.width if x.width is not None else b"") + (b".%d" % x.prec if x.prec is not None else b"") +
                      (b"d" if x.conv in "diu" else x.conv.encode())) % v
            else:
                raise Unsupported("symbolic text")
        return s

    def snprintf(self, ex, st, a):
        s = self.text(self.fmt(ex, st, text_at(ex, st, a[2]), a[3:]))
        n = a[1]
        if isz(n):
            raise Unsupported("symbolic size")
        if n:
            put_bytes(ex, st, a[0], s[:n - 1] + b"\0")
        return len(s), st

    def sprintf(self, ex, st, a):
        s = self.text(self.fmt(ex, st, text_at(ex, st, a[1]), a[2:]))
        put_bytes(ex, st, a[0], s + b"\0")
        return len(s), st

    # ------------------------------------------------------------- strings
    def strcpy(self, ex, st, a):
        if isinstance(a[1], Undef) or (isinstance(a[1], Ptr) and a[1].o == 0):
            ex.event("null", st, "strcpy from an unset pointer")
            return a[0], st
        put_bytes(ex, st, a[0], text_at(ex, st, a[1]) + b"\0")
        return a[0], st

    def strncpy(self, ex, st, a):
        s = text_at(ex, st, a[1])[:a[2]]
        put_bytes(ex, st, a[0], s + b"\0" * (a[2] - len(s)))
        return a[0], st

    def strcat(self, ex, st, a, n=None):
        d = text_at(ex, st, a[0])
        s = text_at(ex, st, a[1])
        if n is not None:
            s = s[:n]
        put_bytes(ex, st, symex.Ptr(a[0].o, a[0].off + len(d)), s + b"\0")
        return a[0], st

    def strncat(self, ex, st, a):
        return self.strcat(ex, st, a[:2], a[2])

    def strncmp(self, ex, st, a):
        x, y = text_at(ex, st, a[0])[:a[2]], text_at(ex, st, a[1])[:a[2]]
        return (0 if x == y else 1 if x > y else 0xFFFFFFFF), st

    def strchr(self, ex, st, a, last=False):
        s = text_at(ex, st, a[0]) + b"\0"
        k = s.rfind(bytes([a[1] & 255])) if last else s.find(bytes([a[1] & 255]))
        return (NULL if k < 0 else Ptr(a[0].o, a[0].off + k)), st

    def strrchr(self, ex, st, a):
        return self.strchr(ex, st, a, True)

    def strdup(self, ex, st, a):
        s = text_at(ex, st, a[0]) + b"\0"
        p = ex.new_obj(st, "strdup", len(s))
        put_bytes(ex, st, p, s)
        return p, st

    def strtok(self, ex, st, a):
        d = text_at(ex, st, a[1])
        p = a[0] if a[0].o else self.tok
        if p is None:
            return NULL, st
        s = text_at(ex, st, p)
        i = 0
        while i < len(s) and s[i] in d:
            i += 1
        if i == len(s):
            self.tok = None
            return NULL, st
        j = i
        while j < len(s) and s[j] not in d:
            j += 1
        r = Ptr(p.o, p.off + i)
        if j < len(s):
            put_bytes(ex, st, Ptr(p.o, p.off + j), b"\0")
            self.tok = Ptr(p.o, p.off + j + 1)
        else:
            self.tok = None
        return r, st

    # ------------------------------------------------------------- directories
    def norm(self, path):
        return path.rstrip("/") or "/"

    def stat(self, ex, st, a):
        return (0 if self.norm(text_at(ex, st, a[0]).decode("latin1")) in self.exists else 0xFFFFFFFF), st

    def mkdir(self, ex, st, a):
        p = self.norm(text_at(ex, st, a[0]).decode("latin1"))
        self.made.append(p)
        self.exists.add(p)
        return 0, st

    def conf(self, ex, st, a):
        self.confs.append((st.g, a[0], text_at(ex, st, a[1]).decode("latin1")))
        return 1, st

    # ------------------------------------------------------------- results
    def lines(self, oid):
        """[(path condition, [pieces without white space])] of one file, split at newlines"""
        out, cur, g = [], [], None
        for g, pieces in self.rec[oid]:
            for x in pieces:
                if isinstance(x, bytes):
                    parts = x.split(b"\n")
                    for i, t in enumerate(parts):
                        if i:
                            out.append((g, cur))
                            cur = []
                        if t:
                            cur.append(t)
                else:
                    cur.append(x)
        if cur:
            out.append((g, cur))
        return out

    @staticmethod
    def fields(line):
        """values of one line: a value must be a field of its own"""
        out, sep = [], True
        for x in line:
            if isinstance(x, bytes):
                for w in re.findall(rb"[ \t,]+|[^ \t,]+", x):
                    if w.strip(b" \t,"):
                        out.append((w, sep))
                        sep = False
                    else:
                        sep = True
            else:
                if not sep:
                    return None
                out.append(x)
                sep = False
        return out
