"""F01-F03: tables read, results written, settings obeyed (the command-line program)."""
import os
import re
import subprocess
from fractions import Fraction

import z3

import core
import repo
import symex
import world
from cio import *
from core import parallel
from env import Env
from gslmodel import Eq
from symex import *

CONTR = ["den", "rsd", "len", "d1", "d2", "g1", "g2", "g3", "g4", "g5"]
NMAX = 4

# what each output consists of: file, array type, element, columns
RESULTS = {
    "CORRFUNC": ("corrfunc.dat", "coffe_corrfunc_t", ["coords.z_mean", "coords.separation", "coords.mu", "value"]),
    "MULTIPOLES": ("multipoles.dat", "coffe_multipoles_t", ["coords.z_mean", "coords.l", "coords.separation", "value"]),
    "AVERAGE_MULTIPOLES": ("average_multipoles.dat", "coffe_average_multipoles_t",
                           ["coords.z_min", "coords.z_max", "coords.l", "coords.separation", "value"]),
    "COVARIANCE_MULTIPOLES": ("covariance_multipoles.dat", "coffe_covariance_t",
                              ["coords.z_mean", "coords.l1", "coords.l2", "coords.separation1", "coords.separation2", "value"]),
    "COVARIANCE_AVERAGE_MULTIPOLES": ("covariance_average_multipoles.dat", "coffe_average_covariance_t",
                                      ["coords.separation1", "coords.separation2", "coords.l1", "coords.l2", "coords.z_min", "coords.z_max", "value"]),
}
ORDER = list(RESULTS)
BG = {"z": ("a", 8), "a": ("a", 16), "H": ("Hz", 16), "conformal_H": ("conformal_Hz", 16), "conformal_H_prime": ("conformal_Hz_prime", 16),
      "D1": ("D1", 16), "f": ("f", 16), "comoving_distance": ("comoving_distance", 16)}


def put_str(ex, st, base, off, s, size=None):
    """string in an array member of a structure"""
    data = s.encode() + b"\0" * ((size or len(s) + 1) - len(s))
    o = st.w(base.o)
    for k, b in enumerate(data):
        o.cells[off + k] = (1, b)


class Out:
    """coffe_output_init on symbolic results"""

    def __init__(self, M, L, ot, contr, path, prefix, exists, bgcols, nbg=2):
        self.L, self.ot, self.prefix, self.path, self.bgcols, self.nbg = L, ot, prefix, path, bgcols, nbg
        self.n = z3.BitVec("results", 64)
        feas = z3.Solver()
        feas.set("timeout", 5000)
        self.range = z3.ULE(self.n, NMAX)
        feas.add(self.range)
        ints = {"output_type": L.enums[ot], "verbose": 0, "divergent": 0, "background_bins": nbg, "type_bg_len": len(bgcols)}
        for c in CONTR:
            ints["correlation_contrib." + c] = int(c in contr)
        self.contr = contr
        self.vals = {}
        for nm, _ in BG.values():
            for off in (8, 16):
                self.vals[nm, off] = [z3.Real("bg.%s.%s[%d]" % (nm, "x" if off == 8 else "y", i)) for i in range(nbg)]
        ptrs = {"type_bg": self.names, "conf": lambda e, st: self.confp}
        for nm, _ in BG.values():
            ptrs[nm + ".spline"] = self.table(nm)
        self.e = Env(M, L, ints, nl=None, ptrs=ptrs, feas=feas)
        ex, st = self.e.ex, self.e.st
        self.ex = ex
        self.confp = ex.new_obj(st, "configuration", 256, "lib")
        self.files = Files(ex, [p.rstrip("/") for p in exists])
        for m, s in (("output_path", path), ("output_prefix", prefix), ("timestamp", "2020-01-02-03-04-05")):
            put_str(ex, st, self.e.par, L.off("coffe_parameters_t", m), s, 256)
        ex.stubs["coffe_get_time"] = s_nop(NULL)
        self.arrays = {}
        for o in ORDER:
            el = RESULTS[o][1]
            top = ex.new_obj(st, o, 16, "heap")
            arr = ex.new_obj(st, o + " results", L.sizes[el] * NMAX, "heap", lazy=self.element(o, el))
            st.w(top.o).cells[0] = (8, arr)
            st.w(top.o).cells[8] = (8, self.n)
            self.arrays[o] = top

    def element(self, o, el):
        def f(ex, st, oid, off, t):
            i, k = divmod(off, self.L.sizes[el])
            return self.term(o, i, self.L.path(el, k))
        return f

    def term(self, o, i, path):
        nm = "%s[%d].%s" % (o, i, path)
        return z3.BitVec(nm, 32) if path.split(".")[-1] in ("l", "l1", "l2") else z3.Real(nm)

    def names(self, env, st):
        ex = env.ex
        p = ex.new_obj(st, "type_bg", 8 * max(1, len(self.bgcols)), "heap")
        for i, c in enumerate(self.bgcols):
            q = ex.new_obj(st, "name", len(c) + 1, "heap")
            put_str(ex, st, q, 0, c)
            st.w(p.o).cells[8 * i] = (8, q)
        return p

    def table(self, nm):
        def f(env, st):
            ex = env.ex
            p = ex.new_obj(st, "bg.%s" % nm, 32, "lib")
            for off in (8, 16):
                q = ex.new_obj(st, "bg.%s data" % nm, 8 * self.nbg, "lib")
                for i, v in enumerate(self.vals[nm, off]):
                    st.w(q.o).cells[8 * i] = (8, v)
                st.w(p.o).cells[off] = (8, q)
            st.w(p.o).cells[24] = (8, self.nbg)
            return p
        return f

    def go(self):
        args = [self.e.par, self.e.bg] + [self.arrays[o] for o in ORDER]
        v, st = self.ex.call(self.e.st, "coffe_output_init", args)
        return st

    # ---- what has to be there
    def name(self, what):
        p = (self.path if self.path.endswith("/") else self.path + "/")
        return p + ("2020-01-02-03-04-05_" if self.prefix == "$TIME" else self.prefix) + what

    def expected(self):
        out = {self.name(RESULTS[self.ot][0]): [[self.term(self.ot, i, c) for c in RESULTS[self.ot][2]] for i in range(NMAX)]}
        if self.bgcols:
            out[self.name("background.dat")] = [[self.vals[BG[c]][i] for c in self.bgcols] for i in range(self.nbg)]
        return out


def columns(line):
    return re.split(r"[\s,]+", line.lstrip("# \t").strip(" \t,"))


def squeeze(p):
    return re.sub("/+", "/", p)


def g_true(g):
    return z3.And([lit_expr(l) for l in g]) if g else z3.BoolVal(True)


def judge_output(chk, r, st):
    """list of problems of one run"""
    F, bad = r.files, []
    if st is None:
        return ["coffe_output_init does not return"]
    for e in r.ex.events:
        if e.kind in ("null", "oob", "uaf", "wild", "closed", "format", "doublefree", "badfree", "uninit", "exit") and \
                chk.solve([r.range, g_true(e.g)]) != "unsat":
            bad.append(repr(e)[:200])
    exp = r.expected()
    paths = {}
    for o in F.order:
        p = squeeze(F.path[o])
        d = p.rsplit("/", 1)[0] if "/" in p else "."
        paths.setdefault(p, []).append(o)
        if d not in F.exists and d not in (".", "./") and d:
            bad.append("%s is opened in a directory that does not exist" % p)
    for p, rows in exp.items():
        os_ = paths.get(squeeze(p), [])
        if len(os_) != 1:
            bad.append("%s is %s" % (p, "never written" if not os_ else "opened %d times" % len(os_)))
            continue
        o = os_[0]
        if not F.mode[o].startswith("w"):
            bad.append("%s keeps what an earlier run left in it (mode %s)" % (p, F.mode[o]))
        if st.mem[o].freed is None:
            bad.append("%s is not closed" % p)
        lines = F.lines(o)
        head = [(g, l) for g, l in lines if l and isinstance(l[0], bytes) and l[0].lstrip().startswith(b"#")]
        data = [(g, l) for g, l in lines if l and not (isinstance(l[0], bytes) and l[0].lstrip().startswith(b"#"))]
        isres = p == r.name(RESULTS[r.ot][0])
        if not head:
            bad.append("%s has no header" % p)
        elif all(isinstance(x, bytes) for x in head[-1][1]) and len(columns(b"".join(head[-1][1]).decode("latin1"))) != len(rows[0]):
            bad.append("%s: the header %r names %d columns of %d" % (p, b"".join(head[-1][1]), len(columns(b"".join(head[-1][1]).decode("latin1"))), len(rows[0])))
        elif isres and b"contributions" in b" ".join(x for x in head[0][1] if isinstance(x, bytes)):
            words = b" ".join(x for x in head[0][1] if isinstance(x, bytes)).split(b":")[-1].split()
            if {w.decode() for w in words} != set(r.contr):
                bad.append("%s names the contributions %s instead of %s" % (p, words, r.contr))
        if len(data) != len(rows):
            bad.append("%s: %d lines of values for %d results" % (p, len(data), len(rows)))
            continue
        diff = []
        for i, ((g, l), want) in enumerate(zip(data, rows)):
            there = z3.ULT(z3.BitVecVal(i, 64), r.n) if isres else z3.BoolVal(True)
            diff.append((i, g_true(g) != there))
            fs = F.fields(l)
            if fs is None or len(fs) != len(want):
                bad.append("%s, line %d: %s fields instead of %d" % (p, i + 1, None if fs is None else len(fs), len(want)))
                continue
            for x, w in zip(fs, want):
                if isinstance(x, bytes):
                    bad.append("%s, line %d: %r instead of %s" % (p, i + 1, x, w))
                elif z3.is_bv(w):
                    if x.conv not in "diu" or x.mod not in ("", "l", "ll", "z"):
                        bad.append("%s, line %d: multipole printed with %%%s" % (p, i + 1, x.conv))
                        continue
                    v = x.v if isz(x.v) else z3.BitVecVal(x.v, 32)
                    if v.size() > 32:
                        v = z3.Extract(31, 0, v)
                    diff.append((i, z3.And(there, v != w)))
                else:
                    if x.conv not in "eEgG" or (x.prec if x.prec is not None else 6) < (9 if x.conv in "eE" else 10):
                        bad.append("%s, line %d: value printed with %%.%s%s" % (p, i + 1, x.prec, x.conv))
                        continue
                    if isz(x.v) and z3.is_bv(x.v):
                        bad.append("%s, line %d: integer printed as a real number" % (p, i + 1))
                        continue
                    diff.append((i, z3.And(there, toz(x.v) != w)))
        if chk.solve([r.range, z3.Or([d for _, d in diff])]) != "unsat":
            ls = [i + 1 for i, d in diff if chk.solve([r.range, d]) != "unsat"]
            bad.append("%s: wrong values or missing lines, line %s" % (p, sorted(set(ls))))
    c = [x for x in F.confs if squeeze(x[2]) == squeeze(r.name("settings.cfg"))]
    if not c or not same_ptr(c[0][1], r.confp):
        bad.append("the settings are not kept beside the results")
    allowed = r.path.rstrip("/")
    for m in F.made:
        if not (squeeze(allowed) + "/").startswith(squeeze(m) + "/"):
            bad.append("directory %s is created" % m)
    return bad


def out_job(chk, M, L, ot, contr, path, prefix, exists, bgcols):
    name = "%s, contributions %s, output_path %s, prefix %s, background %s" % (ot, "+".join(contr), path, prefix, ",".join(bgcols))
    r = Out(M, L, ot, contr, path, prefix, exists, bgcols)
    st = r.go()
    chk.use(r.ex)
    bad = judge_output(chk, r, st)
    if not bad:
        return chk.ok(name, "solver: at most %d results" % NMAX)
    hit = native_output(r, exists)
    if hit:
        chk.violated(name, "%s. Compiled program: %s" % (bad[0], hit), "\n".join(bad) + "\n" + hit)
    else:
        chk.undecide(name, "not reproduced: %s" % bad[0])


def native_output(r, exists):
    """the compiled coffe_output_init with numbers for the symbols; first difference or None"""
    import shutil
    for n in (NMAX, 1, 0):
        d = os.path.join(repo.scratch(), "out%d" % n)
        shutil.rmtree(d, True)
        os.makedirs(d)
        for e in exists:
            if not e.startswith("/"):
                os.makedirs(os.path.join(d, e), exist_ok=True)
        path = r.path if not r.path.startswith("/") else d + r.path
        L = r.L
        num = {}

        def val(t):
            k = str(t)
            if k not in num:
                num[k] = (2 + len(num) % 7) if z3.is_bv(t) else 0.1234567890625 + 1.0625 * len(num)
            return num[k]
        code = [world.includes(), "int main(void){ static coffe_parameters_t par; static coffe_background_t bg;\n"
                "config_t conf; config_init(&conf); par.conf=&conf; par.output_type=%d; par.background_bins=%d;\n" % (L.enums[r.ot], r.nbg),
                'strcpy(par.output_path,"%s"); strcpy(par.output_prefix,"%s"); strcpy(par.timestamp,"2020-01-02-03-04-05");\n' % (path, r.prefix)]
        for c in r.contr:
            code.append("par.correlation_contrib.%s=1;\n" % c)
        code.append("static char *names[]={%s}; par.type_bg=names; par.type_bg_len=%d;\n" % (",".join('"%s"' % c for c in r.bgcols) or "0", len(r.bgcols)))
        for nm in {b for b, _ in BG.values()}:
            code.append("{ double x[]={%s}, y[]={%s}; bg.%s.spline=malloc(sizeof(gsl_spline)); bg.%s.spline->x=malloc(sizeof x); bg.%s.spline->y=malloc(sizeof y);"
                        "memcpy(bg.%s.spline->x,x,sizeof x); memcpy(bg.%s.spline->y,y,sizeof y); bg.%s.spline->size=%d; }\n" % (
                            ",".join("%.17g" % val(v) for v in r.vals[nm, 8]), ",".join("%.17g" % val(v) for v in r.vals[nm, 16]), nm, nm, nm, nm, nm, nm, r.nbg))
        for o in ORDER:
            el = RESULTS[o][1]
            code.append("static %s %s_[%d]; static %s %s={%s_,%d};\n" % (el, o.lower(), NMAX, el.replace("_t", "_array_t"), "R" + o, o.lower(), n))
            for i in range(n):
                for c in RESULTS[o][2]:
                    code.append("%s_[%d].%s=%.17g;\n" % (o.lower(), i, c, val(r.term(o, i, c))))
        call = "coffe_output_init(&par,&bg,%s);" % ",".join("&R" + o for o in ORDER)
        code.append("{ static coffe_parameters_t par2; par2=par; par=par2; " + call + " par=par2; " + call + ' puts("done"); } return 0; }\n')
        rc, out, err = world.run_c("".join(code), cwd=d)
        if rc:
            return "crashes (status %s)" % rc
        for p, rows in r.expected().items():
            q = os.path.join(d, p) if not p.startswith("/") else d + p
            if not os.path.exists(q):
                return "%s is never written" % p
            with open(q) as f:
                txt = f.read().split("\n")
            head = [x for x in txt if x.startswith("#")]
            data = [x.split() for x in txt if x and not x.startswith("#")]
            isres = p == r.name(RESULTS[r.ot][0])
            want = [[val(t) for t in row] for row in rows[:n if isres else len(rows)]]
            if not head:
                return "%s has no header" % p
            if len(columns(head[-1])) != len(rows[0]):
                return "%s: the header %r names %d columns of %d" % (p, head[-1], len(columns(head[-1])), len(rows[0]))
            if isres and "contributions" in head[0] and set(head[0].split(":")[-1].split()) != set(r.contr):
                return "%s: header %r for contributions %s" % (p, head[0], r.contr)
            if len(data) != len(want):
                return "%s has %d lines of values for %d results (output written twice to the same place)" % (p, len(data), len(want))
            for i, (a, b) in enumerate(zip(data, want)):
                try:
                    ok = len(a) == len(b) and all(abs(float(x) - y) <= 1e-9 * abs(y) for x, y in zip(a, b))
                except ValueError:
                    ok = False
                if not ok:
                    return "%s, line %d is %s, the result is %s" % (p, i + 1, " ".join(a), " ".join("%.12g" % y for y in b))
        s = r.name("settings.cfg")
        if not os.path.exists(os.path.join(d, s) if not s.startswith("/") else d + s):
            return "no copy of the settings"
    return None


# ------------------------------------------------------------ the program
STAGE = {"CORRFUNC": "coffe_corrfunc_init", "MULTIPOLES": "coffe_multipoles_init", "AVERAGE_MULTIPOLES": "coffe_average_multipoles_init",
         "COVARIANCE_MULTIPOLES": "coffe_covariance_init", "COVARIANCE_AVERAGE_MULTIPOLES": "coffe_covariance_init"}
STAGES = ["coffe_parser_init", "coffe_background_init", "coffe_integrals_init", "coffe_corrfunc_init", "coffe_multipoles_init",
          "coffe_average_multipoles_init", "coffe_covariance_init", "coffe_output_init"]


def program(chk, M, L, ot, threads):
    name = "program: %s%s" % (ot, ", -n" if threads else "")
    calls = []
    P = {}
    n = z3.BitVec("threads", 32)

    def stage(s):
        def f(ex, st, a):
            nth = None
            if s == "coffe_parser_init":
                P["par"] = a[1]
                o = st.w(a[1].o)
                b = a[1].off
                for m, v in (("output_type", L.enums[ot]), ("verbose", 0), ("nthreads", 77)):
                    o.cells[b + L.off("coffe_parameters_t", m)] = (4, v)
                calls.append((s, st.g, [text_at(ex, st, a[0])] + a[1:], None))
                return 0, st
            if "par" in P:
                nth = ex.load(st, INT(32), Ptr(P["par"].o, P["par"].off + L.off("coffe_parameters_t", "nthreads")))
            calls.append((s, st.g, a, nth))
            return 0, st
        return f

    def free(s):
        def f(ex, st, a):
            calls.append((s, st.g, a, None))
            return 0, st
        return f
    ex = Exec(M, {})
    Files(ex)
    for s in STAGES:
        ex.stubs[s] = stage(s)
    for f in [x for x in list(M.funcs) if re.match(r"coffe_.*_free$|coffe_.*free.*", x)]:
        ex.stubs[f] = free(f)
    opts = [(ord("s"), "conf.cfg")] + ([(ord("n"), "8")] if threads else [])
    seq = list(opts)
    st = State()

    def getopt(ex_, st_, a):
        if not seq:
            return 0xFFFFFFFF, st_
        c, arg = seq.pop(0)
        q = ex_.new_obj(st_, "argument", len(arg) + 1, "lib")
        put_str(ex_, st_, q, 0, arg)
        g = ex_.global_ptr(st_, "optarg")
        st_.w(g.o).cells[0] = (8, q)
        return c, st_
    ex.stubs["getopt"] = getopt
    ex.stubs["atoi"] = lambda ex_, st_, a: (n, st_)
    ex.stubs["strtol"] = lambda ex_, st_, a: (z3.SignExt(32, n), st_)
    ex.stubs["omp_get_max_threads"] = lambda ex_, st_, a: (n, st_)
    v, st = ex.call(st, "main", [0, NULL])
    chk.use(ex)
    pos = n > 0
    bad = []
    if st is None or chk.solve([pos, z3.Not(g_true(st.g))]) != "unsat":
        bad.append("main does not finish")
    if st is not None and chk.solve([g_true(st.g), z3.Not(pos)]) != "unsat" and threads:
        bad.append("a number of threads below 1 is accepted")
    if st is not None and isinstance(v, int) and v != 0:
        bad.append("exit status %s" % v)
    calls = [c for c in calls if chk.solve([pos, g_true(c[1])]) != "unsat"]
    for c in calls:
        if chk.solve([pos, z3.Not(g_true(c[1]))]) != "unsat":
            bad.append("%s runs only sometimes" % c[0])
    main = [c for c in calls if c[0] in STAGES]
    want = ["coffe_parser_init", "coffe_background_init"] + (["coffe_integrals_init"] if "COV" not in ot else []) + [STAGE[ot], "coffe_output_init"]
    # stages not needed for this output may run as well
    got = [c for c in main if c[0] in want]
    if [c[0] for c in got] != want or [c[0] for c in main if c[0] not in want + ["coffe_integrals_init"]]:
        bad.append("stages %s instead of %s" % ([c[0] for c in main], want))
    else:
        A = {c[0]: c[2] for c in got}
        if A["coffe_parser_init"][0] != b"conf.cfg":
            bad.append("settings file %s" % A["coffe_parser_init"][0])
        par = A["coffe_parser_init"][1]
        o = A["coffe_output_init"]
        exp = {"coffe_background_init": [par, o[1]]}
        integral = A.get("coffe_integrals_init", [0, 0, None])[2]
        if integral is not None:
            exp["coffe_integrals_init"] = [par, o[1], integral]
        tail = {"CORRFUNC": [integral, o[2]], "MULTIPOLES": [integral, o[3]], "AVERAGE_MULTIPOLES": [integral, o[4]]}.get(ot, [o[5], o[6]])
        exp[STAGE[ot]] = [par, o[1]] + tail
        exp["coffe_output_init"] = [par] + o[1:]
        for s, args in exp.items():
            if len(A[s]) != len(args) or any(not same_ptr(x, y) for x, y in zip(A[s], args)):
                bad.append("%s is given other data than the stages before and after it" % s)
        for c in got[1:]:
            if c[3] is None or chk.solve([pos, (c[3] if isz(c[3]) else z3.BitVecVal(c[3], 32)) != n]) != "unsat":
                bad.append("%s does not run with the requested number of threads" % c[0])
        i0 = next(i for i, c in enumerate(calls) if c[0] == "coffe_output_init")
        if [c for c in calls[:i0] if c[0] not in STAGES]:
            bad.append("%s before the output is written" % [c[0] for c in calls[:i0] if c[0] not in STAGES])
    if not bad:
        return chk.ok(name, "solver")
    hit = native_program(L, ot, threads)
    if hit:
        chk.violated(name, "%s. Compiled program: %s" % (bad[0], hit), "\n".join(bad) + "\n" + hit)
    else:
        chk.undecide(name, "not reproduced: %s" % bad[0])


def native_program(L, ot, threads):
    """the compiled main with recording stand-ins for its stages"""
    code = [world.includes(), "static void *par_, *bg_; static void say(const char*n,int k,void**p){ printf(\"%s\",n); if(par_) printf(\" t%d\",((coffe_parameters_t*)par_)->nthreads);"
            " for(int i=0;i<k;++i) printf(\" %p\",p[i]); puts(\"\"); fflush(stdout);}\n",
            "int __wrap_coffe_parser_init(char*f,coffe_parameters_t*p){ memset(p,0,sizeof *p); p->output_type=%d; p->nthreads=77; void*a[]={p}; printf(\"file %%s\\n\",f); say(\"coffe_parser_init\",1,a); par_=p; return 0; }\n" % L.enums[ot]]
    nargs = {"coffe_background_init": 2, "coffe_integrals_init": 3, "coffe_corrfunc_init": 4, "coffe_multipoles_init": 4, "coffe_average_multipoles_init": 4,
             "coffe_covariance_init": 4, "coffe_output_init": 7}
    for s, k in nargs.items():
        ps = ",".join("void*p%d" % i for i in range(k))
        code.append("int __wrap_%s(%s){ void*a[]={%s}; say(\"%s\",%d,a); return 0; }\n" % (s, ps, ",".join("p%d" % i for i in range(k)), s, k))
    frees = ["coffe_background_free", "coffe_integrals_free", "coffe_corrfunc_free", "coffe_multipoles_free", "coffe_covariance_free", "coffe_average_covariance_free",
             "coffe_parameters_free", "coffe_average_multipoles_free"]
    for s in frees:
        code.append("int __wrap_%s(void*p){ say(\"%s\",1,&p); return 0; }\n" % (s, s))
    mo = os.path.join(repo.scratch(), "main_%s.o" % ot)
    repo.run(["gcc", "-std=gnu99", "-w", "-O1", "-fopenmp", "-DNDEBUG", '-DPACKAGE_STRING="coffe"', "-I" + repo.SRC, "-c", os.path.join(repo.SRC, "main.c"), "-o", mo])
    for nt in (3, 1):
        rc, out, err = world.run_c("".join(code), extra=[mo] + ["-Wl,--wrap=" + s for s in list(nargs) + ["coffe_parser_init"] + frees],
                                   args=["-s", "conf.cfg"] + (["-n", str(nt)] if threads else []), env=dict(os.environ, OMP_NUM_THREADS=str(nt)))
        if rc:
            return "exit status %s" % rc
        ls = [x.split() for x in out.strip().split("\n")]
        if ["file", "conf.cfg"] not in ls:
            return "settings file not read"
        seq = [x for x in ls if x[0] in nargs or x[0] == "coffe_parser_init"]
        want = ["coffe_parser_init", "coffe_background_init"] + (["coffe_integrals_init"] if "COV" not in ot else []) + [STAGE[ot], "coffe_output_init"]
        got = [x for x in seq if x[0] in want]
        if [x[0] for x in got] != want:
            return "stages %s" % [x[0] for x in seq]
        extra = [x[0] for x in seq if x[0] not in want and x[0] != "coffe_integrals_init"]
        if extra:
            return "stages %s" % extra
        A = {x[0]: x[2:] for x in got[1:]}
        for x in got[1:]:
            if x[1] != "t%d" % nt:
                return "%s runs with %s threads instead of %d" % (x[0], x[1][1:], nt)
        par, o = got[0][1], A["coffe_output_init"]
        integral = A.get("coffe_integrals_init", [0, 0, None])[2]
        tail = {"CORRFUNC": [integral, o[2]], "MULTIPOLES": [integral, o[3]], "AVERAGE_MULTIPOLES": [integral, o[4]]}.get(ot, [o[5], o[6]])
        if A[STAGE[ot]] != [par, o[1]] + tail or A["coffe_background_init"] != [par, o[1]] or o[0] != par or (integral and A["coffe_integrals_init"] != [par, o[1], integral]):
            return "the stages do not work on the same data"
        i0 = [x[0] for x in ls].index("coffe_output_init")
        if [x for x in ls[:i0] if x[0] in frees]:
            return "data released before the output"
    if threads:
        rc, out, err = world.run_c("".join(code), extra=[mo] + ["-Wl,--wrap=" + s for s in list(nargs) + ["coffe_parser_init"] + frees], args=["-s", "conf.cfg", "-n", "0"])
        if rc == 0:
            return "-n 0 is accepted"
    return None


def F02(chk):
    M, L = repo.module(), repo.Layout()
    P = repo.module(["main"] + repo.source_files(), omp=True, defines=['PACKAGE_STRING="coffe"'])
    chk.bounds.append("any number of results up to %d, any values; background tables of 2 points, up to 8 columns; the listed contributions, paths and prefixes; any number of threads" % NMAX)
    chk.assumptions += ["files can be opened and written", "the printed digits of a value are those of C's printf"]
    chk.stubs |= {"stdio", "string.h", "stat, mkdir", "config_write_file", "getopt"}
    jobs = []
    sets = [[], CONTR, ["den", "rsd", "len"]] + [[c] for c in CONTR] + [[c for c in CONTR if c != d] for d in CONTR]
    if chk.tier == "thorough":
        sets = [[c for j, c in enumerate(CONTR) if m >> j & 1] for m in range(1024)]
    paths = [("results/", "$TIME", []), ("results", "run1_", ["results"]), ("a/b/c", "x", ["a"]), ("/top/sub", "y", [])]
    cols = [list(BG), [], list(reversed(list(BG))), ["H"], ["comoving_distance", "z"], ["f", "a", "D1"], ["conformal_H_prime", "conformal_H"]]
    k = 0
    for ot in ORDER:
        for i in range(max(len(sets), len(paths), len(cols))):
            p = paths[(i + k) % len(paths)]
            jobs.append((ot, out_job, (M, L, ot, sets[i % len(sets)], p[0], p[1], p[2], cols[(i + 2 * k) % len(cols)])))
        k += 1
    for ot in ORDER:
        for t in (0, 1):
            jobs.append(("program " + ot, program, (P, L, ot, t)))
    parallel(chk, jobs)


# ------------------------------------------------------------ settings
ARRAYS = {"z_mean": ("z_mean", (1, 2, 4)), "z_min": ("zmin", (3,)), "z_max": ("zmax", (3,)), "mu": ("mu", (1,)), "multipoles": ("multipole_values", (2, 3, 4, 5)),
          "density1": ("density1", (4, 5)), "density2": ("density2", (4, 5)), "fsky": ("fsky", (4, 5)), "pixelsize": ("pixelsize", (4, 5)),
          "deltaz": ("deltaz", (4,)), "zmin": ("zmin", (5,)), "zmax": ("zmax", (5,))}
INTS = {"verbose": "verbose", "background_sampling": "background_bins", "bessel_sampling": "bessel_bins", "integration_method": "integration_method",
        "integration_sampling": "integration_bins", "covariance_integration_method": "covariance_integration_method",
        "flatsky_local": "flatsky_local", "flatsky_local_nonlocal": "flatsky_local_nonlocal", "flatsky_nonlocal": "flatsky_nonlocal",
        "b_derivative": "b_derivative", "f_derivative": "f_derivative", "b_tilde_derivative": "b_tilde_derivative", "f_tilde_derivative": "f_tilde_derivative",
        "have_window": "have_window", "only_cross_correlations": "only_cross_correlations", "output_type": "output_type", "interpolation": "interp_method"}
DOUBLES = {"omega_m": "Omega0_m", "omega_baryon": "Omega0_baryon", "omega_gamma": "Omega0_gamma", "w0": "w0", "wa": "wa", "k_min": "k_min", "k_max": "k_max"}
REQUIRED = {"output_type", "verbose", "background_sampling", "omega_m", "omega_baryon", "omega_gamma", "separations_min", "separations_max", "bessel_sampling",
            "integration_sampling", "w0", "wa", "output_path", "output_prefix", "k_min", "k_max", "have_window", "input_power_spectrum", "galaxy_bias1", "input_galaxy_bias2"}
BIASES = ["galaxy_bias1", "galaxy_bias2", "magnification_bias1", "magnification_bias2", "evolution_bias1", "evolution_bias2"]
FLAGS01 = ["flatsky_local", "flatsky_local_nonlocal", "flatsky_nonlocal", "b_derivative", "f_derivative", "b_tilde_derivative", "f_tilde_derivative", "have_window",
           "only_cross_correlations", "verbose"]


class Cfg:
    """one settings file: symbolic numbers, concrete choices"""

    def __init__(self, ot, reads=(), window=0, covm=1, contr=("den",), lens=None, absent=(), step=None, bg=("z", "H"), pkfile=True, badfile=None, npk=3):
        self.ot, self.reads, self.contr, self.bg, self.pkfile, self.badfile, self.npk = ot, reads, list(contr), list(bg), pkfile, badfile, npk
        self.absent = set(absent)
        self.lens = {k: 2 for k in ARRAYS}
        self.lens["multipoles"] = 3
        self.lens.update(lens or {})
        self.i, self.d, self.s = {}, {}, {}
        for k in INTS:
            self.i[k] = z3.BitVec(k, 32)
        self.i.update(output_type=ot, have_window=window, covariance_integration_method=covm)
        for k in DOUBLES:
            self.d[k] = z3.Real(k)
        if ot in (4, 5):
            self.i["covariance_window"] = z3.BitVec("covariance_window", 32)
        self.i["covariance_integration_bins"] = z3.BitVec("covariance_integration_bins", 32)
        self.i["covariance_interpolation_method"] = z3.BitVec("covariance_interpolation_method", 32)
        self.d["window_size"] = z3.Real("window_size")
        for b in BIASES:
            self.i["read_" + b] = int(b in reads)
            self.i["degree_" + b] = z3.BitVec("degree_" + b, 32)
            self.d[b] = z3.Real(b)
            self.s["input_" + b] = "file of " + b
        self.s.update(input_power_spectrum="file of P(k)", output_path="some/where", output_prefix="run_")
        self.d["separations_min"], self.d["separations_max"] = z3.Real("separations_min"), z3.Real("separations_max")
        if step is None:
            self.i["separations_sampling"] = 3
        else:
            self.d["separations_min"], self.d["separations_max"], self.d["separations_step"] = (Fraction(x) for x in step)
        self.step = step
        self.a = {k: [(z3.BitVec("%s[%d]" % (k, i), 32) if k == "multipoles" else z3.Real("%s[%d]" % (k, i))) for i in range(n)] for k, n in self.lens.items()}
        for k in self.absent:
            for m in (self.i, self.d, self.s, self.a):
                m.pop(k, None)
        self.strings = {"output_background": self.bg, "correlation_contributions": self.contr}

    def table(self, f, n=None):
        n = n or (self.npk if f == "file of P(k)" else 3)
        return [z3.Real("%s x[%d]" % (f, i)) for i in range(n)], [z3.Real("%s y[%d]" % (f, i)) for i in range(n)]

    def describe(self):
        return "output_type %d%s%s%s%s%s%s%s" % (self.ot, ", bias files: " + "+".join(self.reads) if self.reads else "", ", window" if self.i.get("have_window") else "",
                                               ", covariance method %s" % self.i.get("covariance_integration_method") if self.ot in (4, 5) else "",
                                               ", step" if self.step else "", "" if self.pkfile else ", unreadable P(k)",
                                               ", without " + "+".join(sorted(self.absent)) if self.absent else "",
                                               ", contributions " + "+".join(self.contr))


class Parse:
    def __init__(self, M, L, cfg):
        self.L, self.cfg = L, cfg
        self.base = [z3.Or(cfg.i[f] == 0, cfg.i[f] == 1) for f in FLAGS01 if f in cfg.i and isz(cfg.i[f])]
        xs = cfg.table("file of P(k)")[0]
        self.base += [x > 0 for x in xs] + [xs[i] < xs[i + 1] for i in range(len(xs) - 1)]
        feas = z3.Solver()
        feas.set("timeout", 5000)
        feas.add(self.base)
        self.e = Env(M, L, {}, nl=None, feas=feas, max_steps=20000000)
        ex, st = self.e.ex, self.e.st
        self.ex = ex
        ex.check_uninit = False
        Files(ex)
        self.par = ex.new_obj(st, "parameters", L.sizes["coffe_parameters_t"], "heap")
        self.file = ex.new_obj(st, "settings file name", 8, "lib")
        put_str(ex, st, self.file, 0, "f.cfg")
        self.settings, self.strs = {}, {}
        S = ex.stubs
        S["config_init"] = S["config_set_auto_convert"] = S["config_set_options"] = s_nop(None)
        S["config_read_file"] = s_nop(1)
        S["config_lookup_float"] = self.look(lambda n: cfg.d.get(n), 8)
        S["config_lookup_int"] = self.look(lambda n: cfg.i.get(n), 4)
        S["config_lookup_bool"] = S["config_lookup_int"]
        S["config_lookup_string"] = self.look_string
        S["config_lookup"] = self.lookup
        S["config_setting_length"] = lambda ex_, st_, a: (len(self.content(a[0])), st_)
        S["config_setting_get_float_elem"] = S["config_setting_get_int_elem"] = lambda ex_, st_, a: (self.elem(a), st_)
        S["config_setting_get_string_elem"] = lambda ex_, st_, a: (self.string(ex_, st_, self.elem(a)), st_)
        S["coffe_init_spline"] = self.init_spline
        S["coffe_init_spline2d"] = s_nop(0)
        S["read_2col"] = self.read_2col
        S["coffe_get_time"] = lambda ex_, st_, a: self.time(ex_, st_)
        S["gsl_sf_bessel_j1"] = s_uf("j1")
        S["gsl_sf_bessel_jl"] = lambda ex_, st_, a: (ex_.uf("j%d" % a[0] if not isz(a[0]) else "jl", a[1]), st_)
        S["gsl_spline_alloc"] = s_nop(NULL)
        S["omp_get_max_threads"] = s_nop(4)
        import math
        for n, f in (("ceil", math.ceil), ("floor", math.floor), ("round", lambda x: math.floor(x + Fraction(1, 2))), ("trunc", math.trunc)):
            S[n] = S["llvm.%s.f64" % n] = lambda ex_, st_, a, f=f: (self.whole(f, a[0]), st_)
        self.inits = []

    def whole(self, f, x):
        if isz(x):
            raise Unsupported("rounding of a symbolic number")
        return Fraction(f(Fraction(x)))

    def time(self, ex, st):
        p = ex.new_obj(st, "time", 256, "heap")
        put_str(ex, st, p, 0, "now")
        return p, st

    def string(self, ex, st, s):
        if (s,) not in self.strs:
            p = ex.new_obj(st, "string " + s, len(s) + 1, "lib")
            put_str(ex, st, p, 0, s)
            self.strs[(s,)] = p.o, st.mem[p.o]
        o, v = self.strs[(s,)]
        st.mem.setdefault(o, v)
        return Ptr(o, 0)

    def look(self, get, size):
        def f(ex, st, a):
            v = get(text_at(ex, st, a[1]).decode())
            if v is None:
                return 0, st
            ex.store(st, DOUBLE_ if size == 8 else INT(32), v, a[2])
            return 1, st
        return f

    def look_string(self, ex, st, a):
        v = self.cfg.s.get(text_at(ex, st, a[1]).decode())
        if v is None:
            return 0, st
        ex.store(st, PTR, self.string(ex, st, v), a[2])
        return 1, st

    def lookup(self, ex, st, a):
        n = text_at(ex, st, a[1]).decode()
        if n not in self.cfg.a and (n in self.cfg.absent or n not in self.cfg.strings):
            return NULL, st
        p = ex.new_obj(st, "setting " + n, 64, "lib")
        self.settings[p.o] = n
        return p, st

    def content(self, p):
        n = self.settings[p.o]
        return self.cfg.a.get(n) or self.cfg.strings.get(n) or []

    def elem(self, a):
        c = self.content(a[0])
        if isz(a[1]) or not 0 <= a[1] < len(c):
            raise Unsupported("element of a setting")
        return c[a[1]]

    def data(self, ex, st, vals, nm="table", kind="heap"):
        q = ex.new_obj(st, nm, 8 * max(1, len(vals)), kind)
        for i, v in enumerate(vals):
            st.w(q.o).cells[8 * i] = (8, v)
        return q

    def init_spline(self, ex, st, a):
        p, n = a[0], a[3]
        if isz(n):
            ex.event("uninit", st, "number of points of a table")
            n = 0
        xs = [ex.load(st, DOUBLE_, Ptr(a[1].o, a[1].off + 8 * i)) for i in range(n)]
        ys = [ex.load(st, DOUBLE_, Ptr(a[2].o, a[2].off + 8 * i)) for i in range(n)]
        t = ex.new_obj(st, "interpolation", 40, "lib")
        o = st.w(t.o)
        for off, v in ((0, NULL), (8, self.data(ex, st, xs, kind="lib")), (16, self.data(ex, st, ys, kind="lib")), (24, n)):
            st.w(t.o).cells[off] = (8, v)
        m = a[4]
        st.w(t.o).cells[32] = (4, m)
        ex.store(st, PTR, t, p)
        ex.store(st, PTR, t, Ptr(p.o, p.off + 8))
        return 0, st

    def read_2col(self, ex, st, a):
        f = text_at(ex, st, a[0]).decode()
        if f == "file of P(k)" and not self.cfg.pkfile or f == self.cfg.badfile:
            return 1, st
        x, y = self.cfg.table(f)
        ex.store(st, PTR, self.data(ex, st, x), a[1])
        ex.store(st, PTR, self.data(ex, st, y), a[2])
        ex.store(st, INT(64), len(x), a[3])
        return 0, st

    # ---- results
    def get(self, st, m, ty):
        return self.ex.load(st, ty, Ptr(self.par.o, self.L.off("coffe_parameters_t", m)))

    def arr(self, st, p, n, ty, w):
        if n == 0:
            return []
        return [self.ex.load(st, ty, Ptr(p.o, p.off + w * i)) for i in range(n)]

    def tab(self, st, m):
        """x, y, method of an interpolation of the parameters"""
        p = self.get(st, m + ".spline", PTR)
        if not isinstance(p, Ptr) or p.o == 0:
            return None
        n = self.ex.load(st, INT(64), Ptr(p.o, 24))
        return (self.arr(st, self.ex.load(st, PTR, Ptr(p.o, 8)), n, DOUBLE_, 8), self.arr(st, self.ex.load(st, PTR, Ptr(p.o, 16)), n, DOUBLE_, 8),
                self.ex.load(st, INT(32), Ptr(p.o, 32)))


DOUBLE_ = DOUBLE


def bv(x, w=32):
    return x if isz(x) else z3.BitVecVal(x, w)


def spec(cfg, r, dst, defaults):
    """(expected leaves {path: term}, arrays {path: terms}, tables {path: (x, y, method)}, condition under which the settings are valid)"""
    ex = r.ex
    leaf, arrs, tabs = {}, {}, {}
    valid = []
    i, d, a = cfg.i, cfg.d, cfg.a
    if cfg.absent & REQUIRED or (cfg.step is not None and ("separations_sampling" in i or cfg.step[2] <= 0)) or (cfg.step is None and "separations_sampling" not in i):
        return leaf, arrs, tabs, z3.BoolVal(False)
    valid += [z3.BoolVal(False) for s in cfg.s.values() if len(s) >= 256]
    for s, m in INTS.items():
        if s in i:
            leaf[m] = i[s]
    for s, m in DOUBLES.items():
        leaf[m] = d[s]
    for b in BIASES:
        for s in ("read_", "degree_"):
            if s + b in i:
                leaf[s + b] = i[s + b]
    if cfg.ot in (4, 5):
        leaf["covariance_window"] = i["covariance_window"]
    leaf["Omega0_de"] = 1 - (d["omega_m"] + d["omega_gamma"])
    leaf["Omega0_cdm"] = d["omega_m"] - d["omega_baryon"] - toz(defaults["Omega0_nu"])
    leaf["divergent"] = int(any(c in cfg.contr for c in ("d2", "g1", "g2", "g3", "g4", "g5")))
    for c in CONTR:
        leaf["correlation_contrib." + c] = int(c in cfg.contr)
    for s, (m, ots) in ARRAYS.items():
        if cfg.ot in ots and s in a:
            arrs[m] = a[s]
            leaf[m + "_len"] = len(a[s])
    if cfg.ot in (1, 2, 4) and "z_mean" in a:
        valid += [z > 0 for z in a["z_mean"]]
    leaf["type_bg_len"] = 0 if "output_background" in cfg.absent else len(cfg.bg)
    if cfg.step is None:
        n = i["separations_sampling"]
        lo, hi = d["separations_min"], d["separations_max"]
        valid.append(lo < hi)
        arrs["sep"] = [lo + (hi - lo) * Fraction(k, n) for k in range(n)]
    else:
        lo, hi, s = (Fraction(x) for x in cfg.step)
        valid.append(z3.BoolVal(lo < hi))
        arrs["sep"] = [lo + s * k for k in range(1000) if lo + s * k < hi]
    leaf["sep_len"] = len(arrs["sep"])
    im = bv(i["integration_method"])
    valid.append(z3.And(im >= 0, im <= 2))
    E = r.L.enums
    std, fft = E["COFFE_COVARIANCE_INTEGRATION_STANDARD"], E["COFFE_COVARIANCE_INTEGRATION_FFTLOG"]
    cm = bv(i["covariance_integration_method"])
    valid.append(z3.Or(cm == std, cm == fft))
    isf = cm == fft
    valid.append(z3.Implies(isf, i["covariance_integration_bins"] > 0))
    meth = i["covariance_interpolation_method"]
    valid.append(z3.Implies(isf, z3.Or(meth == E["COFFE_INTERP2D_BILINEAR"], meth == E["COFFE_INTERP2D_BICUBIC"])))
    leaf["covariance_integration_bins"] = z3.If(isf, i["covariance_integration_bins"], bv(defaults["covariance_integration_bins"]))
    leaf["covariance_interpolation_method"] = z3.If(isf, meth, bv(defaults["covariance_interpolation_method"]))
    valid.append(z3.Sum([z3.If(i[x] == 1, 1, 0) for x in ("b_derivative", "f_derivative", "b_tilde_derivative", "f_tilde_derivative")]) <= 1)
    if i["have_window"]:
        leaf["window_size"] = d["window_size"]
        valid += [d["window_size"] > 0, d["window_size"] < 1000]
    lens = {4: ("density1", "density2", "fsky", "pixelsize", "z_mean", "deltaz"), 5: ("density1", "density2", "fsky", "pixelsize", "zmin", "zmax"), 3: ("z_min", "z_max")}.get(cfg.ot, ())
    if len({cfg.lens[k] for k in lens}) > 1:
        valid.append(z3.BoolVal(False))
    if cfg.badfile:
        valid.append(z3.BoolVal(False))
    method = i["interpolation"] if "interpolation" in i else defaults["interp_method"]
    for b in BIASES:
        if b in cfg.reads:
            tabs[b] = cfg.table("file of " + b) + (method,)
        else:
            tabs[b] = ([Fraction(z) for z in range(11)], [d[b]] * 11, method)
    if cfg.pkfile:
        x, y = cfg.table("file of P(k)")
        if i["have_window"]:
            y = [ex.rmul(p, ex.rpow(ex.rdiv(ex.rmul(Fraction(3), ex.uf("j1", ex.rmul(d["window_size"], k))), ex.rmul(d["window_size"], k)), 2)) for p, k in zip(y, x)]
        tabs["power_spectrum"] = (x, y, method)
        lo, hi = x[0], x[-1]
    else:
        tabs["power_spectrum"] = defaults["power_spectrum"]
        lo, hi = (toz(defaults["power_spectrum"][0][k]) for k in (0, -1))
    tabs["power_spectrum_norm"] = tabs["power_spectrum"][:2] + (method,)
    leaf["k_min"] = z3.If(d["k_min"] < lo, lo, d["k_min"])
    leaf["k_max"] = z3.If(d["k_max"] > hi, hi, d["k_max"])
    leaf["k_min_norm"], leaf["k_max_norm"] = leaf["k_min"], leaf["k_max"]
    return leaf, arrs, tabs, z3.And(valid)


SKIP = {"timestamp", "conf", "file_power_spectrum", "type_bg", "mu", "z_mean", "deltaz", "sep", "multipole_values", "zmin", "zmax", "fsky", "density1", "density2", "pixelsize"}
ARRP = ["mu", "z_mean", "deltaz", "sep", "multipole_values", "zmin", "zmax", "fsky", "density1", "density2", "pixelsize"]


def snapshot(r, st):
    """every scalar, array and table of the parameters"""
    out, arrs = {}, {}
    for p, off, kind in r.L.leaves("coffe_parameters_t"):
        if p in SKIP or "spline" in p or "accel" in p or kind in ("array", "ptr") or p.startswith("class_struct"):
            continue
        if kind == "double":
            out[p] = r.get(st, p, DOUBLE_)
        elif kind == "unsigned long":
            out[p] = r.get(st, p, INT(64))
        else:
            out[p] = r.get(st, p, INT(32))
    for m in ARRP:
        n = out[m + "_len"]
        if isz(n):
            raise Unsupported("length of %s depends on a number" % m)
        arrs[m] = r.arr(st, r.get(st, m, PTR), n, INT(32) if m == "multipole_values" else DOUBLE_, 4 if m == "multipole_values" else 8)
    return out, arrs


def default_values(r):
    """what the parameters are before the settings"""
    st = r.e.st
    p = r.par
    r2 = r.ex.new_obj(st, "defaults", r.L.sizes["coffe_parameters_t"], "heap")
    r.par = r2
    v, st = r.ex.call(st, "coffe_parse_default_parameters", [r2])
    out, arrs = snapshot(r, st)
    out["power_spectrum"] = r.tab(st, "power_spectrum")
    for b in ("galaxy_bias3", "galaxy_bias4"):
        out[b] = r.tab(st, b)
    r.par = p
    r.e.st = st
    return out, arrs


def parse_job(chk, M, L, cfg):
    name = cfg.describe() + (", " + cfg.label if hasattr(cfg, "label") else "")
    r = Parse(M, L, cfg)
    ex = r.ex
    dflt, darr = default_values(r)
    n0 = len(ex.events)
    v, st = ex.call(r.e.st, "coffe_parser_init", [r.file, r.par])
    chk.use(ex)
    leaf, arrs, tabs, valid = spec(cfg, r, st, dflt)
    base = r.base + list(ex.sign_list)
    bad, query = [], []
    for e in ex.events[n0:]:
        if e.kind in ("null", "oob", "uaf", "wild", "doublefree", "badfree", "uninit"):
            q = base + [g_true(e.g)]
            if chk.solve(q) != "unsat":
                bad.append(repr(e)[:160])
                query.append(q)
    if st is None:
        if chk.solve(base + [valid]) != "unsat":
            bad.append("valid settings are refused")
            query.append(base + [valid])
    else:
        g = g_true(st.g)
        for what, q in (("valid settings are refused", base + [valid, z3.Not(g)]), ("invalid settings are accepted", base + [g, z3.Not(valid)])):
            if chk.solve(q) != "unsat":
                bad.append(what)
                query.append(q)
        got, garr = snapshot(r, st)
        pairs = []
        for p, t in got.items():
            w = leaf.get(p, dflt[p])
            pairs.append((p, t, w))
        for m in ARRP:
            w = arrs.get(m, darr[m])
            if len(garr[m]) == len(w):
                pairs += [("%s[%d]" % (m, k), x, y) for k, (x, y) in enumerate(zip(garr[m], w))]
        for m, w in list(tabs.items()) + [("galaxy_bias3", dflt["galaxy_bias3"]), ("galaxy_bias4", dflt["galaxy_bias4"])]:
            t = r.tab(st, m)
            if t is None or len(t[0]) != len(w[0]):
                bad.append("%s is not the table asked for" % m)
                query.append(base + [valid])
                continue
            pairs += [("%s x[%d]" % (m, k), x, y) for k, (x, y) in enumerate(zip(t[0], w[0]))] + [("%s y[%d]" % (m, k), x, y) for k, (x, y) in enumerate(zip(t[1], w[1]))]
            pairs.append((m + " interpolation", t[2], w[2]))
        dif = []
        for lab, x, y in pairs:
            if not isz(x) and not isz(y):
                if x != y:
                    dif.append((lab, z3.BoolVal(True)))
                continue
            if isz(x) and z3.is_bv(x) or isz(y) and z3.is_bv(y):
                w = (x if isz(x) and z3.is_bv(x) else y).size()
                dif.append((lab, bv(x, w) != bv(y, w)))
            elif not (isz(x) and isz(y) and x.eq(y)):
                dd = ex.rsub(x, y)
                if not isz(dd):
                    if dd != 0:
                        dif.append((lab, z3.BoolVal(True)))
                else:
                    dif.append((lab, dd != 0))
        if chk.solve(base + [valid, g, z3.Or([q for _, q in dif])]) != "unsat":
            for lab, q in dif:
                q = base + [valid, g, q]
                if chk.solve(q) != "unsat":
                    bad.append("%s is not what the settings say" % lab)
                    query.append(q)
        for m in ("output_path", "output_prefix"):
            s = cfg.s[m]
            if len(s) < 256 and text_at(ex, st, Ptr(r.par.o, L.off("coffe_parameters_t", m))).decode() != s:
                bad.append(m)
                query.append(base + [valid])
        if "output_background" not in cfg.absent and got["type_bg_len"] == len(cfg.bg):
            p = r.get(st, "type_bg", PTR)
            names = [text_at(ex, st, ex.load(st, PTR, Ptr(p.o, 8 * k))).decode() for k in range(len(cfg.bg))]
            if names != cfg.bg:
                bad.append("output_background is %s" % names)
                query.append(base + [valid])
    if not bad:
        return chk.ok(name, "solver")
    for q in query[:4]:
        hit = native_parse(chk, r, cfg, dflt, darr, leaf, arrs, tabs, valid, q)
        if hit:
            return chk.violated(name, "%s. Compiled program: %s" % (bad[0], hit), "\n".join(bad) + "\n" + hit)
    chk.undecide(name, "not reproduced: %s" % bad[:3])


class Numbers(world.World):
    def func(self, name, args):
        import math
        if name == "j1":
            x = args[0]
            return math.sin(x) / x ** 2 - math.cos(x) / x
        return super().func(name, args)


TYPES = {1: "linear", 3: "cspline", 5: "akima", 7: "steffen"}


def native_parse(chk, r, cfg, dflt, darr, leaf, arrs, tabs, valid, query):
    """the compiled parser on settings with numbers in place of the symbols; first difference or None"""
    s = z3.Solver()
    s.set("timeout", 10000)
    s.add(query)
    model = s.model() if s.check() == z3.sat else None
    for m in (None, model):
        hit = native_parse1(r, cfg, dflt, darr, leaf, arrs, tabs, valid, m)
        if hit:
            return hit
        if model is None:
            return None
    return None


def native_parse1(r, cfg, dflt, darr, leaf, arrs, tabs, valid, model):
    import random
    rnd = random.Random(1)
    val, sub = {}, []

    def num(t, isint=False):
        if not isz(t):
            return int(t) if isint else float(t)
        k = str(t)
        if k not in val:
            mv = model.eval(t) if model is not None else None
            if isint:
                nice = {"integration_method": 1, "covariance_interpolation_method": 1, "interpolation": 3, "covariance_integration_bins": 4321}.get(k)
                if nice is None:
                    nice = 0 if k in FLAGS01 else rnd.randrange(100, 5000)
                    if k in ("flatsky_local_nonlocal", "b_derivative"):
                        nice = 1
                v = mv.as_signed_long() if mv is not None and z3.is_bv_value(mv) else nice
                if k == "interpolation" and v not in TYPES:
                    v = 3
                val[k] = v
                sub.append((t, z3.BitVecVal(v, 32)))
            else:
                mm = re.match(r"file of .* x\[(\d+)\]", k)
                nice = {"separations_min": 12.5, "separations_max": 90.25, "k_min": 1e-3, "k_max": 0.25, "window_size": 5.5}.get(k)
                if nice is None:
                    nice = 0.002 * (1 + int(mm.group(1))) ** 2 if mm else rnd.randrange(1, 1000) / 1024
                v = nice
                if mv is not None and z3.is_rational_value(mv):
                    v = float(Fraction(mv.numerator_as_long(), mv.denominator_as_long()))
                val[k] = v
                sub.append((t, z3.RealVal(str(Fraction(v)))))
        return val[k]
    d = os.path.join(repo.scratch(), "parse")
    os.makedirs(d, exist_ok=True)
    lines = ["%s = %d;" % (k, num(v, True)) for k, v in cfg.i.items()]
    fl = lambda x: repr(x) if "." in repr(x) or "e" in repr(x) else repr(x) + ".0"
    lines += ["%s = %s;" % (k, fl(num(v))) for k, v in cfg.d.items()]
    files = ["file of P(k)"] + ["file of " + b for b in cfg.reads]
    names = {}
    for i, f in enumerate(files):
        names[f] = os.path.join(d, "table%d.dat" % i)
        x, y = cfg.table(f)
        if (f == "file of P(k)" and not cfg.pkfile) or f == cfg.badfile:
            if os.path.exists(names[f]):
                os.unlink(names[f])
            [num(t) for t in x + y]
            continue
        with open(names[f], "w") as fo:
            fo.write("# table\n" + "".join("%s %s\n" % (fl(num(p)), fl(num(q))) for p, q in zip(x, y)))
    lines += ['%s = "%s";' % (k, names.get(v, v)) for k, v in cfg.s.items()]
    for k, v in cfg.a.items():
        lines.append("%s = [%s];" % (k, ", ".join(str(num(x, True)) if k == "multipoles" else fl(num(x)) for x in v)))
    for k, v in cfg.strings.items():
        if k not in cfg.absent:
            lines.append("%s = [%s];" % (k, ", ".join('"%s"' % x for x in v)))
    with open(os.path.join(d, "f.cfg"), "w") as fo:
        fo.write("\n".join(lines) + "\n")
    scal = [p for p in dflt if isinstance(p, str) and p not in ("power_spectrum", "galaxy_bias3", "galaxy_bias4")]
    code = [world.includes(), "static void tab(const char*n,coffe_interpolation*t){ printf(\"T %s %s\",n,t->spline->interp->type->name); for(size_t i=0;i<t->spline->size;++i) "
            "printf(\" %.17g %.17g\",t->spline->x[i],t->spline->y[i]); puts(\"\"); }\n"
            "int main(int argc,char**argv){ static coffe_parameters_t par; gsl_set_error_handler_off(); coffe_parser_init(argv[1],&par);\n"]
    for p in scal:
        code.append('printf("S %s %%.17g\\n",(double)par.%s);\n' % (p, p))
    for m in ARRP:
        code.append('printf("A %s"); for(size_t i=0;i<par.%s_len;++i) printf(" %%.17g",(double)par.%s[i]); puts("");\n'.replace("%s", m, 3).replace("%%", "%"))
    for m in BIASES + ["galaxy_bias3", "galaxy_bias4", "power_spectrum", "power_spectrum_norm"]:
        code.append('tab("%s",&par.%s);\n' % (m, m))
    code.append('printf("P %s %s\\n",par.output_path,par.output_prefix); printf("B"); for(size_t i=0;i<par.type_bg_len;++i) printf(" %s",par.type_bg[i]); puts(""); return 0; }\n')
    rc, out, err = world.run_c("".join(code), args=[os.path.join(d, "f.cfg")], cwd=d)
    ok = z3.simplify(z3.substitute(valid, *sub)) if sub else z3.simplify(valid)
    ok = z3.is_true(ok)
    setting = "settings: " + "; ".join(x.strip(";") for x in lines)[:1500]
    if rc < 0:
        return "the program crashes (signal %d). %s" % (-rc, setting)
    if not ok:
        return None if rc else "invalid settings are accepted. %s" % setting
    if rc:
        return "valid settings are refused: %s. %s" % (err.strip()[-200:], setting)
    W = Numbers()

    def want(t):
        if not isz(t):
            return float(t) if not (isinstance(t, int) and t >= 2 ** 31) else float(t - 2 ** 32)
        t = z3.simplify(z3.substitute(t, *sub))
        if z3.is_bv(t):
            return float(t.as_signed_long())
        return float(W.ev(t, r.ex, val, {}))
    same = lambda x, y: abs(x - y) <= 1e-9 * max(abs(y), 1e-12)
    for line in out.split("\n"):
        f = line.split()
        if not f:
            continue
        if f[0] == "S":
            w = want(leaf.get(f[1], dflt[f[1]]))
            if f[1] in ("nthreads",):
                continue
            if not same(float(f[2]), w):
                return "%s is %s instead of %s. %s" % (f[1], f[2], w, setting)
        elif f[0] == "A":
            w = [want(t) for t in arrs.get(f[1], darr[f[1]])]
            g = [float(x) for x in f[2:]]
            if len(w) != len(g) or not all(same(x, y) for x, y in zip(g, w)):
                return "%s is %s instead of %s. %s" % (f[1], g[:8], w[:8], setting)
        elif f[0] == "T":
            x, y, m = tabs.get(f[1]) or dflt[f[1]]
            w = [want(t) for p in zip(x, y) for t in p]
            g = [float(v) for v in f[3:]]
            if len(w) != len(g) or not all(same(p, q) for p, q in zip(g, w)):
                return "%s is tabulated as %s instead of %s. %s" % (f[1], g[:8], w[:8], setting)
            if f[2].split("-")[-1] != TYPES.get(int(want(m)), f[2]):
                return "%s is interpolated with %s instead of %s. %s" % (f[1], f[2], TYPES.get(int(want(m))), setting)
        elif f[0] == "P" and f[1:] != [cfg.s["output_path"], cfg.s["output_prefix"]]:
            return "output goes to %s. %s" % (f[1:], setting)
        elif f[0] == "B" and f[1:] != ([] if "output_background" in cfg.absent else cfg.bg):
            return "background output %s. %s" % (f[1:], setting)
    return None


def defaults_job(chk, M, L):
    """parameters before any settings are consistent with each other"""
    r = Parse(M, L, Cfg(2))
    ex = r.ex
    v, st = ex.call(r.e.st, "coffe_parse_default_parameters", [r.par])
    chk.use(ex)
    got, arrs = snapshot(r, st)
    bad = ["length of a default list"] if any(len(v) == 0 for v in arrs.values()) else []
    method = got["interp_method"]
    tabs = {b: r.tab(st, b) for b in BIASES + ["galaxy_bias3", "galaxy_bias4", "power_spectrum", "power_spectrum_norm"]}
    # constant biases: 1 for the galaxies, 0 for magnification and evolution
    eqs = [("Omega0_de", got["Omega0_de"], 1 - Fraction(got["Omega0_m"]) - Fraction(got["Omega0_gamma"])),
           ("Omega0_cdm", got["Omega0_cdm"], Fraction(got["Omega0_m"]) - Fraction(got["Omega0_baryon"]) - Fraction(got["Omega0_nu"]))]
    for b in tabs:
        if tabs[b] is None:
            bad.append("%s is not set" % b)
            continue
        x, y, m = tabs[b]
        if m != method:
            bad.append("%s is interpolated in another way" % b)
        if b.startswith("power"):
            q = tabs["power_spectrum"]
            eqs += [("%s x[%d]" % (b, i), p, w) for i, (p, w) in enumerate(zip(x, q[0] if q else []))] + [("%s y[%d]" % (b, i), p, w) for i, (p, w) in enumerate(zip(y, q[1] if q else []))]
            bad += ["%s is not a spectrum" % b] if len(x) < 2 or len(x) != len(tabs["power_spectrum"][0]) else []
        else:
            eqs += [("%s at z=%d" % (b, i), p, Fraction(i)) for i, p in enumerate(x)] + [("%s value" % b, p, Fraction(int(b.startswith("galaxy")))) for p in y]
            bad += ["%s does not reach z=10" % b] if len(x) != 11 else []
    q = z3.Or([toz(a) != toz(b) for _, a, b in eqs])
    if chk.solve([q]) != "unsat":
        bad.append("default %s" % [n for n, a, b in eqs if chk.solve([toz(a) != toz(b)]) != "unsat"][:5])
    if not bad:
        return chk.ok("defaults", "solver")
    code = [world.includes(), '''int main(void){ static coffe_parameters_t p; coffe_parse_default_parameters(&p); int bad=0;
#define CHECK(c) if(!(c)){ puts(#c); bad=1; }
CHECK(fabs(p.Omega0_de-(1-p.Omega0_m-p.Omega0_gamma))<1e-12) CHECK(fabs(p.Omega0_cdm-(p.Omega0_m-p.Omega0_baryon-p.Omega0_nu))<1e-12)
CHECK(p.power_spectrum.spline && p.power_spectrum_norm.spline && p.power_spectrum.spline->size==p.power_spectrum_norm.spline->size)
for(size_t i=0;i<p.power_spectrum.spline->size;++i){ CHECK(p.power_spectrum.spline->x[i]==p.power_spectrum_norm.spline->x[i] && p.power_spectrum.spline->y[i]==p.power_spectrum_norm.spline->y[i]) if(bad) return 1; }
''']
    for b in tabs:
        if not b.startswith("power"):
            code.append("CHECK(p.%s.spline && p.%s.spline->size==11) for(size_t i=0;i<11;++i){ CHECK(p.%s.spline->x[i]==i && p.%s.spline->y[i]==%d) }\n" % (b, b, b, b, int(b.startswith("galaxy"))))
    for m in ARRP:
        code.append("CHECK(p.%s_len>0)\n" % m)
    code.append("return bad; }\n")
    rc, out, err = world.run_c("".join(code))
    if rc:
        chk.violated("defaults", "%s. Compiled program: status %s, %s" % (bad[0], rc, out.strip()[:300]), "\n".join(bad))
    else:
        chk.undecide("defaults", "not reproduced: %s" % bad[:3])


def F03(chk):
    M, L = repo.module(), repo.Layout()
    chk.bounds.append("any numbers in the settings; lists of 2 numbers (3 multipoles); 3 separations; tables of 3 points; the listed combinations of files, contributions and missing settings")
    chk.assumptions += ["libconfig returns what the file holds", "coffe_init_spline stores the table it is given and interpolates with the method asked for"]
    chk.stubs |= {"libconfig", "read_2col (property F01)", "coffe_init_spline", "stdio", "string.h", "time"}
    cfgs = []
    B = BIASES
    for ot in (1, 2, 3, 4, 5):
        cfgs.append(Cfg(ot, contr=["den", "rsd"]))
        cfgs.append(Cfg(ot, reads=B, window=1, covm=2, contr=CONTR, bg=["D1"]))
        cfgs.append(Cfg(ot, reads=B[ot - 1:ot], covm=z3.BitVec("covariance_integration_method", 32), contr=[CONTR[ot - 1]], pkfile=False))
        cfgs.append(Cfg(ot, reads=B[::2] if ot % 2 else B[1::2], window=ot % 2, contr=[CONTR[ot + 4]], npk=4, lens={k: 1 + (len(k) + ot) % 2 for k in ("mu", "multipoles")}))
        cfgs.append(Cfg(ot, step=(10, 40, 10) if ot % 2 else (10, 45, 10), contr=["len", "g%d" % ot]))
    for n in (255, 256, 1000):
        c = Cfg(2)
        c.s["output_path"] = "d" * n
        c.label = "path of %d characters" % n
        cfgs.append(c)
    for x in ("interpolation", "output_background"):
        cfgs.append(Cfg(2, absent=[x], npk=6))
    cfgs.append(Cfg(2, absent=["read_" + b for b in B] + ["degree_" + b for b in B]))
    for x in sorted(REQUIRED):
        cfgs.append(Cfg(2, absent=[x], reads=["galaxy_bias2"] if x == "input_galaxy_bias2" else []))
    cfgs.append(Cfg(3, absent=["separations_sampling"]))
    for k, s in enumerate([(1, 2, Fraction(1, 8)), (5, 305, 100), (5, 305, 1000), (1, 2, Fraction(1, 10)), (1, 4, -1), (1, 4, 0), (4, 1, 1)]):
        cfgs.append(Cfg(1 + k % 3, step=s))
        cfgs[-1].label = "%s to %s by %s" % s
    cfgs.append(Cfg(2, step=(10, 40, 10)))
    cfgs[-1].i["separations_sampling"] = 3
    cfgs[-1].label = "step and sampling"
    for k in ("density1", "density2", "fsky", "pixelsize", "z_mean", "deltaz"):
        cfgs.append(Cfg(4, lens={k: 1}))
        cfgs[-1].label = k
    for k in ("density1", "density2", "fsky", "pixelsize", "zmin", "zmax"):
        cfgs.append(Cfg(5, lens={k: 3}))
        cfgs[-1].label = k
    cfgs.append(Cfg(3, lens={"z_min": 2, "z_max": 1}))
    cfgs[-1].label = "z_max"
    for b in (B if chk.tier == "thorough" else B[chk.seed % 2::2]):
        cfgs.append(Cfg(2, reads=B, badfile="file of " + b))
        cfgs[-1].label = "unreadable file of " + b
    parallel(chk, [("defaults", defaults_job, (M, L))] + [(c.describe(), parse_job, (M, L, c)) for c in cfgs])


# ------------------------------------------------------------ tables (F01)
class Source:
    """one text file to be read, byte by byte or line by line"""

    def __init__(self, ex, files, data, values):
        self.ex, self.files, self.data, self.values = ex, files, data, values
        self.pos = {}
        self.isopen = {}
        S = ex.stubs
        S.update({"fopen": self.fopen, "fclose": self.fclose, "fgetc": self.fgetc, "getc": self.fgetc, "_IO_getc": self.fgetc, "fseek": self.fseek, "rewind": self.rewind,
                  "ftell": self.ftell, "feof": self.feof, "ferror": s_nop(0), "fgets": self.fgets, "atof": self.atof, "strtod": self.strtod, "strspn": self.strspn,
                  "strcspn": self.strspn, "strpbrk": self.strpbrk, "isspace": self.isspace, "getline": self.getline, "ungetc": self.ungetc, "strlen": lambda e, s, a: (len(text_at(e, s, a[0])), s)})

    def fopen(self, ex, st, a):
        if text_at(ex, st, a[0]) != b"table.dat":
            return NULL, st
        p = ex.new_obj(st, "file", 216, "file")
        self.pos[p.o], self.isopen[p.o] = 0, True
        self.eof = False
        return p, st

    def f(self, st, p):
        if not isinstance(p, Ptr) or p.o not in self.pos:
            raise Unsupported("stream")
        if not self.isopen[p.o]:
            self.ex.event("closed", st, "use of a closed stream")
        return p.o

    def fclose(self, ex, st, a):
        self.isopen[self.f(st, a[0])] = False
        return 0, st

    def fgetc(self, ex, st, a):
        f = self.f(st, a[0])
        i = self.pos[f]
        if i >= len(self.data):
            self.eof = True
            return 0xFFFFFFFF, st
        self.pos[f] = i + 1
        return self.data[i], st

    def ungetc(self, ex, st, a):
        self.pos[self.f(st, a[1])] -= 1
        return a[0], st

    def fseek(self, ex, st, a):
        f = self.f(st, a[0])
        self.pos[f] = {0: 0, 1: self.pos[f], 2: len(self.data)}[a[2]] + symex.sgn(a[1], 64)
        self.eof = False
        return 0, st

    def rewind(self, ex, st, a):
        self.pos[self.f(st, a[0])] = 0
        self.eof = False
        return None, st

    def ftell(self, ex, st, a):
        return self.pos[self.f(st, a[0])], st

    def feof(self, ex, st, a):
        return int(self.eof), st

    def line(self, f, n=None):
        i = self.pos[f]
        j = self.data.find(b"\n", i)
        j = len(self.data) if j < 0 else j + 1
        if n is not None:
            j = min(j, i + n)
        if j == len(self.data) and not self.data[i:j].endswith(b"\n") and (n is None or j - i < n):
            self.eof = True
        self.pos[f] = j
        return self.data[i:j]

    def fgets(self, ex, st, a):
        s = self.line(self.f(st, a[2]), a[1] - 1)
        if not s:
            return NULL, st
        put_bytes(ex, st, a[0], s + b"\0")
        return a[0], st

    def getline(self, ex, st, a):
        s = self.line(self.f(st, a[2]))
        if not s:
            return 2 ** 64 - 1, st
        p = ex.new_obj(st, "line", len(s) + 1)
        put_bytes(ex, st, p, s + b"\0")
        ex.store(st, PTR, p, a[0])
        ex.store(st, INT(64), len(s) + 1, a[1])
        return len(s), st

    def number(self, s):
        m = re.match(rb"\s*([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)", s)
        if not m:
            return 0, Fraction(0)
        return m.end(), self.values.get(m.group(1), Fraction(m.group(1).decode()))

    def atof(self, ex, st, a):
        if isinstance(a[0], Undef) or (isinstance(a[0], Ptr) and a[0].o == 0):
            ex.event("null", st, "number read from a NULL string")
            return Fraction(0), st
        return self.number(text_at(ex, st, a[0]))[1], st

    def strtod(self, ex, st, a):
        n, v = self.number(text_at(ex, st, a[0]))
        if isinstance(a[1], Ptr) and a[1].o:
            ex.store(st, PTR, Ptr(a[0].o, a[0].off + n), a[1])
        return v, st

    def strspn(self, ex, st, a):
        raise Unsupported("span of a string")

    def strpbrk(self, ex, st, a):
        s, d = text_at(ex, st, a[0]), text_at(ex, st, a[1])
        k = [i for i, c in enumerate(s) if c in d]
        return (Ptr(a[0].o, a[0].off + k[0]) if k else NULL), st

    def isspace(self, ex, st, a):
        return int(a[0] in b" \t\n\v\f\r"), st


def span(inv):
    def f(ex, st, a):
        s, d = text_at(ex, st, a[0]), text_at(ex, st, a[1])
        i = 0
        while i < len(s) and (s[i] in d) != inv:
            i += 1
        return i, st
    return f


# kinds of lines: (text with %s for the numbers, is it a row)
KINDS = {"row": " ", "comma": ", ", "tab": "\t", "colon": " : ", "indented": None, "trailing": None, "comment": None, "blank": None, "long comment": None, "long row": None, "byte 255": None, "crlf": None, "tight": ",", "spaced comma": " , ", "blank crlf": None, "spaces": None}


def table_line(kind, toks):
    if kind == "comment":
        return "# k P 1.0 2.0", False
    if kind == "long comment":
        return "# " + "column 17.5 " * 40, False
    if kind == "byte 255":
        return "# \xff\xfe comment", False
    if kind in ("blank", "blank crlf", "spaces"):
        return {"blank": "", "blank crlf": "\r", "spaces": "  \t "}[kind], False
    if kind == "indented":
        return "   " + " ".join(toks), True
    if kind == "trailing":
        return " ".join(toks) + "  \t", True
    if kind == "long row":
        return " ".join(toks) + "  " + " " * 400, True
    if kind == "crlf":
        return " ".join(toks) + "\r", True
    return (KINDS[kind] or " ").join(toks), True


def table(kinds, cols, end, extra=0):
    """text and the rows (tokens) of a file"""
    text, rows, vals = [], [], {}
    for i, k in enumerate(kinds):
        toks = ["%d%d.%d25e-0%d" % (1 + i, j, i, j) for j in range(cols + extra)]
        t, isrow = table_line(k, toks)
        text.append(t)
        if isrow:
            rows.append(toks[:cols])
            for j, x in enumerate(toks):
                vals[x.encode()] = z3.Real("row %d column %d" % (len(rows), j + 1))
    data = "\n".join(text).encode("latin1")
    if end and text:
        data += b"\n"
    return data, rows, vals


READERS = {"read_1col": 1, "read_2col": 2, "coffe_read_ncol": 3}


def read_run(chk, M, reader, data, vals, cols):
    ex = Exec(M, {})
    Files(ex)
    Source(ex, None, data, vals)
    ex.stubs["strspn"], ex.stubs["strcspn"] = span(False), span(True)
    st = State()
    name = ex.new_obj(st, "file name", 10, "lib")
    put_str(ex, st, name, 0, "table.dat")
    outs = [ex.new_obj(st, "column", 8, "stack") for _ in range(cols)]
    ln = ex.new_obj(st, "length", 8, "stack")
    if reader == "coffe_read_ncol":
        v, st2 = ex.call(st, reader, [name, cols, ln] + outs + [NULL])
    else:
        v, st2 = ex.call(st, reader, [name] + outs + [ln])
    chk.use(ex)
    return ex, v, st2, outs, ln


def read_job(chk, M, reader, cols, layouts):
    """all layouts of one group; numbers are symbols"""
    for kinds, end, extra, short in layouts:
        what = "%s(%d): lines %s%s%s%s" % (reader, cols, ", ".join(kinds) or "none", "" if end else ", last line not terminated", ", more columns" if extra else "", ", a column missing" if short else "")
        data, rows, vals = table(kinds, cols, end, extra)
        if short:
            i = next(i for i, k in enumerate(kinds) if table_line(k, ["1"])[1])
            ls = data.split(b"\n")
            ls[i] = b"17.5"
            data = b"\n".join(ls)
        try:
            ex, v, st, outs, ln = read_run(chk, M, reader, data, vals, cols)
        except Unsupported as e:
            hit = native_read(reader, cols, data, [] if short else rows, short)
            if hit:
                return chk.violated(what, "%s. Compiled code: %s" % (e, hit), hit)
            raise
        bad, q = [], []
        for e in ex.events:
            if e.kind in ("null", "oob", "uaf", "wild", "closed", "doublefree", "badfree"):
                bad.append(repr(e)[:160])
        if short:
            if st is not None and not isz(v) and v == 0:
                bad.append("a line without enough columns is accepted")
        elif st is None or isz(v) or v != 0:
            bad.append("the file is refused")
        else:
            n = ex.load(st, INT(64), ln)
            if isz(n) or n != len(rows):
                bad.append("%s rows instead of %d" % (n, len(rows)))
            else:
                diff = []
                for j in range(cols):
                    p = ex.load(st, PTR, outs[j])
                    for i in range(n):
                        x = ex.load(st, DOUBLE_, Ptr(p.o, p.off + 8 * i))
                        w = vals[rows[i][j].encode()]
                        diff.append(toz(x) != w if not isinstance(x, Undef) else z3.BoolVal(True))
                if diff and chk.solve([z3.Or(diff)]) != "unsat":
                    bad.append("a number is not the one in the file")
        if not bad:
            chk.ok(what, "solver")
            continue
        hit = native_read(reader, cols, data, [] if short else rows, short)
        if hit:
            return chk.violated(what, "%s. Compiled code: %s" % (bad[0], hit), "\n".join(bad) + "\n" + hit + "\n" + repr(data))
        chk.undecide(what, "not reproduced: %s" % bad[0])


def native_read(reader, cols, data, rows, short):
    d = os.path.join(repo.scratch(), "read")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "table.dat"), "wb") as f:
        f.write(data)
    vs = ",".join("&v[%d]" % j for j in range(cols))
    call = 'coffe_read_ncol("table.dat",%d,&n,%s,(double**)0)' % (cols, vs) if reader == "coffe_read_ncol" else '%s("table.dat",%s,&n)' % (reader, vs)
    show = "file %r" % data[:300]
    try:
        rc, out, err = world.run_c(world.includes() + 'int main(void){ double*v[%d]; size_t n=77; int e=%s; printf("%%d %%zu\\n",e,n); if(!e) for(size_t i=0;i<n;++i){ for(int j=0;j<%d;++j) printf(" %%.17g",v[j][i]); puts(""); } return 0; }'
                                   % (cols, call, cols), cwd=d, timeout=20)
    except subprocess.TimeoutExpired:
        return "reading does not end with %s" % show
    if rc < 0:
        return "crash (signal %d) with %s" % (-rc, show)
    if rc:
        return None if short else "the program ends with %s" % show
    ls = out.split("\n")
    e, n = ls[0].split()
    if short:
        return "status 0 with %s" % show if e == "0" else None
    if e != "0" or int(n) != len(rows):
        return "status %s, %s rows with %s" % (e, n, show)
    for l, r in zip(ls[1:], rows):
        if [float(x) for x in l.split()] != [float(x) for x in r]:
            return "row %s instead of %s with %s" % (l, r, show)
    return None


WRITERS = {"write_1col": 1, "write_2col": 2, "write_ncol": None, "write_ncol_null": None, "write_matrix": None}


def write_job(chk, M, writer, cols, sep, header):
    """any number of rows up to 5"""
    what = "%s: %d columns, separator %r%s" % (writer, cols, sep, "" if header else ", no header")
    N = 5
    ex = Exec(M, {})
    F = Files(ex)
    n = z3.BitVec("rows", 64)
    rng = z3.ULE(n, N)
    ex.feas = z3.Solver()
    ex.feas.set("timeout", 5000)
    ex.feas.add(rng)
    st = State()

    def s(t):
        p = ex.new_obj(st, "string", len(t) + 1, "lib")
        put_str(ex, st, p, 0, t)
        return p
    X = [[z3.Real("row %d column %d" % (i + 1, j + 1)) for j in range(cols)] for i in range(N)]

    def vec(vals, nm):
        p = ex.new_obj(st, nm, 8 * len(vals), "heap")
        for i, x in enumerate(vals):
            st.w(p.o).cells[8 * i] = (8, x)
        return p
    C = [vec([X[i][j] for i in range(N)], "column") for j in range(cols)]
    name, hd = s("table.dat"), (s("# header\n") if writer != "write_matrix" else s("# header")) if header else NULL
    args = {"write_1col": lambda: [name, C[0], n, hd], "write_2col": lambda: [name, C[0], C[1], n, hd, s(sep)],
            "write_ncol": lambda: [cols, name, n, hd, s(sep)] + C, "write_ncol_null": lambda: [name, n, hd, s(sep)] + C + [NULL],
            "write_matrix": lambda: [name, vec([vec(r, "row") for r in X], "rows"), n, cols, hd, s(sep)]}[writer]()
    v, st = ex.call(st, writer, args)
    chk.use(ex)
    bad = []
    for e in ex.events:
        if e.kind in ("null", "oob", "uaf", "wild", "closed", "format", "doublefree", "badfree") and chk.solve([rng, g_true(e.g)]) != "unsat":
            bad.append(repr(e)[:160])
    if st is None or len(F.order) != 1 or not F.mode[F.order[0]].startswith("w") or F.path[F.order[0]] != "table.dat":
        bad.append("the file is not written")
    else:
        o = F.order[0]
        if st.mem[o].freed is None:
            bad.append("the file is not closed")
        ls = [(g, l) for g, l in F.lines(o) if l]
        head = [l for g, l in ls if isinstance(l[0], bytes) and l[0].startswith(b"#")]
        data = [(g, l) for g, l in ls if not (isinstance(l[0], bytes) and l[0].startswith(b"#"))]
        if bool(header) != (len(head) == 1):
            bad.append("header lines: %d" % len(head))
        if len(data) != N:
            bad.append("%d lines for %d rows" % (len(data), N))
        diff = []
        for i, (g, l) in enumerate(data[:N]):
            there = z3.ULT(z3.BitVecVal(i, 64), n)
            diff.append(g_true(g) != there)
            fs = [x for x in (F.fields([x.replace(sep.encode(), b" ") if isinstance(x, bytes) else x for x in l]) or [])]
            if len(fs) != cols or any(isinstance(x, bytes) for x in fs):
                bad.append("row %d has %d numbers instead of %d" % (i + 1, len(fs), cols))
                continue
            for x, w in zip(fs, X[i]):
                if x.conv not in "eEgG" or (6 if x.prec is None else x.prec) < (9 if x.conv in "eE" else 10):
                    bad.append("numbers printed with %%.%s%s" % (x.prec, x.conv))
                elif isz(x.v) and z3.is_bv(x.v):
                    bad.append("an integer is printed")
                else:
                    diff.append(z3.And(there, toz(x.v) != w))
        if chk.solve([rng, z3.Or(diff)]) != "unsat":
            bad.append("rows missing or wrong numbers")
    if not bad:
        return chk.ok(what, "solver: at most %d rows" % N)
    hit = native_write(writer, cols, sep, header)
    if hit:
        return chk.violated(what, "%s. Compiled code: %s" % (bad[0], hit), "\n".join(bad) + "\n" + hit)
    chk.undecide(what, "not reproduced: %s" % bad[0])


def native_write(writer, cols, sep, header):
    d = os.path.join(repo.scratch(), "write")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "table.dat")
    for n in (5, 3, 1):
        if os.path.exists(f):
            os.unlink(f)
        X = [[1.2345678901234 * (1 + i + 10 * j) for j in range(cols)] for i in range(n)]
        code = world.includes() + "int main(void){\n"
        for j in range(cols):
            code += "double c%d[]={%s};\n" % (j, ",".join("%.17g" % r[j] for r in X))
        for i in range(n):
            code += "double r%d[]={%s};\n" % (i, ",".join("%.17g" % x for x in X[i]))
        code += "const double*rows[]={%s};\n" % ",".join("r%d" % i for i in range(n))
        q = lambda t: '"%s"' % t.replace("\t", "\\t").replace("\n", "\\n")
        hd = q("# header" + ("" if writer == "write_matrix" else "\n")) if header else "NULL"
        cs = ",".join("c%d" % j for j in range(cols))
        code += {"write_1col": 'write_1col("table.dat",c0,%d,%s);' % (n, hd), "write_2col": 'write_2col("table.dat",c0,c1,%d,%s,%s);' % (n, hd, q(sep)) if cols > 1 else "",
                 "write_ncol": 'write_ncol(%d,"table.dat",%d,%s,%s,%s);' % (cols, n, hd, q(sep), cs), "write_ncol_null": 'write_ncol_null("table.dat",%d,%s,%s,%s,(double*)NULL);' % (n, hd, q(sep), cs),
                 "write_matrix": 'write_matrix("table.dat",rows,%d,%d,%s,%s);' % (n, cols, hd, q(sep))}[writer] + " return 0; }"
        rc, out, err = world.run_c(code, cwd=d)
        if rc:
            return "status %d for %d rows" % (rc, n)
        if not os.path.exists(f):
            return "no file"
        txt = open(f).read()
        ls = [x for x in txt.split("\n") if x.strip()]
        data = [x.replace(sep, " ").split() for x in ls if not x.startswith("#")]
        if len(ls) - len(data) != int(bool(header)):
            return "%d header lines" % (len(ls) - len(data))
        if len(data) != n or any(len(a) != cols or any(abs(float(p) - q_) > 1e-9 * abs(q_) for p, q_ in zip(a, b)) for a, b in zip(data, X)):
            return "%d rows of %d columns are written as %r" % (n, cols, txt[:300])
    return None


def F01(chk):
    import itertools
    M = repo.module()
    thorough = chk.tier == "thorough"
    depth = 4 if thorough else 3
    chk.bounds.append("files of up to %d lines (rows, comments, blank lines, over-long lines, every separator, last line terminated or not) holding any numbers; 1-3 columns; tables written with up to 5 rows (symbolic) and 1-4 columns" % (depth + 1))
    chk.assumptions += ["files can be opened, read and written; text of a number and the number correspond as in C's printf and atof"]
    chk.stubs |= {"stdio", "string.h", "atof"}
    kinds = list(KINDS)
    lay = [((), True, 0, False)]
    for d in range(1, depth + 1):
        for ks in itertools.product(kinds, repeat=d):
            for end in (True, False):
                lay.append((ks, end, 0, False))
    few = ["row", "comment", "blank", "tab"] if not thorough else ["row", "comment", "blank", "comma", "long comment", "trailing"]
    for ks in itertools.product(few, repeat=depth + 1):
        for end in (True, False):
            lay.append((ks, end, 0, False))
    # numbers beyond the columns asked for are ignored
    lay += [(ks, end, 1, False) for ks in itertools.product(("row", "comma", "comment"), repeat=2) for end in (True, False)]
    short = [(ks, end, 0, True) for ks in itertools.product(("row", "comment"), repeat=2) if "row" in ks for end in (True, False)]
    jobs = []
    for r, cols in (("read_1col", 1), ("read_2col", 2), ("coffe_read_ncol", 3), ("coffe_read_ncol", 2)):
        l = [x for x in lay if cols > 1 or x[2] == 0] + (short if cols > 1 else [])
        for k in range(4):
            jobs.append((r, read_job, (M, r, cols, l[k::4])))
    for w, c in WRITERS.items():
        for cols in ([c] if c else [1, 2, 3, 4]):
            for sep in (" ", "\t", ","):
                for h in (True, False):
                    jobs.append((w, write_job, (M, w, cols, sep, h)))
    parallel(chk, jobs)
