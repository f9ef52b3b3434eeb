"""Everything that touches /repo: (re)generates the LLVM IR of the current
working tree, struct layouts, and native objects for replaying."""
import atexit
import hashlib
import os
import re
import shutil
import subprocess
import tempfile

from irparse import Module

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CFILES = ["average_multipoles", "background", "common", "corrfunc", "covariance", "errors", "functions",
          "integrals", "multipoles", "output", "parser", "signal", "tanhsinh", "twobessel", "twofast", "utils"]
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="coffe-verif-")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def child():
    """a forked worker uses its own scratch directory"""
    global _scratch
    _scratch = tempfile.mkdtemp(prefix="coffe-verif-")


def child_done():
    shutil.rmtree(_scratch, True)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode:
        raise RuntimeError("command failed: %s\n%s\n%s" % (" ".join(cmd), r.stdout[-2000:], r.stderr[-4000:]))
    return r.stdout


def source_files():
    """the library's C files as the working tree has them (new files included, main.c left out)"""
    out = []
    for f in sorted(os.listdir(SRC)):
        if f.endswith(".c") and f != "main.c":
            out.append(f[:-2])
    return out


def omp_header():
    """directory with an omp.h for clang (the sandbox has only gcc's, which clang rejects)"""
    d = os.path.join(scratch(), "omp")
    if not os.path.isdir(d):
        os.makedirs(d)
        with open(os.path.join(d, "omp.h"), "w") as f:
            f.write("typedef int omp_lock_t;\n" + "".join("%s(%s);\n" % x for x in (
                ("int omp_get_thread_num", "void"), ("int omp_get_num_threads", "void"), ("int omp_get_max_threads", "void"),
                ("int omp_get_num_procs", "void"), ("int omp_in_parallel", "void"), ("void omp_set_num_threads", "int"),
                ("double omp_get_wtime", "void"), ("void omp_set_dynamic", "int"), ("void omp_set_nested", "int"))))
    return d


def ir_text(names, omp=False, defines=(), passes="sroa,mem2reg,simplifycfg,loop-simplify", cython=False):
    d = scratch()
    lls = []
    for n in names:
        o = os.path.join(d, "%s%s.ll" % (n, "_omp" if omp else ""))
        cmd = ["clang", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-ffp-contract=off",
               "-std=gnu99", "-w", "-I" + SRC, "-DNDEBUG", "-emit-llvm", "-S", os.path.join(SRC, n + ".c"), "-o", o]
        if omp:
            cmd[1:1] = ["-fopenmp", "-Wno-error=implicit-function-declaration", "-I" + omp_header()]
        if cython:
            cmd.insert(1, "-DCOFFE_CYTHON")
        for x in defines:
            cmd.insert(1, "-D" + x)
        run(cmd)
        lls.append(o)
    linked = os.path.join(d, "linked.ll")
    run(["llvm-link-18" if shutil.which("llvm-link-18") else "/usr/lib/llvm-18/bin/llvm-link", "-S", "-o", linked] + lls)
    out = os.path.join(d, "opt.ll")
    run([shutil.which("opt") or "/usr/lib/llvm-18/bin/opt", "-S", "-passes=" + passes, linked, "-o", out])
    with open(out) as f:
        return f.read()


def module(names=None, **kw):
    names = names or source_files()
    return Module().parse(ir_text(names, **kw))


# ------------------------------------------------------------------ layouts
class Layout:
    """name <-> offset of every struct of coffe's headers, from DWARF metadata"""

    def __init__(self):
        d = scratch()
        src = os.path.join(d, "layout.c")
        hs = sorted(f for f in os.listdir(SRC) if f.endswith(".h"))
        body = "#include <stddef.h>\n#include <stdint.h>\n#include <stdio.h>\n"
        first = [h for h in ("common.h", "background.h", "integrals.h") if h in hs]
        hs = first + [h for h in hs if h not in first and h != "compatibility.h"]
        for h in hs:
            body += '#include "%s"\n' % h
        names = set()
        for h in hs:
            t = open(os.path.join(SRC, h)).read()
            names.update(re.findall(r"typedef\s+struct\s+(\w+)", t))
            names.update(re.findall(r"^\s*struct\s+(\w+)\s*\{", t, re.M))
        names = sorted(names)
        en = set()
        for h in hs:
            en.update(re.findall(r"enum\s+(\w+)\s*\{", open(os.path.join(SRC, h)).read()))
        for n in sorted(en):
            body += "enum %s e_%s;\n" % (n, n)
        for n in names:
            body += "struct %s *g_%s;\n" % (n, n)
            body += "unsigned long s_%s = sizeof(struct %s);\n" % (n, n)
        open(src, "w").write(body)
        ll = os.path.join(d, "layout.ll")
        run(["clang", "-g", "-O0", "-w", "-std=gnu99", "-I" + SRC, "-emit-llvm", "-S", src, "-o", ll])
        self._parse(open(ll).read())

    def _parse(self, text):
        nodes = {}
        for m in re.finditer(r"^(!\d+) = (?:distinct )?!(\w*)(.*)$", text, re.M):
            nodes[m.group(1)] = (m.group(2), m.group(3))

        def attr(s, k):
            m = re.search(r"\b%s: (\"[^\"]*\"|![\d]+|[\w]+)" % k, s)
            return m.group(1).strip('"') if m else None

        def resolve(ref):
            while ref in nodes:
                kind, s = nodes[ref]
                if kind == "DIDerivedType" and attr(s, "tag") in ("DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type"):
                    ref = attr(s, "baseType")
                    if ref is None:
                        return None
                else:
                    return ref
            return None

        self.structs = {}
        self.sizes = {}
        self.enums = {}
        alias = {}
        for ref, (kind, s) in nodes.items():
            if kind == "DICompositeType" and attr(s, "tag") == "DW_TAG_enumeration_type":
                els = attr(s, "elements")
                if els in nodes:
                    for e in re.findall(r"!\d+", nodes[els][1]):
                        es = nodes[e][1]
                        self.enums[attr(es, "name")] = int(re.search(r"value: (-?\d+)", es).group(1))
            if kind == "DICompositeType" and attr(s, "tag") == "DW_TAG_structure_type":
                name = attr(s, "name")
                els = attr(s, "elements")
                if els is None or els not in nodes:
                    continue
                flds = []
                for e in re.findall(r"!\d+", nodes[els][1]):
                    k2, es = nodes[e]
                    if attr(es, "tag") != "DW_TAG_member":
                        continue
                    off = int(attr(es, "offset") or 0) // 8
                    bt = resolve(attr(es, "baseType"))
                    flds.append((attr(es, "name"), off, self._kind(nodes, bt, attr), bt))
                alias[ref] = (name, flds)
                if name:
                    self.sizes[name] = int(attr(s, "size") or 0) // 8
        for ref, (name, flds) in alias.items():
            if name is None:
                continue
            out = []
            for n, off, kind, bt in flds:
                if kind == "struct":
                    out.append((n, off, "struct", alias[bt][0] if bt in alias else None))
                else:
                    out.append((n, off, kind, None))
            self.structs[name] = out

    def _kind(self, nodes, ref, attr):
        if ref is None:
            return "void"
        kind, s = nodes[ref]
        if kind == "DIBasicType":
            return "%s%s" % (attr(s, "name"), "")
        tag = attr(s, "tag")
        if tag == "DW_TAG_pointer_type":
            return "ptr"
        if tag == "DW_TAG_structure_type":
            return "struct"
        if tag == "DW_TAG_array_type":
            return "array"
        if tag == "DW_TAG_enumeration_type":
            return "enum"
        return tag or kind

    def off(self, struct, path):
        o = 0
        for p in path.split("."):
            for n, off, kind, sub in self.structs[struct]:
                if n == p:
                    o += off
                    struct = sub
                    break
            else:
                raise KeyError(path)
        return o

    def path(self, struct, off):
        best = None
        for n, o, kind, sub in self.structs.get(struct, []):
            if o <= off and (best is None or o > best[1]):
                best = (n, o, kind, sub)
        if best is None:
            return "+%d" % off
        n, o, kind, sub = best
        if kind == "struct" and sub:
            return n + "." + self.path(sub, off - o)
        return n if o == off else "%s+%d" % (n, off - o)

    def leaves(self, struct, base=0, pre=""):
        for n, o, kind, sub in self.structs[struct]:
            if kind == "struct" and sub in self.structs:
                yield from self.leaves(sub, base + o, pre + n + ".")
            else:
                yield pre + n, base + o, kind


# ------------------------------------------------------------------ native replay
def native(harness, out, sources=None, extra=(), libs=("-lgsl", "-lgslcblas", "-lfftw3", "-lconfig", "-lm"), cflags=("-O1", "-g")):
    d = scratch()
    exe = os.path.join(d, out)
    srcs = [os.path.join(SRC, s + ".c") for s in (sources if sources is not None else source_files())]
    run(["gcc", "-std=gnu99", "-w", *cflags, "-fopenmp", "-I" + SRC, "-o", exe, harness, *srcs, *extra, *libs])
    return exe
