"""Models of the C functions the Python layer calls, arbitrary start states, and read sets of the C modules."""
import os
import re

import z3

import pysym as P
import repo
import world

PRODUCTS = {"_background": "flag", "_integral": "size", "_corrfunc": "size", "_multipoles": "size", "_average_multipoles": "size",
            "_covariance_multipoles": "size", "_average_covariance_multipoles": "size"}
# what each module of the library is built from
UPSTREAM = {"_background": (), "_power": (), "_integral": ("_background", "_power"), "_corrfunc": ("_background", "_integral"),
            "_multipoles": ("_background", "_integral"), "_average_multipoles": ("_background", "_integral"),
            "_covariance_multipoles": ("_background", "_power"), "_average_covariance_multipoles": ("_background", "_power")}
ENTRY = {"_background": "coffe_background_init", "_integral": "coffe_integrals_init", "_corrfunc": "coffe_corrfunc_init",
         "_multipoles": "coffe_multipoles_init", "_average_multipoles": "coffe_average_multipoles_init",
         "_covariance_multipoles": "coffe_covariance_init", "_average_covariance_multipoles": "coffe_covariance_init"}
FREE = {"_background": "coffe_background_free", "_integral": "coffe_integrals_free", "_corrfunc": "coffe_corrfunc_free",
        "_multipoles": "coffe_multipoles_free", "_average_multipoles": "coffe_average_multipoles_free",
        "_covariance_multipoles": "coffe_covariance_free", "_average_covariance_multipoles": "coffe_average_covariance_free"}
ELEM = {"_integral": "coffe_integral_t", "_corrfunc": "coffe_corrfunc_t", "_multipoles": "coffe_multipoles_t",
        "_average_multipoles": "coffe_average_multipoles_t", "_covariance_multipoles": "coffe_covariance_t",
        "_average_covariance_multipoles": "coffe_average_covariance_t"}
# printing, parallelism, and the selector the covariance entry points set for the duration of the call
EXEMPT = {"verbose", "nthreads", "output_type", "has_class", "has_cuba"}
# read only to fill the bias fit coefficients, which no product reads (checked), or by the other kind of covariance
INERT = {"_background": {"flatsky_nonlocal", "z_mean", "sep", "galaxy_bias1", "galaxy_bias2", "degree_galaxy_bias1", "degree_galaxy_bias2",
                         "degree_magnification_bias1", "degree_magnification_bias2", "degree_evolution_bias1", "degree_evolution_bias2"},
         "_covariance_multipoles": {"zmin", "zmax"}, "_average_covariance_multipoles": {"z_mean", "deltaz"}}
# inputs of the power spectrum computed on demand (CLASS), as documented
CLASS_INPUT = ["Omega0_m", "Omega0_cdm", "Omega0_baryon", "Omega0_nu", "h", "n_s", "sigma8", "A_s", "T_cmb", "N_ur", "m_ncdm", "N_ncdm",
               "YHe", "w0", "wa", "k_min", "k_max", "pk_type", "class_precision.k_per_decade_for_bao", "class_precision.k_per_decade_for_pk",
               "class_precision.start_large_k_at_tau_h_over_tau_k", "class_precision.l_max_g", "class_precision.l_max_ur",
               "class_precision.tol_perturb_integration", "class_precision.radiation_streaming_trigger_tau_over_tau_k",
               "class_precision.ur_fluid_trigger_tau_over_tau_k"]
STRINGS = ("type_bg",)
ENUM = {"integration_1d_type": (1, 2), "covariance_integration_method": (1, 2), "covariance_interpolation_method": (1, 2),
        "pk_type": (0, 1, 2, 3), "interp_method": None}


def closures(M, lay, cf):
    """direct and transitive read sets of every product"""
    lay.elem = ELEM
    cf.direct, seen, cf.bgreads = {"_power": set(CLASS_INPUT)}, {}, {}
    for a, f in ENTRY.items():
        r, s = reads(M, f, lay)
        seen[a] = s
        d = set()
        cf.bgreads[a] = {p for p in r if p.startswith("bg:")}
        for p in r - cf.bgreads[a]:
            q = p.rsplit(".", 1)[0] if p.endswith((".spline", ".accel", ".xaccel", ".yaccel")) else p
            q = q[:-4] if q.endswith("_len") else q
            if "_coefficients." not in q:
                d.add(q)
        cf.direct[a] = d - INERT.get(a, set())
        if a == "_background" and any(k.split(".")[0].endswith("_coefficients") for b, f in ENTRY.items() if b != a for k in reads(M, f, lay)[0]):
            cf.direct[a] = d
    # B01 decides that the magnification and evolution bias enter the background through G1 and G2 only
    bias = {k for k in cf.direct["_background"] if k.startswith(("magnification_bias", "evolution_bias"))}
    cf.closure, cf.noclass = {}, {}
    for k in ("_background", "_power", "_integral", "_corrfunc", "_multipoles", "_average_multipoles", "_covariance_multipoles",
              "_average_covariance_multipoles"):
        drop = set()
        if k not in ("_background", "_power") and not (cf.bgreads[k] & {"bg:G1", "bg:G2"}):
            drop = bias
        cf.closure[k] = set(cf.direct[k]).union(*[cf.closure[u] - drop for u in UPSTREAM[k]])
        cf.noclass[k] = set(() if k == "_power" else cf.direct[k]).union(*[cf.noclass[u] - drop for u in UPSTREAM[k]])
    return seen


def reads(M, fname, lay):
    """settings an address of which is formed in any function reachable from fname; those functions"""
    leaves = [(p, o) for p, o, k in lay.leaves("coffe_parameters_t")]
    top = [n for n, o, k, sub in lay.structs["coffe_parameters_t"]]
    names = {n: sub for n, o, k, sub in lay.structs["coffe_parameters_t"] if k == "struct"}
    bgm = [n for n, o, k, sub in lay.structs["coffe_background_t"]]
    seen, todo, out = set(), [fname], set()

    def refs(v):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == "g":
                n = str(v[1]).lstrip("@")
                if n in M.funcs:
                    todo.append(n)
            for w in v:
                refs(w)
        elif isinstance(v, (list, dict)):
            for w in (v.values() if isinstance(v, dict) else v):
                refs(w)
        elif isinstance(v, str) and v.startswith("@") and v[1:] in M.funcs:
            todo.append(v[1:])
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        for b in M.funcs[f].blocks.values():
            for i in b:
                refs(i.a)
                refs(i.x)
                if i.op == "getelementptr" and str(i.ty) == "%struct.coffe_background_t":
                    ok = len(i.x) > 1 and i.x[1][1][0] == "c"
                    out.update("bg:" + m for m in ([bgm[i.x[1][1][1]]] if ok else bgm))
                if i.op == "getelementptr" and str(i.ty) == "%struct.coffe_parameters_t":
                    if len(i.x) < 2 or i.x[1][1][0] != "c":
                        out.update(p for p, o in leaves)
                        continue
                    m = top[i.x[1][1][1]]
                    nested = names.get(m)
                    rest = None
                    if nested and len(i.x) == 2:
                        # the only uses of the address select one member each
                        uses = [j for bb in M.funcs[f].blocks.values() for j in bb if j is not i and mentions((j.a, j.x), i.dst)]
                        sel = [j.x[1][1][1] for j in uses if j.op == "getelementptr" and str(j.ty) == "%struct." + nested
                               and len(j.x) == 2 and j.x[1][1][0] == "c"]
                        if len(sel) == len(uses):
                            rest = {lay.structs[nested][k][0] for k in sel}
                    out.update(p for p, o in leaves if p == m or (p.startswith(m + ".") and (rest is None or p.split(".")[1] in rest)))
    return out, seen


def mentions(v, dst):
    if isinstance(v, (tuple, list)):
        return any(mentions(w, dst) for w in v)
    if isinstance(v, dict):
        return any(mentions(w, dst) for w in v.values())
    return isinstance(v, str) and v == dst


class CFun:
    def __init__(self, lay):
        self.lay = lay
        self.snap = {}
        self.faults = []
        self.modes = []         # (function, output type selected, kind of output requested)
        self.aborts = []
        self.events = []
        self.n = 0
        self.defaults = None
        self.sizes = {}
        self.order = []

    def malloc(self, n):
        return P.Buf(n)

    coffe_malloc = malloc

    def free(self, p):
        if isinstance(p, P.Null):
            return
        if not isinstance(p, P.Buf):
            raise P.Unsupported("free of a non-pointer")
        if p.freed:
            self.faults.append("double free")
        p.freed = True

    def new_spline(self, name="s", xs=None, ys=None, size=None):
        self.n += 1
        return P.Spline("%s#%d" % (name, self.n), xs, ys, size)

    # ------------------------------------------------------------ functions
    def __getattr__(self, name):
        if name in self.lay.enums:
            return self.lay.enums[name]
        for pat, f in ((r"coffe_(\w+)_init$", self.init), (r"coffe_(\w+)_free$", self.release)):
            if re.match(pat, name):
                return lambda *a, f=f, name=name: f(name, *a)
        raise P.Unsupported("C function " + name)

    def coffe_parse_default_parameters(self, par):
        if self.defaults is None:
            raise P.Unsupported("defaults")
        self.defaults(par)
        return 0

    def coffe_parameters_free(self, par):
        self.events.append(("free", "_parameters"))
        return 0

    def coffe_free_spline(self, it):
        if not isinstance(it, P.Interp):
            raise P.Unsupported("coffe_free_spline")
        it.spline = P.NULL
        return 0

    coffe_free_spline2d = coffe_free_spline

    def coffe_new_spline(self, it):
        it.spline = P.NULL
        return 0

    def coffe_init_spline(self, it, x, y, n, method):
        n = P.CUR.value_of(n.t) if isinstance(n, P.SymNum) else n
        xs, ys = [x[i] for i in range(n)], [y[i] for i in range(n)]
        if n < 5:
            self.aborts.append(("the interpolation library ends the process: %d points" % n, z3.BoolVal(True)))
        elif n > 1:
            self.aborts.append(("the interpolation library ends the process: abscissae do not increase strictly",
                                z3.Or(*[P.term(a, True) >= P.term(b, True) for a, b in zip(xs, xs[1:])])))
        it.spline = self.new_spline(it.name.split(".")[-1], xs, ys)
        it.spline.method = method
        return 0

    def coffe_interp_spline(self, it, x):
        it = it.get() if isinstance(it, P.Ref) else it
        if not isinstance(it, P.Interp):
            raise P.Unsupported("coffe_interp_spline")
        own = getattr(it, "parent", None)
        if own is not None and getattr(own, "_owner", None) is not None:
            o = own._owner
            if own is o._background:
                self.use(o, "_background", "coffe_interp_spline(%s)" % it.name)
            elif it in (o._parameters.power_spectrum, o._parameters.power_spectrum_norm):
                self.use(o, "_power", "coffe_interp_spline(%s)" % it.name)
        self.events.append(("eval", it.name))
        if isinstance(it.spline, P.Null):
            self.faults.append("evaluation of a spline that is not set (%s)" % it.name)
            raise P.Unsupported("FAULT spline %s not set" % it.name)
        return it.spline(P.conv("double", x))

    def coffe_interp_spline2d(self, it, x, y):
        f = z3.Function("spline2d_" + it.name, z3.RealSort(), z3.RealSort(), z3.RealSort())
        return P.SymNum(f(P.term(x, True), P.term(y, True)), "float")

    def gsl_set_error_handler_off(self):
        self.events.append(("handler", "off"))
        return "handler"

    def gsl_set_error_handler(self, h):
        self.events.append(("handler", h))
        return P.NULL

    def parse_external_power_spectrum(self, par):
        for n in ("power_spectrum", "power_spectrum_norm"):
            par.get(n).spline = self.new_spline(n)
        obj = par._owner
        par.__dict__["_origin_user"] = z3.BoolVal(False)
        self.take(obj, "_power")
        self.events.append(("power",))
        return 0

    def coffe_find_integral(self, arr, n, l, sn, sl):
        nm = "integral(%s,%s)" % (n, l) if not any(isinstance(v, P.SymNum) for v in (n, l)) else "integral(%s,%s)" % (
            *(P.CUR.value_of(v.t) if isinstance(v, P.SymNum) else v for v in (n, l)),)
        self.use(arr._owner, "_integral", "coffe_find_integral")
        self.events.append(("find", nm))

        class R:
            pass
        r = R()
        r.result = P.Interp(nm)
        r.result.spline = P.Spline(nm, size=10)
        r.result2d = P.Interp(nm + "2d")
        return r

    def coffe_integrate(self, par, bg, integral, zm, zlo, zhi, sep, mu, l, part, out):
        self.use(par._owner, "_background", "coffe_integrate")
        self.use(par._owner, "_integral", "coffe_integrate")
        if bg is not par._owner._background or integral is not par._owner._integral:
            raise P.Unsupported("arguments of coffe_integrate")
        args = tuple(P.conv("double", v) for v in (zm, zlo, zhi, sep, mu)) + (l, part, out)
        self.modes.append(("coffe_integrate", par.output_type, out))
        self.events.append(("integrate", args))
        f = z3.Function("part_%s_%s" % (part, out), *([z3.RealSort()] * 5), z3.IntSort(), z3.RealSort())
        return P.SymNum(f(*[P.term(a, True) for a in args[:5]], P.term(P.conv("int", l))), "float")

    # ------------------------------------------------------------- products
    def valid(self, obj, attr):
        if attr == "_power":
            return obj._power_spectrum_flag
        return getattr(getattr(obj, attr), PRODUCTS[attr])

    def use(self, obj, attr, who):
        """product read by a C function: it must have been computed"""
        if not bool(self.valid(obj, attr) != 0):
            self.faults.append("%s reads %s, which has not been computed" % (who, attr[1:]))

    def take(self, obj, attr):
        s = settings(obj._parameters)
        snap = {k: [v] for k, v in s.items() if k in self.direct[attr]}
        for u in UPSTREAM[attr]:
            for k, vs in self.snap.get((id(obj), u), {}).items():
                if k not in self.closure[attr]:
                    continue
                snap.setdefault(k, []).extend(v for v in vs if not any(v is w for w in snap[k]))
        self.snap[id(obj), attr] = snap
        self.order.append(attr)

    def stale(self, obj, attr):
        """z3 conditions, per setting, that the product differs from what the current settings give (if valid)"""
        s = settings(obj._parameters)
        out = []
        origin = obj._parameters.__dict__.get("_origin_user", z3.BoolVal(False))
        for k, vs in self.snap.get((id(obj), attr), {}).items():
            if k in EXEMPT or k not in s:
                continue
            cs = [c for c in (ne(v, s[k]) for v in vs) if not z3.is_false(c)]
            if not cs:
                continue
            c = z3.Or(*cs)
            if k not in self.noclass[attr]:
                c = z3.And(z3.Not(origin), c)
            c = z3.simplify(c)
            if not z3.is_false(c):
                out.append((k, c))
        return out

    def init(self, name, par, *rest):
        obj = par._owner
        byid = {id(getattr(obj, a)): a for a in PRODUCTS}
        structs = [byid.get(id(r)) for r in rest]
        if None in structs or par is not obj._parameters:
            raise P.Unsupported("arguments of " + name)
        e = self.lay.enums
        self.modes.append((name, par.output_type, {"coffe_corrfunc_init": e["CORRFUNC"], "coffe_multipoles_init": e["MULTIPOLES"],
                                                   "coffe_average_multipoles_init": e["AVERAGE_MULTIPOLES"]}.get(name)))
        outs = [structs[-1]]
        if name == "coffe_covariance_init":
            t = par.output_type
            e = self.lay.enums
            if isinstance(t, P.SymNum):
                raise P.Unsupported("output type")
            if t == e["COVARIANCE_MULTIPOLES"]:
                outs = [structs[-2]]
            elif t == e["COVARIANCE_AVERAGE_MULTIPOLES"]:
                outs = [structs[-1]]
            else:
                outs = []
                self.faults.append("covariance requested while another output type is selected")
        for o in outs:
            if ENTRY[o] != name:
                raise P.Unsupported("%s computes %s" % (name, o))
            for u in UPSTREAM[o]:
                if u == "_power" and not (self.direct[o] & {"power_spectrum", "power_spectrum_norm"}):
                    continue
                self.use(obj, u, name)
            self.take(obj, o)
            st = getattr(obj, o)
            if PRODUCTS[o] == "flag":
                st.flag = 1
                for n, k in list(st._k.items()):
                    if k == "interp":
                        st._f[n].spline = self.new_spline(n)
            else:
                n = self.sizes.get(o, 2)
                st.size = n
                st.array = self.mkarray(o, n, "new%d" % len(self.order))
        self.events.append(("init", name, tuple(outs)))
        return 0

    def mkarray(self, attr, n, tag):
        sname = self.lay.elem[attr]
        b = P.Buf(n * self.lay.sizes[sname], self.lay.sizes[sname])
        b.ctype = "struct"
        for i in range(n):
            c = P.CStruct(self.lay, sname, "%s%s[%d]" % (tag, attr, i))
            key = os.getpid(), tag, attr, i
            if key not in _elems:
                sets, cs = [], []
                for p, k, v in list(c.leaves()):
                    nm = "%s%s_%d_%s" % (tag, attr, i, p.replace(".", "_"))
                    if k in ("double", "float"):
                        sets.append((p, P.SymNum(z3.Real(nm), "float")))
                    elif k in ("int", "enum", "size_t", "long"):
                        sets.append((p, P.SymNum(z3.Int(nm), "int")))
                        cs.append(z3.And(z3.Int(nm) >= 0, z3.Int(nm) < 10))
                _elems[key] = sets, z3.And(*cs)
            sets, con = _elems[key]
            for p, v in sets:
                c.put(p, v)
            P.CUR.add(con)
            b.data[i] = c
        return b

    def release(self, name, st):
        obj = st._owner
        byid = {id(getattr(obj, a)): a for a in PRODUCTS}
        a = byid.get(id(st))
        if a is None or name != FREE[a]:
            raise P.Unsupported(name)
        setattr(st, PRODUCTS[a], 0)
        if PRODUCTS[a] == "size":
            st.array = P.NULL
        else:
            for n, k in list(st._k.items()):
                if k == "interp":
                    st._f[n].spline = P.NULL
        self.snap.pop((id(obj), a), None)
        self.events.append(("free", a))
        return 0


def lens(par):
    """pointer fields with a companion length field"""
    ks = {p: k for p, k, v in par.leaves()}
    return {p: p + "_len" for p, k in ks.items() if k == "ptr" and p + "_len" in ks and p not in STRINGS}


def settings(par):
    """effective settings: name -> tuple of terms / identities"""
    out = {}
    ln = lens(par)
    for p, k, v in par.leaves():
        if k == "ptr":
            if p in ln:
                n = par.get(ln[p])
                n = P.CUR.value_of(n.t) if isinstance(n, P.SymNum) else n
                if n and v.freed:
                    raise P.Unsupported("FAULT %s points to freed memory" % p)
                out[p] = ("list",) + tuple(v[i] for i in range(n))
        elif k == "interp":
            out[p] = ("spline", v.spline.name if isinstance(v.spline, P.Spline) else None)
        elif p.endswith("_len") and p[:-4] in ln:
            continue
        elif v is not None and P.isnum(v):
            out[p] = ("num", v)
    return out


def ne(a, b):
    """z3 condition: two effective settings differ"""
    if a is b:
        return z3.BoolVal(False)
    if a[0] == "spline" or len(a) != len(b):
        return z3.BoolVal(a != b)
    cs = []
    for x, y in zip(a[1:], b[1:]):
        if x is y or (isinstance(x, P.SymNum) and isinstance(y, P.SymNum) and x.t.eq(y.t)):
            continue
        real = any((isinstance(v, P.SymNum) and v.kind == "float") or isinstance(v, float) for v in (x, y))
        cs.append(P.term(x, real) != P.term(y, real))
    return z3.simplify(z3.Or(*cs)) if cs else z3.BoolVal(False)


class Acc:
    """collects constraints"""

    def __init__(self):
        self.c = []

    def add(self, c):
        self.c.append(c)


_arb = {}
_elems = {}


def arbitrary(p, par, cf, lists=None, nodes=3):
    """an arbitrary value for every setting (array lengths as given, default 2)"""
    key = (os.getpid(), nodes, tuple(sorted((lists or {}).items())))
    if key not in _arb:
        a = Acc()
        sets = []
        _arbitrary(a, par, cf, lists, nodes, lambda path, v: sets.append((path, v)))
        _arb[key] = z3.And(*a.c), sets
    con, sets = _arb[key]
    p.add(con)
    for path, v in sets:
        if isinstance(v, tuple):
            if v[0] == "buf":
                b = P.Buf(v[1], v[2], dict(v[4]))
                b.ctype = v[3]
                par.put(path, b)
            else:
                par.get(path).spline = P.NULL if v[1] is None else P.Spline(v[1], list(v[2]), list(v[3]))
        else:
            par.put(path, v)


def _arbitrary(p, par, cf, lists, nodes, put):
    ln = lens(par)
    skip = set(ln.values())
    for path, k, _ in list(par.leaves()):
        if path in skip:
            continue
        nm = path.replace(".", "_")
        if k == "ptr":
            if path in ln:
                n = (lists or {}).get(path, 2)
                put(ln[path], n)
                if n == 0:
                    put(path, P.NULL)
                    continue
                integer = path == "multipole_values"
                data = {}
                for i in range(n):
                    data[i] = P.SymNum(z3.Int("%s_%d" % (nm, i)), "int") if integer else P.SymNum(z3.Real("%s_%d" % (nm, i)), "float")
                    if integer:
                        p.add(z3.And(data[i].t >= 0, data[i].t < 10))
                put(path, ("buf", n * (4 if integer else 8), 4 if integer else 8, "int" if integer else "double", data))
            else:
                put(path, P.NULL)
        elif k == "interp":
            xs = [P.SymNum(z3.Real("%s_x%d" % (nm, i)), "float") for i in range(nodes)]
            ys = [P.SymNum(z3.Real("%s_y%d" % (nm, i)), "float") for i in range(nodes)]
            for a, b in zip(xs, xs[1:]):
                p.add(a.t < b.t)
            p.add(xs[0].t >= 0)
            p.add(xs[-1].t <= 15)
            put(path, ("spline", None if nm in ("power_spectrum2d", "power_spectrum2d_norm") else nm, xs, ys))
        elif k in ("double", "float"):
            put(path, P.SymNum(z3.Real(nm), "float"))
        elif k in ("int", "enum", "size_t", "long"):
            t = z3.Int(nm)
            put(path, P.SymNum(t, "int"))
            p.add(z3.And(t >= 0 if k == "size_t" else t >= -2**31, t <= 2**31 - 1))
            last = path.split(".")[-1]
            if last in ENUM and ENUM[last]:
                p.add(z3.Or(*[t == v for v in ENUM[last]]))
            elif path.startswith("correlation_contrib.") or last.startswith("flatsky") or last in (
                    "only_cross_correlations", "covariance_cosmic", "covariance_mixed", "covariance_poisson", "covariance_window", "verbose",
                    "divergent", "has_class", "has_cuba"):
                p.add(z3.And(t >= 0, t <= 1))
            elif last.startswith("covariance_pop"):
                p.add(z3.And(t >= 1, t <= 4))
            elif last.endswith("_bins"):
                p.add(t >= 0)
                p.add(t <= (1000000 if last in ("bessel_bins", "covariance_integration_bins") else 2147483647))
            elif last == "output_type":
                p.add(z3.And(t >= 1, t <= 5))


# ---------------------------------------------------------------- defaults
def default_values(lay):
    """values coffe_parse_default_parameters sets, from a native run"""
    lines = []
    ln = {}
    ks = {}
    for path, off, kind in lay.leaves("coffe_parameters_t"):
        ks[path] = kind
    for path, kind in ks.items():
        if kind == "ptr" and path + "_len" in ks and path not in STRINGS:
            ln[path] = path + "_len"
    for path, kind in ks.items():
        if kind in ("int", "enum"):
            lines.append('printf("%s I %%d\\n", (int)p.%s);' % (path, path))
        elif kind == "unsigned long":
            lines.append('printf("%s U %%zu\\n", (size_t)p.%s);' % (path, path))
        elif kind in ("double", "float"):
            lines.append('printf("%s D %%.17g\\n", (double)p.%s);' % (path, path))
    for a, l in ln.items():
        lines.append('printf("%s L"); for (size_t i = 0; i < p.%s; ++i) printf(" %%.17g", (double)p.%s[i]); printf("\\n");' % (a, l, a))
    for n, o, kind, sub in lay.structs["coffe_parameters_t"]:
        if kind == "struct" and sub == "coffe_interpolation":
            lines.append('printf("%s S"); if (p.%s.spline) for (size_t i = 0; i < p.%s.spline->size; ++i) printf(" %%.17g %%.17g", '
                         'p.%s.spline->x[i], p.%s.spline->y[i]); printf("\\n");' % (n, n, n, n, n))
    code = world.includes() + "\nint coffe_parse_default_parameters(coffe_parameters_t *);\nint main(void){ static coffe_parameters_t p; memset(&p, 0, sizeof(p)); coffe_parse_default_parameters(&p);\n" + "\n".join(lines) + "\nreturn 0; }\n"
    rc, out, err = world.run_c(code)
    if rc:
        raise RuntimeError("defaults: " + err[:300])
    vals = {}
    for l in out.split("\n"):
        f = l.split()
        if len(f) < 2:
            continue
        if f[1] == "I" or f[1] == "U":
            vals[f[0]] = int(f[2])
        elif f[1] == "D":
            vals[f[0]] = float(f[2])
        elif f[1] == "L":
            v = [float(x) for x in f[2:]]
            vals[f[0]] = [int(x) for x in v] if f[0] == "multipole_values" else v
        elif f[1] == "S":
            v = [float(x) for x in f[2:]]
            vals[f[0]] = ("S", v[::2], v[1::2])
    return vals


def put_defaults(vals, cf):
    def f(par):
        for path, k, _ in list(par.leaves()):
            v = vals.get(path)
            if k == "ptr":
                if isinstance(v, list):
                    if not v:
                        par.put(path, P.NULL)
                        continue
                    integer = path == "multipole_values"
                    b = P.Buf(len(v) * (4 if integer else 8), 4 if integer else 8, dict(enumerate(v)))
                    b.ctype = "int" if integer else "double"
                    par.put(path, b)
                else:
                    par.put(path, P.NULL)
            elif k == "interp":
                if isinstance(v, tuple) and v[1]:
                    par.get(path).spline = cf.new_spline(path, v[1], v[2])
                else:
                    par.get(path).spline = P.NULL
            elif v is not None:
                par.put(path, v)
    return f


# ----------------------------------------------------- the real extension
STUB = r"""
#include <stdlib.h>
#include <math.h>
#include "common.h"
/* stands in for CLASS: a smooth spectrum that depends on the parameters CLASS reads */
int parse_external_power_spectrum(coffe_parameters_t *par)
{
    size_t n = 300;
    double *k = malloc(n * sizeof(double)), *p = malloc(n * sizeof(double));
    double lo = par->k_min, hi = par->k_max;
    double x = par->Omega0_m + 1.3 * par->Omega0_cdm + 0.7 * par->Omega0_baryon + 3 * par->Omega0_nu + par->h + par->n_s + par->sigma8
        + 1e7 * par->A_s + 0.1 * par->T_cmb + 0.2 * par->N_ur + 0.3 * par->m_ncdm + 0.05 * par->N_ncdm + 0.4 * par->YHe - 0.3 * par->w0
        + 0.2 * par->wa + 0.15 * (int)par->pk_type + 1e-3 * par->class_precision.k_per_decade_for_bao
        + 1e-3 * par->class_precision.k_per_decade_for_pk + par->class_precision.start_large_k_at_tau_h_over_tau_k
        + 1e-3 * par->class_precision.l_max_g + 1e-3 * par->class_precision.l_max_ur + 1e3 * par->class_precision.tol_perturb_integration
        + 1e-3 * par->class_precision.radiation_streaming_trigger_tau_over_tau_k + 1e-3 * par->class_precision.ur_fluid_trigger_tau_over_tau_k;
    for (size_t i = 0; i < n; ++i){
        k[i] = lo * pow(hi / lo, (double)i / (n - 1));
        if (i == n - 1) k[i] = hi;
        double q = k[i] / 0.02;
        p[i] = 1e4 * (1 + x) * q / (1 + q * q * q) / (1 + q);
    }
    coffe_init_spline(&par->power_spectrum, k, p, n, par->interp_method);
    coffe_init_spline(&par->power_spectrum_norm, k, p, n, par->interp_method);
    par->k_min_norm = k[0];
    par->k_max_norm = k[n - 1];
    free(k);
    free(p);
    return 0;
}
"""
_built = {}
VENV = "/opt/coffe-venv/bin/"


def extension(stub=True):
    """build the extension module of the current tree; returns the directory to put on PYTHONPATH"""
    if stub in _built:
        return _built[stub]
    import shutil
    import subprocess
    d = os.path.join(repo.scratch(), "ext%d" % stub)
    os.makedirs(os.path.join(d, "coffe"), exist_ok=True)
    py = os.path.join(repo.REPO, "python", "coffe")
    w = os.path.join(d, "w", "coffe")
    os.makedirs(w, exist_ok=True)
    for f in os.listdir(py):
        if f.endswith((".pyx", ".pxd", ".py")):
            shutil.copy(os.path.join(py, f), w)
        if f.endswith(".py"):
            shutil.copy(os.path.join(py, f), os.path.join(d, "coffe"))
    repo.run([VENV + "python", VENV + "cython", "-3", "coffe/coffe.pyx"], cwd=os.path.join(d, "w"))
    st = os.path.join(d, "stub.c")
    with open(st, "w") as f:
        f.write(STUB)
    inc = repo.run([VENV + "python", "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"]).strip()
    objs = []
    procs = []
    for i, (src, fl) in enumerate([(os.path.join(repo.SRC, s + ".c"), ["-O2"]) for s in repo.source_files()]
                                  + [(os.path.join(w, "coffe.c"), ["-O0", "-I" + inc])] + ([(st, ["-O1"])] if stub else [])):
        o = os.path.join(d, "o%d.o" % i)
        objs.append(o)
        procs.append(subprocess.Popen(["gcc", "-std=gnu99", "-w", "-fPIC", "-fopenmp", "-DNDEBUG", "-I" + repo.SRC, *fl, "-c", src, "-o", o],
                                      stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
    for p in procs:
        err = p.communicate()[1]
        if p.returncode:
            raise RuntimeError("extension build: " + err.decode()[:500])
    out = os.path.join(d, "coffe", "coffe.so")
    repo.run(["gcc", "-shared", "-fopenmp", "-o", out, *objs, "-lgsl", "-lgslcblas", "-lfftw3", "-lconfig", "-lm"])
    _built[stub] = d
    return d


def run_py(code, stub=True, timeout=240):
    import subprocess
    d = extension(stub)
    env = dict(os.environ, PYTHONPATH=d, OMP_WAIT_POLICY="passive", OMP_NUM_THREADS="4", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([VENV + "python", "-c", code], env=env, cwd=repo.scratch(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
