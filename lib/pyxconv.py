"""Current coffe.pyx -> plain Python source with the C parts made explicit (calls of _Kaddr, _Kcast, _Ksizeof, _Kconv).
The text is parsed with Cython's own parser on every run; nothing about the content of the file is assumed."""
from Cython.Compiler import Parsing
from Cython.Compiler.Main import CompilationOptions, Context, default_options
from Cython.Compiler.Scanning import FileSourceDescriptor, PyrexScanner
from Cython.Compiler.StringEncoding import EncodedString


def parse(path):
    opts = CompilationOptions(default_options, language_level=3)
    ctx = Context.from_options(opts)
    src = FileSourceDescriptor(path, "coffe.pyx")
    scope = ctx.find_module("coffe_checked", pos=(src, 1, 0), need_pxd=False)
    with open(path, encoding="utf-8") as f:
        s = PyrexScanner(f, src, source_encoding="utf-8", scope=scope, context=ctx)
        return Parsing.p_module(s, False, "coffe_checked")


class Unsupported(Exception):
    pass


class Conv:
    def __init__(self):
        self.out = []
        self.ind = 0
        self.ctypes = [{}]
        self.methods = []
        self.cls = None

    # ------------------------------------------------------------- types
    def tname(self, base, decl=None):
        n = type(base).__name__
        if n == "CSimpleBaseTypeNode":
            s = ".".join(list(base.module_path or []) + [base.name or "object"])
        elif n in ("CConstTypeNode", "CQualifierTypeNode", "CConstOrVolatileTypeNode"):
            s = self.tname(base.base_type)
        elif n == "CComplexBaseTypeNode":
            s = self.tname(base.base_type, base.declarator)
        else:
            s = "object"
        d = decl
        while d is not None and type(d).__name__ == "CPtrDeclaratorNode":
            s += "*"
            d = d.base
        return s

    def dname(self, d):
        while not hasattr(d, "name"):
            d = d.base
        return d.name, getattr(d, "default", None)

    # -------------------------------------------------------- statements
    def w(self, s):
        self.out.append("    " * self.ind + s)

    def block(self, node, empty_ok=True):
        self.ind += 1
        n = len(self.out)
        if node is not None:
            self.stat(node)
        if len(self.out) == n:
            self.w("pass")
        self.ind -= 1

    def stat(self, n):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(n).__name__)
        m(n)

    def s_StatListNode(self, n):
        for s in n.stats:
            self.stat(s)

    def s_CompilerDirectivesNode(self, n):
        self.stat(n.body)

    def s_ModuleNode(self, n):
        self.stat(n.body)

    def s_ExprStatNode(self, n):
        self.w(self.e(n.expr))

    def lhs(self, n):
        return self.e(n)

    def typed(self, n, rhs):
        if type(n).__name__ == "NameNode" and n.name in self.ctypes[-1]:
            return "_Kconv(%r, %s)" % (self.ctypes[-1][n.name], rhs)
        return rhs

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == "ImportNode":
            mod = n.rhs.module_name.value
            self.w("import %s as %s" % (mod, n.lhs.name) if n.lhs.name != mod else "import %s" % mod)
            return
        if type(n.rhs).__name__ in ("Py3ClassNode", "PyClassNode"):
            raise Unsupported("class expression")
        self.w("%s = %s" % (self.lhs(n.lhs), self.typed(n.lhs, self.e(n.rhs))))

    def s_CascadedAssignmentNode(self, n):
        self.w("_Kt = " + self.e(n.rhs))
        for x in n.lhs_list:
            self.w("%s = %s" % (self.lhs(x), self.typed(x, "_Kt")))

    def s_ParallelAssignmentNode(self, n):
        for s in n.stats:
            self.stat(s)

    def s_InPlaceAssignmentNode(self, n):
        self.w("%s = %s" % (self.lhs(n.lhs), self.typed(n.lhs, "(%s) %s (%s)" % (self.e(n.lhs), n.operator, self.e(n.rhs)))))

    def s_DelStatNode(self, n):
        self.w("del " + ", ".join(self.e(a) for a in n.args))

    def s_PassStatNode(self, n):
        self.w("pass")

    def s_BreakStatNode(self, n):
        self.w("break")

    def s_ContinueStatNode(self, n):
        self.w("continue")

    def s_GlobalNode(self, n):
        self.w("global " + ", ".join(n.names))

    def s_NonlocalNode(self, n):
        self.w("nonlocal " + ", ".join(n.names))

    def s_AssertStatNode(self, n):
        self.w("assert " + self.e(n.condition))

    def s_ReturnStatNode(self, n):
        self.w("return" + (" " + self.e(n.value) if n.value is not None else ""))

    def s_RaiseStatNode(self, n):
        if n.exc_type is None:
            self.w("raise")
        else:
            self.w("raise " + self.e(n.exc_type) + (" from " + self.e(n.cause) if n.cause is not None else ""))

    def s_IfStatNode(self, n):
        kw = "if"
        for c in n.if_clauses:
            self.w("%s %s:" % (kw, self.e(c.condition)))
            self.block(c.body)
            kw = "elif"
        if n.else_clause is not None:
            self.w("else:")
            self.block(n.else_clause)

    def s_ForInStatNode(self, n):
        self.w("for %s in %s:" % (self.e(n.target), self.e(n.iterator.sequence)))
        self.block(n.body)
        if n.else_clause is not None:
            self.w("else:")
            self.block(n.else_clause)

    def s_WhileStatNode(self, n):
        self.w("while %s:" % (self.e(n.condition) if n.condition is not None else "True"))
        self.block(n.body)
        if n.else_clause is not None:
            self.w("else:")
            self.block(n.else_clause)

    def s_TryExceptStatNode(self, n):
        self.w("try:")
        self.block(n.body)
        for c in n.except_clauses:
            pat = c.pattern
            if pat is None:
                self.w("except Exception:")
            else:
                if isinstance(pat, (list, tuple)):
                    p = "(" + ", ".join(self.e(x) for x in pat) + ",)"
                else:
                    p = self.e(pat)
                self.w("except %s%s:" % (p, " as " + c.target.name if c.target is not None else ""))
            self.block(c.body)
        if n.else_clause is not None:
            self.w("else:")
            self.block(n.else_clause)

    def s_TryFinallyStatNode(self, n):
        self.w("try:")
        self.block(n.body)
        self.w("finally:")
        self.block(n.finally_clause)

    def s_WithStatNode(self, n):
        self.w("with %s%s:" % (self.e(n.manager), " as " + self.e(n.target) if n.target is not None else ""))
        self.block(n.body)

    def s_FromImportStatNode(self, n):
        mod = n.module.module_name.value
        items = ", ".join("%s as %s" % (a, b.name) for a, b in n.items)
        self.w("from %s%s import %s" % ("." * max(0, n.module.level or 0), mod, items))

    def s_FromCImportStatNode(self, n):
        for it in n.imported_names:
            name, asname = it[1], it[2]
            self.w("%s = _Kcimport(%r, %r)" % (asname or name, n.module_name, name))

    def s_CImportStatNode(self, n):
        self.w("%s = _Kcimport(%r, None)" % (n.as_name or n.module_name.split(".")[0], n.module_name))

    def args(self, n, conv):
        out = []
        npos = len(n.args) - getattr(n, "num_kwonly_args", 0)
        for i, a in enumerate(n.args):
            if i == npos:
                out.append("*" + (n.star_arg.name if n.star_arg else ""))
            name, default = self.dname(a.declarator)
            t = self.tname(a.base_type, a.declarator)
            if not name and type(a.base_type).__name__ == "CSimpleBaseTypeNode":
                name, t = a.base_type.name, "object"
            ann = getattr(a, "annotation", None)
            if ann is None:
                ann = getattr(a.declarator, "annotation", None)
            if ann is not None and t == "object":
                x = getattr(ann, "expr", ann)
                if getattr(x, "name", None) == "float":
                    t = "double"
            default = getattr(a, "default", None) or default
            if t == "double" and type(default).__name__ == "NoneNode":
                t = "object"
            opt = default is not None
            out.append(name + ("=" + self.e(default) if opt else ""))
            if t in ("double", "float", "int", "size_t", "long", "bint", "unsigned int"):
                conv.append((name, t))
                self.ctypes[-1][name] = t
            elif t.endswith("*"):
                self.ctypes[-1][name] = t
        if n.star_arg and npos >= len(n.args):
            out.append("*" + n.star_arg.name)
        if n.starstar_arg:
            out.append("**" + n.starstar_arg.name)
        return ", ".join(out)

    def s_DefNode(self, n):
        for d in n.decorators or []:
            self.w("@" + self.e(d.decorator))
        self.ctypes.append({})
        conv = []
        a = self.args(n, conv)
        self.w("def %s(%s):" % (n.name, a))
        self.fbody(n, conv)
        self.ctypes.pop()

    def fbody(self, n, conv):
        self.ind += 1
        for name, t in conv:
            self.w("%s = _Kconv(%r, %s)" % (name, t, name))
        k = len(self.out)
        self.stat(n.body)
        if len(self.out) == k and not conv:
            self.w("pass")
        self.ind -= 1

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while not hasattr(d, "args"):
            d = d.base
        self.ctypes.append({})
        conv = []

        class A:
            args, num_kwonly_args, star_arg, starstar_arg = d.args, 0, None, None
        a = self.args(A, conv)
        name, _ = self.dname(d.base)
        ret = self.tname(n.base_type)
        if ret in ("double", "int", "size_t", "float"):
            self.w("@_Kret(%r)" % ret)
        self.w("def %s(%s):" % (name, a))
        self.fbody(n, conv)
        self.ctypes.pop()

    def s_CVarDefNode(self, n):
        for d in n.declarators:
            name, default = self.dname(d)
            t = self.tname(n.base_type, d)
            if self.cls is not None and len(self.ctypes) == 1:
                self.cls.append((name, t))
                continue
            self.ctypes[-1][name] = t
            self.w("%s = %s" % (name, "_Kconv(%r, %s)" % (t, self.e(default)) if default is not None else "_Kundef(%r)" % t))

    def s_PyClassDefNode(self, n):
        bases = ""
        b = getattr(n, "bases", None)
        if b is not None and getattr(b, "args", None):
            bases = "(" + ", ".join(self.e(x) for x in b.args) + ")"
        self.w("class %s%s:" % (n.name, bases))
        self.block(n.body)

    def s_CClassDefNode(self, n):
        self.w("class %s(_KCBase):" % n.class_name)
        self.cls = []
        self.block(n.body)
        self.ind += 1
        self.w("__cattrs__ = %r" % (self.cls,))
        self.ind -= 1
        self.cls = None

    def s_CTypeDefNode(self, n):
        pass

    # ------------------------------------------------------- expressions
    def e(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is not None:
            return m(n)
        if hasattr(n, "operator") and hasattr(n, "operand1"):
            return "(%s %s %s)" % (self.e(n.operand1), n.operator, self.e(n.operand2))
        raise Unsupported("expression %s" % type(n).__name__)

    def e_NameNode(self, n):
        return n.name

    def e_AttributeNode(self, n):
        return "%s.%s" % (self.e(n.obj), n.attribute)

    def e_SimpleCallNode(self, n):
        return "%s(%s)" % (self.e(n.function), ", ".join(self.e(a) for a in n.args))

    def e_GeneralCallNode(self, n):
        parts = []
        p = n.positional_args
        if type(p).__name__ == "TupleNode":
            parts += [self.e(a) for a in p.args]
        elif p is not None:
            parts.append("*" + self.e(p))
        k = n.keyword_args
        if k is not None:
            if type(k).__name__ == "DictNode":
                for it in k.key_value_pairs:
                    parts.append("%s=%s" % (it.key.value, self.e(it.value)))
            else:
                parts.append("**" + self.e(k))
        return "%s(%s)" % (self.e(n.function), ", ".join(parts))

    def e_MergedDictNode(self, n):
        out = []
        for d in n.keyword_args:
            if type(d).__name__ == "DictNode":
                out += ["%s: %s" % (self.e(i.key), self.e(i.value)) for i in d.key_value_pairs]
            else:
                out.append("**" + self.e(d))
        return "{%s}" % ", ".join(out)

    def e_MergedSequenceNode(self, n):
        return "[%s]" % ", ".join("*" + self.e(a) for a in n.args)

    def e_AsTupleNode(self, n):
        return "tuple(%s)" % self.e(n.arg)

    def e_IndexNode(self, n):
        return "%s[%s]" % (self.e(n.base), self.e(n.index))

    def e_SliceIndexNode(self, n):
        return "%s[%s:%s]" % (self.e(n.base), self.e(n.start) if n.start is not None else "",
                              self.e(n.stop) if n.stop is not None else "")

    def e_SliceNode(self, n):
        f = lambda x: "" if x is None or type(x).__name__ == "NoneNode" else self.e(x)   # noqa
        return "%s:%s:%s" % (f(n.start), f(n.stop), f(n.step))

    def e_UnicodeNode(self, n):
        return repr(str(n.value))

    e_StringNode = e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, n):
        return repr(bytes(n.value.byteencode() if isinstance(n.value, EncodedString) else n.value))

    def e_IntNode(self, n):
        return "(%s)" % n.value

    e_FloatNode = e_IntNode

    def e_BoolNode(self, n):
        return str(bool(n.value))

    def e_NoneNode(self, n):
        return "None"

    def e_NullNode(self, n):
        return "NULL"

    def e_EllipsisNode(self, n):
        return "..."

    def e_TupleNode(self, n):
        return "(%s)" % "".join(self.e(a) + ", " for a in n.args)

    def e_ListNode(self, n):
        return "[%s]" % ", ".join(self.e(a) for a in n.args)

    def e_SetNode(self, n):
        return "_Kset([%s])" % ", ".join(self.e(a) for a in n.args)

    def e_DictNode(self, n):
        return "{%s}" % ", ".join("%s: %s" % (self.e(i.key), self.e(i.value)) for i in n.key_value_pairs)

    def e_StarredUnpackingNode(self, n):
        return "*" + self.e(n.target)

    def e_JoinedStrNode(self, n):
        return "_Kjoin([%s])" % ", ".join(self.e(v) for v in n.values)

    def e_FormattedValueNode(self, n):
        spec = self.e(n.format_spec) if n.format_spec is not None else "''"
        return "_Kfmt(%s, %s, %r)" % (self.e(n.value), spec, n.conversion_char or "")

    def e_NotNode(self, n):
        return "(not %s)" % self.e(n.operand)

    def e_UnaryMinusNode(self, n):
        return "(-%s)" % self.e(n.operand)

    def e_UnaryPlusNode(self, n):
        return "(+%s)" % self.e(n.operand)

    def e_TildeNode(self, n):
        return "(~%s)" % self.e(n.operand)

    def e_BoolBinopNode(self, n):
        return "(%s %s %s)" % (self.e(n.operand1), n.operator, self.e(n.operand2))

    def e_PrimaryCmpNode(self, n):
        def op(o):
            return {"is_not": "is not", "not_in": "not in", "<>": "!="}.get(o, o)
        s = "%s %s %s" % (self.e(n.operand1), op(n.operator), self.e(n.operand2))
        c = n.cascade
        while c is not None:
            s += " %s %s" % (op(c.operator), self.e(c.operand2))
            c = c.cascade
        return "(%s)" % s

    def e_CondExprNode(self, n):
        return "(%s if %s else %s)" % (self.e(n.true_val), self.e(n.test if hasattr(n, "test") else n.condition), self.e(n.false_val))

    def loop(self, n):
        """for-in loop of a comprehension -> (clauses, innermost statement)"""
        s = "for %s in %s" % (self.e(n.target), self.e(n.iterator.sequence))
        b = n.body
        while True:
            t = type(b).__name__
            if t == "StatListNode" and len(b.stats) == 1:
                b = b.stats[0]
            elif t == "IfStatNode":
                s += " if %s" % self.e(b.if_clauses[0].condition)
                b = b.if_clauses[0].body
            elif t == "ForInStatNode":
                s += " for %s in %s" % (self.e(b.target), self.e(b.iterator.sequence))
                b = b.body
            else:
                return s, b

    def e_ComprehensionNode(self, n):
        s, b = self.loop(n.loop)
        b = getattr(b, "expr", b) if type(b).__name__ == "ExprStatNode" else b
        if type(b).__name__ == "DictComprehensionAppendNode":
            return "{%s: %s %s}" % (self.e(b.dict_item.key), self.e(b.dict_item.value), s)
        kind = getattr(n.type, "name", "list")
        return ("_Kset([%s %s])" if kind == "set" else "[%s %s]") % (self.e(b.expr), s)

    def e_GeneratorExpressionNode(self, n):
        s, b = self.loop(n.loop)
        b = b.expr if type(b).__name__ == "ExprStatNode" else b
        return "(%s %s)" % (self.e(b.arg), s)

    e_InlinedGeneratorExpressionNode = e_GeneratorExpressionNode

    def e_LambdaNode(self, n):
        return "(lambda %s: %s)" % (self.args(n, []), self.e(n.result_expr))

    def e_AmpersandNode(self, n):
        o = n.operand
        t = type(o).__name__
        if t == "AttributeNode":
            return "_Kaddr(%s, %r)" % (self.e(o.obj), str(o.attribute))
        if t == "IndexNode":
            return "_Kaddr(%s, %s)" % (self.e(o.base), self.e(o.index))
        return "_Kaddr(%s, None)" % self.e(o)

    def e_TypecastNode(self, n):
        return "_Kcast(%r, %s)" % (self.tname(n.base_type, n.declarator), self.e(n.operand))

    def e_SizeofTypeNode(self, n):
        return "_Ksizeof(%r)" % self.tname(n.base_type, n.declarator)

    def e_SizeofVarNode(self, n):
        return "_Ksizeof_var(%s)" % self.e(n.operand)

    def e_AssignmentExpressionNode(self, n):
        return "(%s := %s)" % (self.e(n.lhs), self.e(n.rhs))


def convert(path):
    c = Conv()
    c.s_ModuleNode(parse(path))
    return "\n".join(c.out) + "\n"


if __name__ == "__main__":
    import sys
    print(convert(sys.argv[1]))
