"""AST -> C emission (for CBMC).  A structural pretty printer: clang has already made
every conversion explicit, so each C++ expression maps to the same C expression.

What the extraction drops / models (listed in evidence):
  * output to std::clog / std::cerr / stderr (statements whose value is an ostream, fprintf, perror)
  * `delete`, destructors, PROFILE
  * `exit`/`abort` end the path
  * std::vector / std::copy / std::fill / ... are calls to models in vlib/*.h or in the harness
  * virtual calls go to the harness' contract stub for the interface (named in `stubs`)
assert(e) in the source becomes an obligation.
"""
import re
from front import Unsupported, norm, pub, FUNC_KINDS

BUILTIN = {
    "bool": ("b", 1), "char": ("i", 8), "signed char": ("i", 8), "unsigned char": ("u", 8),
    "short": ("i", 16), "unsigned short": ("u", 16), "int": ("i", 32), "unsigned int": ("u", 32),
    "unsigned": ("u", 32), "long": ("i", 64), "unsigned long": ("u", 64), "long int": ("i", 64),
    "long long": ("i", 64), "unsigned long long": ("u", 64), "size_t": ("u", 64), "std::size_t": ("u", 64),
    "uint64": ("u", 64), "uint32": ("u", 32), "uint16": ("u", 16), "byte": ("u", 8), "int32": ("i", 32),
    "int64": ("i", 64), "ptrdiff_t": ("i", 64), "double": ("f", 64), "float": ("f", 32), "void": ("v", 0),
    "__uint128_t": ("u", 128), "wchar_t": ("i", 32),
}


class T:
    """kind: int/uint/bool/float/void/ptr/ref/arr/cls/enum/func"""
    __slots__ = ("k", "bits", "sub", "n", "name", "const")

    def __init__(self, k, bits=0, sub=None, n=None, name=None, const=False):
        self.k, self.bits, self.sub, self.n, self.name, self.const = k, bits, sub, n, name, const

    def is_int(self):
        return self.k in ("int", "uint", "bool", "enum")


def split_targs(s):
    """'A<x, B<y>, z>' -> ('A', ['x','B<y>','z'])"""
    i = s.find("<")
    if i < 0:
        return s, []
    name, rest = s[:i], s[i + 1:s.rindex(">")]
    out, depth, cur = [], 0, ""
    for ch in rest:
        if ch in "<(":
            depth += 1
        if ch in ">)":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return name.strip(), out


class Types:
    def __init__(self, ix):
        self.ix = ix
        self.cache = {}

    def of(self, node):
        t = node.get("type")
        if not t:
            return T("void")
        return self.parse(t.get("desugaredQualType") or t["qualType"])

    def parse(self, s):
        if s in self.cache:
            return self.cache[s]
        t = self._parse(s)
        self.cache[s] = t
        return t

    def _parse(self, s):
        s = s.strip()
        const = False
        while True:
            if s.endswith("const") and (s[:-5].endswith((" ", "*", "&"))):
                s = s[:-5].strip()
                const = True
                continue
            if s.endswith("__restrict"):
                s = s[:-10].strip()
                continue
            break
        if s.endswith("&&"):
            return T("ref", sub=self.parse(s[:-2]))
        if s.endswith("&"):
            return T("ref", sub=self.parse(s[:-1]))
        if s.endswith("*"):
            return T("ptr", 64, sub=self.parse(s[:-1]))
        m = re.match(r"^(.*?)\s*\((\*|&)\)\s*\[(\d+)\]$", s)
        if m:
            return T("ptr" if m.group(2) == "*" else "ref", 64, sub=self.parse("%s[%s]" % (m.group(1), m.group(3))))
        m = re.match(r"^(.*?)\s*&\s*\[(\d+)\]$", s)
        if m:
            return T("ref", 64, sub=self.parse("%s[%s]" % (m.group(1), m.group(2))))
        m = re.match(r"^(.*?)\s*\[([A-Za-z_]\w*)\]$", s)
        if m:      # variable-length array: its own object
            return T("ptr", 64, sub=self.parse(m.group(1)), name="vla:" + m.group(2))
        m = re.match(r"^(.*?)\s*((\[\d*\])+)$", s)
        if m:
            dims = re.findall(r"\[(\d*)\]", m.group(2))
            t = self.parse(m.group(1))
            for d in reversed(dims):
                t = T("arr", sub=t, n=int(d) if d else None)
            return t
        if s.endswith(")"):
            return T("func", name=s)
        while True:
            for p in ("const ", "volatile ", "struct ", "class ", "enum ", "typename "):
                if s.startswith(p):
                    if p == "const ":
                        const = True
                    s = s[len(p):].strip()
                    break
            else:
                break
        if s in BUILTIN:
            k, b = BUILTIN[s]
            kk = {"b": "bool", "i": "int", "u": "uint", "f": "float", "v": "void"}[k]
            return T(kk, b, name=s, const=const)
        n = norm(s)
        if n in BUILTIN:
            k, b = BUILTIN[n]
            kk = {"b": "bool", "i": "int", "u": "uint", "f": "float", "v": "void"}[k]
            return T(kk, b, name=n, const=const)
        if n in self.ix.enums or any(n.split("::")[-1] == e.split("::")[-1] for e in self.ix.enums):
            return T("enum", 32, name=n)
        if n in self.ix.typedefs and n not in self.ix.records:
            return self.parse(self.ix.typedefs[n])
        # std::vector<T>::value_type & co
        m = re.match(r"^std::vector<(.*)>::(const_reference|reference|value_type|size_type)$", n)
        if m:
            if m.group(2) == "size_type":
                return T("uint", 64)
            _, a = split_targs("x<" + m.group(1) + ">")
            t = self.parse(a[0])
            return t if m.group(2) == "value_type" else T("ref", sub=t)
        m = re.match(r"^__gnu_cxx::__normal_iterator<(.*),std::vector<.*>$", n)
        if m:   # vector iterators are pointers into the storage
            return self.parse(m.group(1))
        m = re.match(r"^std::vector<(.*)>::(const_iterator|iterator)$", n)
        if m:
            _, a = split_targs("x<" + m.group(1) + ">")
            if norm(a[0]) != "bool":
                return T("ptr", 64, sub=self.parse(a[0]))
        m = re.match(r"^std::_Rb_tree_(?:const_)?iterator<(.*)>$", n)
        if m:   # map iterators: pointers into the ordered entries
            return T("ptr", 64, sub=self.parse(m.group(1)))
        m = re.match(r"^std::map<(.*)>::(const_iterator|iterator)$", n)
        if m:
            _, a = split_targs("x<" + m.group(1) + ">")
            return T("ptr", 64, sub=T("cls", name="std::pair<%s,%s>" % (a[0], a[1])))
        if n.endswith("size_type") or n.endswith("difference_type"):
            return T("uint" if n.endswith("size_type") else "int", 64)
        return T("cls", name=n, const=const)


def ident(n):
    n = re.sub(r"[^A-Za-z0-9_]+", "_", n)
    return n.strip("_")


class CGen:
    def __init__(self, ix, stubs=None, loops=None, ptr_fields=(), opts=None):
        self.ix = ix
        self.ty = Types(ix)
        self.stubs = dict(stubs or {})      # public qualified name -> C function name
        self.ptr_fields = set(ptr_fields)
        self.loops = loops or {}            # public qualified name -> {index: dict(inv=..., havoc=..., ghost=...)}
        self.opts = opts or {}
        self.structs = []                   # emitted struct texts
        self.struct_done = set()
        self.struct_busy = set()
        self.fwd = set()
        self.funcs = {}                     # mangled -> text
        self.protos = {}
        self.order = []
        self.globals = {}
        self.work = []
        self.vecs = {}                      # elem C name -> elem C type
        self.used_models = set()
        self.dropped = set()
        self.loops_seen = {}
        self.qual_of = {}
        self.unwind_loops = []

    # ---------- types
    def ctype(self, t, decl=""):
        if t.k == "bool":
            b = "_Bool"
        elif t.k == "int":
            b = "int%d_t" % t.bits if t.bits != 128 else "__int128"
        elif t.k == "uint":
            b = "uint%d_t" % t.bits if t.bits != 128 else "unsigned __int128"
        elif t.k == "enum":
            b = "uint32_t"
        elif t.k == "float":
            b = "double" if t.bits == 64 else "float"
        elif t.k == "void":
            b = "void"
        elif t.k in ("ptr", "ref"):
            if t.sub.k == "arr":
                return self.ctype(t.sub, "(*%s)" % decl)
            if t.sub.k == "func":
                raise Unsupported("function pointer")
            return self.ctype(t.sub, "*" + decl)
        elif t.k == "arr":
            return self.ctype(t.sub, "%s[%s]" % (decl, "" if t.n is None else t.n))
        elif t.k == "cls":
            b = self.struct_ref(t)
        else:
            raise Unsupported("type %s %s" % (t.k, t.name))
        return (b + " " + decl).strip()

    def elem_name(self, t):
        return ident(self.ctype(t)).replace("struct_", "")

    def struct_ref(self, t, define=True):
        n = t.name
        base, args = split_targs(n)
        if base == "std::vector":
            e = self.ty.parse(args[0])
            en = self.elem_name(e)
            self.vecs[en] = self.ctype(e)
            key = "vec_" + en
            if key not in self.struct_done:
                self.struct_done.add(key)
                self.structs.append("VP_VEC_STRUCT(%s, %s)" % (en, self.ctype(e)))
            return "struct vec_" + en
        if base == "std::pair":
            a, b = self.ty.parse(args[0]), self.ty.parse(args[1])
            key = "pair_%s_%s" % (self.elem_name(a), self.elem_name(b))
            if key not in self.struct_done:
                self.struct_done.add(key)
                self.structs.append("struct %s { %s; %s; };" % (key, self.ctype(a, "first"), self.ctype(b, "second")))
            return "struct " + key
        if base in ("FILE", "_IO_FILE"):
            return "struct vp_FILE"
        if base.startswith("std::") and (base in ("std::basic_string", "std::string", "std::__cxx11::basic_string")):
            self.fwd.add("vp_string")
            return "struct vp_string"
        if base == "std::map" :
            k, v = self.ty.parse(args[0]), self.ty.parse(args[1])
            key = "map_%s_%s" % (self.elem_name(k), self.elem_name(v))
            if "VP_MAP_STRUCT" in (self.opts.get("containers") or ""):
                self.struct_ref(T("cls", name="std::pair<%s,%s>" % (args[0], args[1])))
                if key not in self.struct_done:
                    self.struct_done.add(key)
                    self.structs.append("VP_MAP_STRUCT(%s_%s, %s, %s)" % (self.elem_name(k), self.elem_name(v), self.ctype(k), self.ctype(v)))
            else:
                self.fwd.add(key)
            return "struct " + key
        if base in ("std::list", "std::queue"):
            e = self.ty.parse(args[0])
            key = base[5:] + "_" + self.elem_name(e)
            if key not in self.struct_done:
                self.struct_done.add(key)
                self.structs.append("VP_%s_STRUCT(%s, %s)" % (base[5:].upper(), self.elem_name(e), self.ctype(e)))
            return "struct " + key
        r = self.ix.records.get(n)
        if r is None:
            c = [k for k in self.ix.records if k.split("::")[-1] == n.split("::")[-1]]
            if len(c) == 1:
                n = c[0]
                r = self.ix.records[n]
        if r is None:
            raise Unsupported("class type " + n)
        key = ident(n)
        if define:
            self.define_struct(n)
        return "struct " + key

    def define_struct(self, n):
        key = ident(n)
        if key in self.struct_done:
            return
        if key in self.struct_busy:
            self.fwd.add(key)
            return
        self.struct_busy.add(key)
        r = self.ix.records[n]
        lines = []
        for b in r["bases"]:
            bt = self.ty.parse(b)
            lines.append("  %s;" % self.ctype(bt, "_base_" + ident(bt.name)))
        for f in r["fields"]:
            ft = self.ty.of(f)
            if ft.k == "arr" and n.split("<")[0].split("::")[-1] + "::" + f.get("name", "") in self.ptr_fields:   # array member kept in its own object
                lines.append("  %s;" % self.ctype(ft.sub, "*" + f["name"]))
                continue
            if ft.k in ("ptr", "ref") and ft.sub.k == "cls":
                try:
                    txt = self.ctype(ft, f.get("name", "_anon"))
                except Unsupported:
                    txt = "void *%s" % f["name"]
            else:
                try:
                    txt = self.ctype(ft, f.get("name", "_anon"))
                    if ft.k == "cls" and split_targs(ft.name)[0] == "std::map":
                        mk = txt.split()[1]
                        if mk not in self.struct_done:
                            self.struct_done.add(mk)
                            self.structs.append("#ifndef VP_DEF_%s\nstruct %s { char _opaque; };\n#endif" % (mk, mk))
                except Unsupported:
                    txt = "struct vp_opaque %s" % f["name"]
                    self.fwd.add("vp_opaque")
            lines.append("  %s;" % txt)
        if not lines:
            lines.append("  char _empty;")
        self.struct_busy.discard(key)
        if key not in self.struct_done:
            self.struct_done.add(key)
            self.structs.append("struct %s {\n%s\n};" % (key, "\n".join(lines)))

    # ---------- functions
    def stub_of(self, f):
        """Contract standing in for f: keys are `qualified::name` or `qualified::name|type-substring`."""
        nq = norm(pub(f.qual))
        best = None
        for k, v in self.stubs.items():
            k, _, sub = k.partition("|")
            if norm(k) == nq and (not sub or norm(sub) in norm(f.node["type"]["qualType"])):
                if sub or best is None:
                    best = v
                if sub:
                    break
        return best

    def fname(self, f):
        st = self.stub_of(f)
        if st is not None:
            return st
        m = ident(f.mangled)
        nm = "F_" + ident(f.name or "fn") + "_" + (m if len(m) < 120 else m[:80] + "_%x" % (abs(hash_str(m)) & 0xffffff))
        return nm

    def is_stub(self, f):
        return self.stub_of(f) is not None

    def need(self, f):
        if self.is_stub(f):
            self.used_models.add(pub(f.qual))
            return self.fname(f)
        if f.mangled not in self.funcs:
            if f.body is None:
                raise Unsupported("no body for %s (no contract stub)" % pub(f.qual))
            self.funcs[f.mangled] = None
            self.work.append(f)
        return self.fname(f)

    def run(self):
        while self.work:
            f = self.work.pop()
            self.emit_func(f)

    def require(self, spec):
        f = self.ix.find(spec)
        n = self.need(f)
        self.run()
        return n

    def ret_type(self, f):
        q = f.node["type"]["qualType"]
        # return type is everything before the parameter list's opening paren
        depth = 0
        # find matching paren of last ')' (strip trailing const etc.)
        i = q.rindex(")")
        for j in range(i, -1, -1):
            if q[j] == ")":
                depth += 1
            elif q[j] == "(":
                depth -= 1
                if depth == 0:
                    return self.ty.parse(q[:j].strip())
        raise Unsupported("return type " + q)

    def emit_func(self, f):
        fe = FuncEmit(self, f)
        proto, text = fe.emit()
        self.protos[f.mangled] = proto
        self.funcs[f.mangled] = text
        self.order.append(f.mangled)
        self.qual_of[f.mangled] = pub(f.qual)

    def const_var(self, node):
        """A namespace-scope / static-member variable: emit as a C global."""
        nid = node["id"]
        q = node.get("_qual") or node.get("name")
        best = self.ix.var_qual.get(q, node)
        gname = "G_" + ident(q)
        if gname in self.globals:
            return gname
        self.globals[gname] = ""
        t = self.ty.of(best)
        init = [x for x in best.get("inner", ()) if x.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
        fe = FuncEmit(self, None)
        if init and (t.const or best["type"]["qualType"].startswith("const") or best.get("constexpr") or
                     "const" in best["type"]["qualType"]):
            if t.is_int():
                # C global initialisers cannot refer to other globals: use an enum-like macro
                self.globals[gname] = "#define %s ((%s)(%s))" % (gname, self.ctype(t), fe.x(init[0]))
            else:
                self.globals[gname] = "static %s = %s;" % (self.ctype(t, gname), fe.x(init[0]))
        else:
            self.globals[gname] = "static %s;" % self.ctype(t, gname)
        return gname

    def text(self):
        out = []
        for k in sorted(self.fwd):
            out.append("struct %s;" % k)
        gl = []
        for g, s in self.globals.items():
            if s:
                gl.append(s)
        return ("\n".join(out) + "\n" + "\n".join(self.structs) + "\n" + "\n".join(gl) + "\n",
                "\n".join(p + ";" for p in self.protos.values()) + "\n",
                "\n\n".join(self.funcs[m] for m in self.order))


def hash_str(s):
    h = 5381
    for ch in s:
        h = (h * 33 + ord(ch)) & 0xffffffff
    return h


STD_FUNCS = {  # free functions the models header provides
    "malloc", "free", "realloc", "calloc", "fwrite", "fread", "fflush", "ftell", "fseek", "fputc", "fgetc",
    "feof", "fclose", "fopen", "memset", "memcpy", "memmove", "sqrt", "getc", "putc",
}
DROP_FUNCS = {"fprintf", "printf", "perror", "puts", "__assert_fail", "sprintf"}


class FuncEmit:
    def __init__(self, gen, f):
        self.g = gen
        self.ty = gen.ty
        self.f = f
        self.loop_no = 0
        self.loop_stack = []
        self.tmp = 0
        self.q = pub(f.qual) if f else ""
        self.ann = {}
        if f:
            for k, v in gen.loops.items():
                k, _, sub = k.partition("|")
                if (k == self.q or norm(k) == norm(self.q)) and norm(sub) in norm(f.node["type"]["qualType"]):
                    self.ann = v
        self.refvars = {}

    def fail(self, o, why=""):
        raise Unsupported("%s: unsupported %s %s (line %s)" % (self.q, o.get("kind"), why, o.get("_beg", ("", "?"))[1]))

    # ---- function
    def emit(self):
        g, f = self.g, self.f
        params = []
        if f.cls and not f.static:
            ct = self.ty.parse(f.cls)
            params.append(g.ctype(ct, "*self"))
        for i, p in enumerate(f.params):
            params.append(g.ctype(self.ty.of(p), p.get("name") or "_p%d" % i) if self.ty.of(p).k != "arr"
                          else g.ctype(self.ty.of(p).sub, "*" + p["name"]))
        if f.kind in ("CXXConstructorDecl", "CXXDestructorDecl"):
            rt = T("void")
        else:
            rt = g.ret_type(f)
        self.rt = rt
        proto = g.ctype(rt, "%s(%s)" % (g.fname(f), ", ".join(params) or "void"))
        body = []
        for ini in f.inits:
            body.append(self.ctor_init(ini))
        body += self.block_items(f.body)
        g.loops_seen[self.q] = self.loop_no
        missing = [k for k in self.ann if isinstance(k, int) and k >= self.loop_no]
        if missing:
            raise Unsupported("%s: loop annotations %s do not attach (the current source has %d loops)"
                              % (self.q, missing, self.loop_no))
        return proto, "/* %s  (%s:%s) */\n%s {\n%s\n}" % (self.q, f.file, f.line, proto, ind("\n".join(body)))

    def ctor_init(self, ini):
        inner = [x for x in ini.get("inner", ())]
        if "anyInit" in ini:
            nm = ini["anyInit"]["name"]
            t = self.ty.of(ini["anyInit"])
            if not inner:
                return ""
            return self.init("self->" + nm, t, inner[0])
        if "baseInit" in ini:
            bt = self.ty.parse(ini["baseInit"].get("desugaredQualType", ini["baseInit"]["qualType"]))
            e = inner[0] if inner else None
            if e is None:
                return ""
            return self.init("(*(%s*)self)" % self.g.ctype(bt), bt, e)
        return ""

    # ---- initialisation of an lvalue
    def init(self, lv, t, e):
        e = strip(e)
        if t.k == "ref":
            return "%s = %s;" % (lv, self.addr(e))
        if e["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and t.k in ("cls", "arr"):
            return self.construct(lv, t, e)
        if e["kind"] == "InitListExpr":
            if t.k == "arr":
                raw = e.get("inner") or e.get("array_filler") or ()
                vals = [self.x(x) for x in raw if x.get("kind") != "ImplicitValueInitExpr"]
                self.tmp += 1
                z = ""
                if t.n is not None and len(vals) < t.n:
                    z = "__builtin_memset(%s, 0, sizeof(%s)); " % (lv, lv)
                return z + "".join("%s[%d] = %s; " % (lv, i, v) for i, v in enumerate(vals))
            if t.is_int() and e.get("inner"):
                return "%s = %s;" % (lv, self.x(e["inner"][0]))
        if e["kind"] == "CXXDefaultInitExpr":
            self.fail(e)
        return "%s = %s;" % (lv, self.x(e))

    def construct(self, lv, t, e):
        g = self.g
        args = [a for a in e.get("inner", ())]
        if t.k == "arr":
            # array of class objects: default construct each
            if any(lv == "self->" + p.split("::")[1] for p in g.ptr_fields):
                return ""      # kept in its own object with arbitrary initial content (over-approximation)
            if t.sub.k == "cls" and split_targs(t.sub.name)[0] == "std::vector" and (t.n or 0) > 8:
                g.struct_ref(t.sub)
                return "vec_%s_ctor_array(&%s[0], %d);" % (g.elem_name(self.ty.parse(split_targs(t.sub.name)[1][0])), lv, t.n)
            out = []
            for i in range(t.n or 0):
                out.append(self.construct("%s[%d]" % (lv, i), t.sub, e))
            return "\n".join(o for o in out if o)
        base, targs = split_targs(t.name)
        if base == "std::vector":
            en = g.elem_name(self.ty.parse(targs[0]))
            g.struct_ref(t)
            args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
            if not args:
                return "vec_%s_ctor(&%s);" % (en, lv)
            a0 = self.ty.of(args[0])
            if a0.k == "cls":
                return "vec_%s_copy(&%s, %s);" % (en, lv, self.addr(args[0]))
            if len(args) == 1:
                et = self.ty.parse(targs[0])
                r = "vec_%s_ctor_n(&%s, %s);" % (en, lv, self.x(args[0]))
                c = self.default_ctor(et)
                if c:
                    self.tmp += 1
                    r += " for (size_t vp_i%d = 0; vp_i%d < %s.n; ++vp_i%d) %s(&%s.d[vp_i%d]);" % (
                        self.tmp, self.tmp, lv, self.tmp, c, lv, self.tmp)
                return r
            if a0.is_int():
                return "vec_%s_ctor_fill(&%s, %s, %s);" % (en, lv, self.x(args[0]), self.val(args[1]))
            return "vec_%s_ctor_range(&%s, %s, %s);" % (en, lv, self.x(args[0]), self.x(args[1]))
        if base == "std::pair":
            if len(args) == 2:
                at = self.ty.parse(targs[0]), self.ty.parse(targs[1])
                return "%s.first = (%s)%s; %s.second = (%s)%s;" % (lv, g.ctype(at[0]), self.val(args[0]), lv,
                                                             g.ctype(at[1]), self.val(args[1]))
            if len(args) == 1:
                s = self.x(args[0])
                at = self.ty.of(args[0])
                at = at.sub if at.k == "ref" else at
                self.tmp += 1
                n = "vp_q%d" % self.tmp
                return "%s; %s = %s; %s.first = %s.first; %s.second = %s.second;" % (g.ctype(at, n), n, s, lv, n, lv, n)
            out = []
            for k, ta in zip(("first", "second"), targs):
                mt = self.ty.parse(ta)
                out.append(self.construct("%s.%s" % (lv, k), mt, {}) if mt.k == "cls" else "%s.%s = 0;" % (lv, k))
            return " ".join(out)
        if base in ("std::list", "std::queue") and not args:
            return "%s_ctor(&%s);" % (g.struct_ref(t)[7:], lv)
        if base in ("std::map", "std::string") or base.startswith("std::"):
            return ""
        ctor = self.find_ctor(t, e)
        if ctor is None:
            if len(args) == 1:
                return "%s = %s;" % (lv, self.x(args[0]))
            if not args:
                return ""
            self.fail(e, "constructor of " + t.name)
        g.struct_ref(t)
        return "%s(&%s%s);" % (g.need(ctor), lv, "".join(", " + a for a in self.args(ctor, args)))

    def rec_of(self, t):
        ix = self.g.ix
        r = ix.records.get(t.name)
        if r is None:
            c = [k for k in ix.records if k.split("::")[-1] == t.name.split("::")[-1]]
            if len(c) == 1:
                r = ix.records[c[0]]
        return r

    def find_ctor(self, t, e):
        ix = self.g.ix
        r = self.rec_of(t)
        if r is None:
            self.fail(e, "class " + t.name)
        q = pub(r["qual"])
        nm = q.split("<")[0].split("::")[-1]
        want = norm(e["ctorType"]["qualType"]) if "ctorType" in e else None
        for f in ix.by_qual.get(q + "::" + nm, ()):
            f = ix.by_mangled.get(f.mangled, f)
            if want is None or norm(f.node["type"]["qualType"]) == want:
                if self.g.is_stub(f):
                    return f
                if f.body is None:
                    return None
                if f.node.get("isImplicit") and len(f.params) == 1:
                    return None   # implicit copy: struct assignment
                return f
        return None

    def default_ctor(self, t):
        if t.k != "cls":
            return None
        r = self.rec_of(t)
        if r is None:
            return None
        q = pub(r["qual"])
        nm = q.split("<")[0].split("::")[-1]
        for f in self.g.ix.by_qual.get(q + "::" + nm, ()):
            f = self.g.ix.by_mangled.get(f.mangled, f)
            if not f.params and f.body is not None:
                return self.g.need(f)
        return None

    def args(self, f, args):
        out = []
        for i, a in enumerate(args):
            pt = self.ty.of(f.params[i]) if i < len(f.params) else None
            if a.get("kind") == "CXXDefaultArgExpr":
                out.append(self.default_arg(f, i))
                continue
            if pt is not None and pt.k == "ref":
                out.append(self.addr(a))
            else:
                out.append(self.val(a))
        return out

    def default_arg(self, f, i):
        for g in self.g.ix.funcs.values():
            if g.mangled == f.mangled:
                p = g.params[i]
                ini = [x for x in p.get("inner", ()) if "kind" in x]
                if ini:
                    return self.x(ini[0])
        raise Unsupported("default argument of " + pub(f.qual))

    # ---- statements
    def block_items(self, o):
        if o is None:
            return []
        if o["kind"] == "CompoundStmt":
            out = []
            for x in o.get("inner", ()):
                out.append(self.s(x))
            return [x for x in out if x != ""]
        return [self.s(o)]

    def block(self, o):
        return "{\n%s\n}" % ind("\n".join(self.block_items(o)))

    def s(self, o):
        k = o.get("kind")
        if k is None:
            return ""
        m = getattr(self, "s_" + k, None)
        if m:
            return m(o)
        return self.expr_stmt(o)

    def s_NullStmt(self, o):
        return ";"

    def s_CompoundStmt(self, o):
        return self.block(o)

    def s_GCCAsmStmt(self, o):
        self.g.dropped.add("inline asm")
        return ";"

    def s_AttributedStmt(self, o):
        return self.s([x for x in o["inner"] if "Attr" not in x["kind"]][0])

    def s_LabelStmt(self, o):
        self.fail(o)

    def s_DeclStmt(self, o):
        out = []
        for d in o.get("inner", ()):
            if d["kind"] == "VarDecl":
                out.append(self.vardecl(d))
            elif d["kind"] in ("TypedefDecl", "UsingDecl", "TypeAliasDecl", "StaticAssertDecl", "UsingDirectiveDecl", "CXXRecordDecl", "EmptyDecl"):
                if d["kind"] in ("TypedefDecl", "TypeAliasDecl"):
                    self.g.ix.typedefs[d["name"]] = d["type"].get("desugaredQualType", d["type"]["qualType"])
                continue
            else:
                self.fail(d)
        return "\n".join(out)

    def vardecl(self, d):
        g = self.g
        t = self.ty.of(d)
        nm = d["name"]
        init = [x for x in d.get("inner", ()) if x.get("kind") and not x["kind"].endswith("Comment") and "Attr" not in x["kind"]]
        st = "static " if d.get("storageClass") == "static" else ""
        if t.k == "cls" and (t.name.startswith("std::") and split_targs(t.name)[0] not in
                             ("std::vector", "std::pair", "std::map", "std::list", "std::queue")):
            self.fail(d, t.name)
        if st:
            if init:
                e = strip(init[0])
                if e["kind"] == "InitListExpr":
                    vals = ", ".join(self.x(x) for x in e.get("inner", ()))
                    return "static %s = { %s };" % (g.ctype(t, nm), vals)
                return "static %s = %s;" % (g.ctype(t, nm), self.x(e))
            return "static %s;" % g.ctype(t, nm)
        if t.k == "ptr" and t.name and t.name.startswith("vla:"):
            return "%s = vp_new((uint64_t)(%s) * sizeof(%s));" % (g.ctype(t, nm), t.name[4:], g.ctype(t.sub))
        if not init:
            return "%s;" % g.ctype(t, nm)
        e = strip(init[0])
        if t.k == "arr" and e["kind"] == "InitListExpr" and t.sub.k not in ("cls", "arr"):
            raw = e.get("inner") or e.get("array_filler") or ()
            vals = [self.x(x) for x in raw if x.get("kind") != "ImplicitValueInitExpr"]
            return "%s = { %s };" % (g.ctype(t, nm), ", ".join(vals) or "0")
        if t.k in ("cls", "arr", "ref"):
            return "%s; %s" % (g.ctype(t, nm), self.init(nm, t, e))
        if e["kind"] == "InitListExpr":
            return "%s = %s;" % (g.ctype(t, nm), self.x(e["inner"][0]) if e.get("inner") else "0")
        return "%s = %s;" % (g.ctype(t, nm), self.x(e))

    def s_ReturnStmt(self, o):
        inner = o.get("inner", ())
        if not inner:
            return "return;"
        if self.rt.k == "ref":
            return "return %s;" % self.addr(inner[0])
        if self.rt.k == "void":
            return "{ %s; return; }" % self.x(inner[0])
        return "return %s;" % self.val(inner[0])

    def s_BreakStmt(self, o):
        if self.loop_stack and self.loop_stack[-1][0] == "cut":
            self.loop_stack[-1][2].add("end")
            return "goto %s_end;" % self.loop_stack[-1][1]
        return "break;"

    def s_ContinueStmt(self, o):
        for fr in reversed(self.loop_stack):
            if fr[0] == "switch":
                continue
            if fr[0] == "cut":
                fr[2].add("cont")
                return "goto %s_cont;" % fr[1]
            return "continue;"
        self.fail(o)

    def s_IfStmt(self, o):
        inner = list(o["inner"])
        pre = ""
        if o.get("hasVar"):
            pre = self.s(inner.pop(0)) + "\n"
        if o.get("hasInit"):
            pre = self.s(inner.pop(0)) + "\n"
        c = self.x(inner[0])
        r = "if (%s) %s" % (c, self.block(inner[1]))
        if len(inner) > 2:
            r += " else %s" % self.block(inner[2])
        return "{ %s%s }" % (pre, r) if pre else r

    def s_SwitchStmt(self, o):
        inner = [x for x in o["inner"] if x]
        self.loop_stack.append(("switch", "", set()))
        r = "switch (%s) %s" % (self.x(inner[0]), self.block(inner[1]))
        self.loop_stack.pop()
        return r

    def s_CaseStmt(self, o):
        return "case %s: %s" % (self.x(o["inner"][0]), self.s(o["inner"][-1]) or ";")

    def s_DefaultStmt(self, o):
        return "default: %s" % (self.s(o["inner"][0]) or ";")

    def cut(self, kind, init, cond, inc, body_node, o):
        """Loop `self.loop_no` of this function: unrolled by CBMC unless annotated."""
        n = self.loop_no
        self.loop_no += 1
        a = self.ann.get(n)
        if a is None:
            self.loop_stack.append(("loop", "", set()))
            body = self.block(body_node)
            self.loop_stack.pop()
            self.g.unwind_loops.append((self.q, n))
            if kind == "do":
                return "do %s while (%s);" % (body, cond())
            if kind == "while":
                return "while (%s) %s" % (cond(), body)
            return "for (%s %s; %s) %s" % (init or ";", cond() or "1", inc() if inc else "", body)
        lab = "vpL%d_%d" % (n, len(self.g.order))
        alias = a.get("alias", {})          # pointer variables as base + offset (an invariant; gives CBMC the object)
        inv = ["%s == %s" % kv for kv in alias.items()] + list(a["inv"])
        # quantified invariants: proved for the arbitrary constants `sk`, used at those and at the instances `at`
        inst = []
        for q in a.get("all", ()):
            inv.append("(%s)" % q["p"].format(*q["sk"]))
            inst += ["(%s)" % q["p"].format(*t) for t in q.get("at", ())]
        havoc = a.get("havoc", "")
        mods = self.modified(o)
        hv = []
        for (nm, t) in mods:
            hv.append("{ %s; %s = vp_h; }" % (self.g.ctype(t, "vp_h"), nm))
        self.check_frame(o, a)
        self.loop_stack.append(("cut", lab, set()))
        body = self.block(body_node)
        labels = self.loop_stack.pop()[2]
        name = "%s loop %d" % (self.q, n)
        A = lambda w: "\n".join('__CPROVER_assert((%s), "%s: invariant %d %s");' % (c, name, i, w) for i, c in enumerate(inv))
        M = "\n".join("__CPROVER_assume(%s);" % c for c in inv + inst) + "".join("\n%s = %s;" % kv for kv in alias.items())
        dec = a.get("dec")
        d0 = "%s vp_dec%d = %s;" % (a.get("dect", "uint64_t"), n, dec) if dec else ""
        d1 = '__CPROVER_assert((%s) < vp_dec%d, "%s: variant decreases");' % (dec, n, name) if dec else ""
        ghost_pre, ghost_body, ghost_end = a.get("pre", ""), a.get("body", ""), a.get("end", "")
        cont = "%s_cont: ;\n" % lab if "cont" in labels else ""
        end = "%s_end: ;\n" % lab if "end" in labels else ""
        incs = inc() + ";\n" if inc and inc() else ""
        if kind == "do":
            core = "%s\n%s\n%s\n%s%s\nif (%s) { %s\n%s\n __CPROVER_assume(0); }" % (
                d0, ghost_body, body, cont, ghost_end, cond(), A("preserved"), d1)
        else:
            core = "if (%s) {\n%s\n%s\n%s\n%s%s%s\n%s\n%s\n__CPROVER_assume(0);\n}" % (
                cond() or "1", d0, ghost_body, body, cont, incs, ghost_end, A("preserved"), d1)
        post = a.get("post", "")
        return "{\n%s%s\n%s\n%s\n%s\n%s\n%s\n%s\n%s}" % (
            (init + "\n") if init else "", ghost_pre, A("on entry"), "\n".join(hv), havoc, M, core, end + ";", post)

    def s_WhileStmt(self, o):
        inner = [x for x in o["inner"] if x]
        if o.get("hasVar"):
            self.fail(o, "condition variable")
        return self.cut("while", None, lambda: self.x(inner[0]), None, inner[1], o)

    def s_DoStmt(self, o):
        return self.cut("do", None, lambda: self.x(o["inner"][1]), None, o["inner"][0], o)

    def s_ForStmt(self, o):
        init, cvar, cond, inc, body = o["inner"]
        ini = self.s(init) if init.get("kind") else ""
        if ini and not ini.rstrip().endswith(";"):
            ini += ";"
        r = self.cut("for", None if not ini else ini,
                     lambda: self.x(cond) if cond.get("kind") else "1",
                     (lambda: self.x(inc)) if inc.get("kind") else None, body, o)
        if r.startswith("for (") and ini:
            # multi-statement inits cannot sit in a for header
            body_txt = r[len("for (") + len(ini):]
            return "{ %s\nfor (; %s }" % (ini, body_txt.lstrip())
        return r

    def s_CXXForRangeStmt(self, o):
        self.fail(o)

    # variables assigned in a subtree that are declared outside it
    def modified(self, o):
        declared, mods = set(), {}

        def root(e):
            e = strip(e)
            while e.get("kind") in ("ParenExpr", "ImplicitCastExpr") and e.get("castKind") != "LValueToRValue":
                e = e["inner"][0]
            return e

        def mark(e):
            e = root(e)
            if e["kind"] == "DeclRefExpr" and e["referencedDecl"]["kind"] in ("VarDecl", "ParmVarDecl"):
                d = e["referencedDecl"]
                t = self.ty.of(d)
                if t.k != "ref" and t.k != "cls" and t.k != "arr":
                    mods[d["id"]] = (d["name"], t)

        def walk(e):
            k = e.get("kind")
            if k == "VarDecl":
                declared.add(e["id"])
            if k in ("BinaryOperator", "CompoundAssignOperator") and (e["opcode"] == "=" or k == "CompoundAssignOperator"):
                mark(e["inner"][0])
            if k == "UnaryOperator" and e["opcode"] in ("++", "--", "&"):
                mark(e["inner"][0])
            if k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXOperatorCallExpr"):
                for a in e.get("inner", ())[1:]:
                    if a.get("valueCategory") == "lvalue":
                        mark(a)
            for x in e.get("inner", ()):
                if isinstance(x, dict):
                    walk(x)
        walk(o)
        if o.get("kind") == "ForStmt" and o["inner"][0].get("kind") == "DeclStmt":   # loop variables live across iterations
            for x in o["inner"][0]["inner"]:
                declared.discard(x.get("id"))
        return [v for i, v in mods.items() if i not in declared]

    def check_frame(self, o, a):
        """Stores through memory inside a cut loop must be covered by the annotation's `frame` list."""
        frame = set(a.get("frame", ()))
        bad = set()

        def base(e):
            e = strip(e)
            while True:
                k = e.get("kind")
                if k in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "UnaryOperator"):
                    e = e["inner"][0]
                elif k == "ArraySubscriptExpr":
                    e = e["inner"][0]
                elif k == "MemberExpr":
                    return e["name"]
                elif k == "DeclRefExpr":
                    return e["referencedDecl"]["name"]
                elif k == "BinaryOperator":
                    e = e["inner"][0]
                elif k in ("CXXOperatorCallExpr",):
                    e = e["inner"][1]
                elif k in ("CXXMemberCallExpr",):
                    return "()"
                elif k == "CXXThisExpr":
                    return "this"
                else:
                    return k

        def walk(e):
            k = e.get("kind")
            tgt = None
            if k in ("BinaryOperator", "CompoundAssignOperator") and (e["opcode"] == "=" or k == "CompoundAssignOperator"):
                tgt = e["inner"][0]
            elif k == "UnaryOperator" and e["opcode"] in ("++", "--"):
                tgt = e["inner"][0]
            if tgt is not None:
                t = strip(tgt)
                if not (t["kind"] == "DeclRefExpr" and self.ty.of(t["referencedDecl"]).k != "ref"):
                    b = base(t)
                    if b not in frame:
                        bad.add(b)
            for x in e.get("inner", ()):
                if isinstance(x, dict):
                    walk(x)
        walk(o)
        if bad:
            raise Unsupported("%s: loop writes memory (%s) outside the annotated frame" % (self.q, ", ".join(sorted(bad))))

    def expr_stmt(self, o):
        e = strip(o)
        while e.get("kind") == "ParenExpr":
            e = strip(e["inner"][0])
        # assert()
        if e["kind"] == "ConditionalOperator" and self.ty.of(e).k == "void":
            if calls_named(e["inner"][2], "__assert_fail"):
                c = e["inner"][0]
                return '__CPROVER_assert(%s, "%s: source assertion line %s");' % (
                    self.x(c), self.q, e.get("_beg", ("", "?"))[1])
        q = e.get("type", {}).get("qualType", "")
        if "ostream" in q or "ostream" in e.get("type", {}).get("desugaredQualType", ""):
            self.g.dropped.add("stream output")
            return ";"
        if e["kind"] == "CallExpr":
            nm = callee_name(e)
            if nm in DROP_FUNCS:
                self.g.dropped.add(nm)
                return ";"
            if nm in ("exit", "abort", "_exit"):
                return "__CPROVER_assume(0);"
        return self.x(e) + ";"

    # ---- expressions
    def x(self, o):
        o = strip(o)
        k = o["kind"]
        m = getattr(self, "x_" + k, None)
        if not m:
            self.fail(o)
        return m(o)

    def val(self, o):
        """value of an argument passed by value (class copies included)"""
        o = strip(o)
        if o["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            t = self.ty.of(o)
            if t.k == "cls":
                self.tmp += 1
                nm = "vp_t%d" % self.tmp
                return "({ %s; %s %s; })" % (self.g.ctype(t, nm), self.construct(nm, t, o), nm)
        return self.x(o)

    def addr(self, o):
        """address of an lvalue (or of a temporary holding a prvalue)"""
        o = strip(o)
        if o["kind"] == "ParenExpr":
            return self.addr(o["inner"][0])
        if o["kind"] == "ImplicitCastExpr" and o.get("castKind") == "NoOp":
            return self.addr(o["inner"][0])
        if o.get("valueCategory") in ("lvalue", "xvalue"):
            s = self.x(o)
            m = re.match(r"^\(\*(\w+)\)$", s)
            return m.group(1) if m else "&" + s
        t = self.ty.of(o)
        if t.k == "cls":
            self.tmp += 1
            nm = "vp_t%d" % self.tmp
            return "&(%s){ %s }" % (self.g.ctype(t) , self.val(o)) if False else "&%s" % self.hoist(t, o)
        if o["kind"] in ("MaterializeTemporaryExpr",):
            return self.addr(o["inner"][0])
        return "&(%s){ %s }" % (self.g.ctype(t), self.x(o))

    def hoist(self, t, o):
        return "((%s[1]){ %s })[0]" % (self.g.ctype(t), self.val(o))

    def x_ParenExpr(self, o):
        return "(%s)" % self.x(o["inner"][0])

    def x_ConstantExpr(self, o):
        return self.x(o["inner"][0])

    def x_ExprWithCleanups(self, o):
        return self.x(o["inner"][0])

    def x_MaterializeTemporaryExpr(self, o):
        return self.x(o["inner"][0])

    def x_SubstNonTypeTemplateParmExpr(self, o):
        inner = [x for x in o["inner"] if x["kind"] not in ("NonTypeTemplateParmDecl",)]
        return self.x(inner[-1])

    def x_IntegerLiteral(self, o):
        t = self.ty.of(o)
        v = int(o["value"])
        suf = {("int", 32): "", ("uint", 32): "u", ("int", 64): "L", ("uint", 64): "uL"}.get((t.k, t.bits), "")
        if t.bits < 32:
            return "((%s)%d)" % (self.g.ctype(t), v)
        return "%d%s" % (v, suf)

    def x_CharacterLiteral(self, o):
        return "((int8_t)%d)" % (o["value"] if o["value"] < 128 else o["value"] - 256)

    def x_FloatingLiteral(self, o):
        return o["value"] if ("." in o["value"] or "e" in o["value"].lower()) else o["value"] + ".0"

    def x_CXXBoolLiteralExpr(self, o):
        return "1" if o["value"] else "0"

    def x_StringLiteral(self, o):
        return o["value"]

    def x_GNUNullExpr(self, o):
        return "0"

    def x_CXXNullPtrLiteralExpr(self, o):
        return "0"

    def x_ImplicitValueInitExpr(self, o):
        return "0"

    def x_CXXScalarValueInitExpr(self, o):
        return "0"

    def x_CXXThisExpr(self, o):
        return "self"

    def x_UnaryExprOrTypeTraitExpr(self, o):
        if o.get("name") != "sizeof":
            self.fail(o, o.get("name", ""))
        if "argType" in o:
            return "sizeof(%s)" % self.g.ctype(self.ty.parse(o["argType"].get("desugaredQualType") or o["argType"]["qualType"]))
        return "sizeof(%s)" % self.x(o["inner"][0])

    def x_DeclRefExpr(self, o):
        d = o["referencedDecl"]
        k = d["kind"]
        if k == "EnumConstantDecl":
            if d["id"] in self.g.ix.enumconst:
                return str(self.g.ix.enumconst[d["id"]][1])
            self.fail(o, "enum constant " + d["name"])
        if k in ("VarDecl", "ParmVarDecl"):
            if d["id"] in self.g.ix.vars:
                return self.g.const_var(self.g.ix.vars[d["id"]])
            t = self.ty.of(d)
            if t.k == "ref":
                return "(*%s)" % d["name"]
            if d["name"] in ("stdout", "stdin", "stderr"):
                return "vp_" + d["name"]
            return d["name"]
        if k in ("FunctionDecl", "CXXMethodDecl"):
            f = self.g.ix.resolve(d["id"])
            if f is not None:
                return self.g.need(f)
        self.fail(o, "ref to " + k + " " + d.get("name", ""))

    def x_MemberExpr(self, o):
        base = o["inner"][0]
        nm = o["name"]
        mid = o.get("referencedMemberDecl")
        if mid in self.g.ix.vars:      # static member through object syntax
            return self.g.const_var(self.g.ix.vars[mid])
        bt = self.ty.of(base)
        t = self.ty.of(o)
        if o.get("isArrow"):
            b = self.x(base)
            s = "%s->%s" % (b if re.match(r"^\w+$", b) else "(%s)" % b, nm)
        else:
            s = "%s.%s" % (self.x(base), nm)
        fd = self.g.ix.by_id.get(mid)
        if fd is not None and self.ty.of(fd).k == "ref":
            return "(*%s)" % s
        return s

    def x_ArraySubscriptExpr(self, o):
        return "%s[%s]" % (self.x(o["inner"][0]), self.x(o["inner"][1]))

    def x_UnaryOperator(self, o):
        op = o["opcode"]
        e = self.x(o["inner"][0])
        if op == "&":
            return self.addr(o["inner"][0])
        if op in ("++", "--"):
            return "(%s%s)" % (e, op) if o.get("isPostfix") else "(%s%s)" % (op, e)
        if op == "*":
            return "(*%s)" % e
        if op in ("__extension__",):
            return e
        return "(%s%s)" % (op, e)

    def x_BinaryOperator(self, o):
        a, b = o["inner"]
        op = o["opcode"]
        if op == ",":
            return "(%s, %s)" % (self.x(a), self.x(b))
        return "(%s %s %s)" % (self.x(a), op, self.x(b))

    def x_CompoundAssignOperator(self, o):
        a, b = o["inner"]
        ct = self.ty.parse(o["computeResultType"].get("desugaredQualType") or o["computeResultType"]["qualType"])
        return "(%s %s %s)" % (self.x(a), o["opcode"], self.x(b))

    def x_ConditionalOperator(self, o):
        a, b, c = o["inner"]
        if calls_named(c, "__assert_fail"):
            return '__CPROVER_assert(%s, "%s: source assertion")' % (self.x(a), self.q)
        if o.get("valueCategory") == "lvalue" and self.ty.of(o).k == "cls":
            return "(*(%s ? %s : %s))" % (self.x(a), self.addr(b), self.addr(c))
        return "(%s ? %s : %s)" % (self.x(a), self.x(b), self.x(c))

    def cast(self, o):
        ck = o.get("castKind")
        e = o["inner"][0]
        t = self.ty.of(o)
        if ck in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "ArrayToPointerDecay", "ConstructorConversion", "UserDefinedConversion"):
            if ck == "UserDefinedConversion":
                inner = strip(e)
                # vector<bool>::reference -> bool
                if inner["kind"] == "CXXMemberCallExpr" and inner["inner"][0].get("name") == "operator bool":
                    return self.x(inner["inner"][0]["inner"][0])
            return self.x(e)
        if ck in ("IntegralCast", "BitCast", "FloatingCast", "IntegralToFloating", "FloatingToIntegral", "PointerToIntegral", "IntegralToPointer", "LValueBitCast"):
            return "((%s)%s)" % (self.g.ctype(t), self.x(e))
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return "(%s != 0)" % self.x(e)
        if ck == "NullToPointer":
            return "((%s)0)" % self.g.ctype(t)
        if ck in ("UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived"):
            if t.k == "ptr":
                return "((%s)%s)" % (self.g.ctype(t), self.x(e))
            return "(*(%s*)%s)" % (self.g.ctype(t), self.addr(e))
        if ck == "ToVoid":
            return "((void)%s)" % self.x(e)
        self.fail(o, "cast " + str(ck))

    x_ImplicitCastExpr = cast
    x_CStyleCastExpr = cast
    x_CXXStaticCastExpr = cast
    x_CXXReinterpretCastExpr = cast
    x_CXXConstCastExpr = cast

    def x_CXXFunctionalCastExpr(self, o):
        return self.cast(o)

    def x_CXXConstructExpr(self, o):
        t = self.ty.of(o)
        args = [a for a in o.get("inner", ())]
        return self.val(o)

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def x_InitListExpr(self, o):
        t = self.ty.of(o)
        if t.k == "arr":
            return "{ %s }" % ", ".join(self.x(x) for x in o.get("inner", ()))
        if t.is_int():
            return self.x(o["inner"][0]) if o.get("inner") else "0"
        self.fail(o)

    def x_CXXDefaultArgExpr(self, o):
        self.fail(o)

    def x_CXXNewExpr(self, o):
        t = self.ty.of(o)
        inner = o.get("inner", ())
        if o.get("isArray"):
            return "((%s)vp_new((%s) * sizeof(%s)))" % (self.g.ctype(t), self.x(inner[0]), self.g.ctype(t.sub))
        self.tmp += 1
        nm = "vp_n%d" % self.tmp
        ct = [x for x in inner if x["kind"] in ("CXXConstructExpr",)]
        con = self.construct("(*%s)" % nm, t.sub, ct[0]) if ct else ""
        return "({ %s = vp_new(sizeof(%s)); %s %s; })" % (self.g.ctype(t, nm), self.g.ctype(t.sub), con, nm)

    def x_CXXDeleteExpr(self, o):
        self.g.dropped.add("delete")
        return "((void)0)"

    def x_CallExpr(self, o):
        g = self.g
        callee = strip(o["inner"][0])
        while callee["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            callee = callee["inner"][0]
        args = o["inner"][1:]
        if callee["kind"] == "MemberExpr":   # static method through object
            f = g.ix.resolve(callee.get("referencedMemberDecl"))
            return self.call(f, None, args, o)
        if callee["kind"] != "DeclRefExpr":
            self.fail(o, "indirect call")
        d = callee["referencedDecl"]
        f = g.ix.resolve(d["id"])
        if f is not None:
            return self.call(f, None, args, o)
        return self.std_call(d["name"], args, o)

    def call(self, f, selfarg, args, o):
        g = self.g
        rec = pub(f.qual) + "#rec"          # recursive activations are replaced by the contract under proof
        if rec in g.stubs:
            g.used_models.add(rec)
            n = g.stubs[rec]
        else:
            n = g.need(f)
        a = self.args(f, args)
        if selfarg is not None:
            a = [selfarg] + a
        s = "%s(%s)" % (n, ", ".join(a))
        if f.kind not in ("CXXConstructorDecl", "CXXDestructorDecl") and g.ret_type(f).k == "ref":
            return "(*%s)" % s
        return s

    def std_call(self, name, args, o):
        g = self.g
        if name in ("min", "max"):
            t = self.ty.of(o)
            if t.k == "ref":
                t = t.sub
            en = g.elem_name(t)
            g.used_models.add("std::" + name)
            return "VP_%s(%s, %s, %s)" % (name.upper(), g.ctype(t), self.x(args[0]), self.x(args[1]))
        if name in ("fill", "copy", "fill_n", "reverse", "sort", "accumulate", "partial_sum"):
            t0 = self.ty.of(args[0])
            if t0.k != "ptr":
                self.fail(o, "std::%s on %s" % (name, t0.name))
            en = g.elem_name(t0.sub)
            g.used_models.add("std::" + name)
            return "vp_%s_%s(%s)" % (name, en, ", ".join(self.x(a) for a in args))
        if name == "swap":
            t = self.ty.of(args[0])
            self.tmp += 1
            return "({ %s = %s; %s = %s; %s = vp_s%d; })" % (g.ctype(t, "vp_s%d" % self.tmp), self.x(args[0]), self.x(args[0]), self.x(args[1]), self.x(args[1]), self.tmp)
        if name == "make_pair":
            t = self.ty.of(o)
            self.g.struct_ref(t)
            return "((%s){ %s, %s })" % (g.ctype(t), self.x(args[0]), self.x(args[1]))
        if name in STD_FUNCS:
            g.used_models.add(name)
            return "vp_%s(%s)" % (name, ", ".join(self.x(a) for a in args))
        if name.startswith("__builtin_"):
            return "%s(%s)" % (name, ", ".join(self.x(a) for a in args))
        if name in DROP_FUNCS:
            return "((void)0)"
        if name in ("move", "forward"):
            return self.x(args[0])
        self.fail(o, "call to " + name)

    def x_CXXMemberCallExpr(self, o):
        g = self.g
        me = o["inner"][0]
        while me["kind"] in ("ParenExpr",):
            me = me["inner"][0]
        args = o["inner"][1:]
        if me["kind"] != "MemberExpr":
            self.fail(o, "member call")
        obj = me["inner"][0]
        ot = self.ty.of(obj)
        if me.get("isArrow"):
            selfp = self.x(obj)
            ct = ot.sub
        else:
            selfp = self.addr(obj)
            ct = ot
        f = g.ix.resolve(me.get("referencedMemberDecl"))
        if f is not None:
            if f.static:
                return self.call(f, None, args, o)
            return self.call(f, selfp, args, o)
        if ct is not None and ct.k == "cls":
            base, targs = split_targs(ct.name)
            if base == "std::vector":
                return self.vec_call(ct, targs, me["name"], selfp, args, o)
            if base in ("std::basic_string", "std::string", "std::__cxx11::basic_string") and me["name"] in ("size", "length", "empty"):
                g.used_models.add("std::string::" + me["name"])
                return "(vp_string_size(%s)%s)" % (selfp, " == 0" if me["name"] == "empty" else "")
            if base in ("std::map", "std::list", "std::queue"):
                args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
                pre = g.struct_ref(ct)[7:]
                g.used_models.add(base + "::" + me["name"])
                if me["name"] == "splice":      # only whole lists at the end
                    pos = args[0]
                    while pos.get("kind") in ("CXXConstructExpr", "ImplicitCastExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "CXXFunctionalCastExpr"):
                        pos = pos["inner"][0]
                    if len(args) != 2 or pos.get("kind") != "CXXMemberCallExpr" or pos["inner"][0].get("name") != "end" or self.addr(pos["inner"][0]["inner"][0]) != selfp:
                        self.fail(o, "splice elsewhere")
                    return "%s_splice(%s, %s)" % (pre, selfp, self.addr(args[1]))
                r = "%s_%s(%s)" % (pre, me["name"], ", ".join([selfp] + [self.val(a) for a in args]))
                return "(*%s)" % r if me["name"] in ("front", "back") else r
        self.fail(o, "method %s of %s" % (me.get("name"), ct.name if ct else "?"))

    def vec_call(self, ct, targs, name, selfp, args, o):
        g = self.g
        et = self.ty.parse(targs[0])
        en = g.elem_name(et)
        g.struct_ref(ct)
        g.used_models.add("std::vector::" + name)
        if name == "push_back":
            return "vec_%s_push_back(%s, %s)" % (en, selfp, self.val(args[0]))
        if name in ("size", "empty", "clear", "pop_back", "capacity"):
            return "vec_%s_%s(%s)" % (en, name, selfp)
        if name in ("resize", "reserve"):
            args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
            if name == "resize" and len(args) == 2:
                return "vec_%s_resize_fill(%s, %s, %s)" % (en, selfp, self.x(args[0]), self.val(args[1]))
            return "vec_%s_%s(%s, %s)" % (en, name, selfp, self.x(args[0]))
        if name in ("back", "front"):
            return "(*vec_%s_%s(%s))" % (en, name, selfp)
        if name in ("begin", "end"):
            return "vec_%s_%s(%s)" % (en, name, selfp)
        if name == "at":
            return "(*vec_%s_at(%s, %s))" % (en, selfp, self.x(args[0]))
        self.fail(o, "std::vector::" + name)

    def x_CXXOperatorCallExpr(self, o):
        g = self.g
        callee = strip(o["inner"][0])
        while callee["kind"] in ("ImplicitCastExpr",):
            callee = callee["inner"][0]
        d = callee["referencedDecl"]
        args = o["inner"][1:]
        t0 = self.ty.of(args[0])
        if t0.k == "ptr":     # iterator operators on vector iterators = pointer operators
            op = d["name"][len("operator"):]
            if op in ("++", "--"):
                return "(%s%s)" % (self.x(args[0]), op) if len(args) == 2 else "(%s%s)" % (op, self.x(args[0]))
            if op == "*" and len(args) == 1:
                return "(*%s)" % self.x(args[0])
            if op == "->":
                return self.x(args[0])
            if op in ("==", "!=", "<", ">", "<=", ">=", "+", "-", "+=", "-=", "=") and len(args) == 2:
                return "(%s %s %s)" % (self.x(args[0]), op, self.x(args[1]))
            if op == "[]":
                return "%s[%s]" % (self.x(args[0]), self.x(args[1]))
            self.fail(o, d["name"] + " on iterator")
        f = g.ix.resolve(d["id"])
        if f is not None and (f.body is not None or g.is_stub(f)) and not f.node.get("isImplicit"):
            return self.call(f, self.addr(args[0]), args[1:], o)
        if d["name"] == "operator=" and t0.k == "cls":
            base, targs = split_targs(t0.name)
            if base == "std::vector":
                en = g.elem_name(self.ty.parse(targs[0]))
                return "vec_%s_copy(%s, %s)" % (en, self.addr(args[0]), self.addr(args[1]))
            if base == "std::_Bit_reference":
                return "(%s = %s)" % (self.x(args[0]), self.x(args[1]))
            t1 = self.ty.of(args[1])
            if base == "std::pair" and t1.k == "cls" and split_targs(t1.name)[0] == "std::pair" and g.struct_ref(t1) != g.struct_ref(t0):
                self.tmp += 1
                n = "vp_p%d" % self.tmp
                return "(%s = ({ %s %s = %s; (%s){ %s.first, %s.second }; }))" % (self.x(args[0]), g.ctype(t1), n, self.x(args[1]), g.ctype(t0), n, n)
            return "(%s = %s)" % (self.x(args[0]), self.x(args[1]))
        if d["name"] == "operator[]" and t0.k == "cls":
            base, targs = split_targs(t0.name)
            if base == "std::vector":
                en = g.elem_name(self.ty.parse(targs[0]))
                g.struct_ref(t0)
                return "(*vec_%s_at(%s, %s))" % (en, self.addr(args[0]), self.x(args[1]))
            if base in ("std::basic_string", "std::string", "std::__cxx11::basic_string"):
                g.used_models.add("std::string::operator[]")
                return "(*vp_string_at(%s, %s))" % (self.addr(args[0]), self.x(args[1]))
            if base == "std::map":
                kt, vt = self.ty.parse(targs[0]), self.ty.parse(targs[1])
                g.struct_ref(t0)
                return "(*map_%s_%s_at(%s, %s))" % (g.elem_name(kt), g.elem_name(vt), self.addr(args[0]), self.x(args[1]))
        self.fail(o, d["name"] + " on " + str(t0.name))


def strip(o):
    while o.get("kind") in ("ExprWithCleanups", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "ConstantExpr",
                            "FullExpr") and o.get("inner"):
        o = o["inner"][0]
    return o


def callee_name(o):
    c = o["inner"][0]
    while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
        c = c["inner"][0]
    return c.get("referencedDecl", {}).get("name")


def calls_named(o, nm):
    if o.get("kind") == "CallExpr" and callee_name(o) == nm:
        return True
    return any(calls_named(x, nm) for x in o.get("inner", ()) if isinstance(x, dict) and x.get("kind"))


def ind(s):
    return "\n".join("  " + l for l in s.split("\n"))
