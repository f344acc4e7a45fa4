"""Front end: dump clang's AST of /repo's *current* sources and index it.

Everything that is verified is taken from here on every run; nothing is cached
between runs.  The namespaces `utils` and `dcsbwt` are renamed (by -D) to names
containing `bwtc` so that one `-ast-dump-filter=bwtc` selects all repository code.
"""
import glob, json, os, re, subprocess

REPO = os.environ.get("VP_REPO", "/repo")
CLANG = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++-18"


class FrontError(Exception):
    pass


class Unsupported(Exception):
    pass


def repo_sources(repo=None):
    repo = repo or REPO
    out = []
    pats = ["*.cpp", "bwtransforms/*.cpp", "preprocessors/*.cpp", "probmodels/*.cpp"]
    for p in pats:
        for f in sorted(glob.glob(os.path.join(repo, p))):
            txt = open(f, errors="replace").read()
            if re.search(r"\bint\s+main\s*\(", txt):
                continue
            out.append(f)
    return out


def make_tu(extra="", repo=None):
    s = ["#include <cstdio>", "#include <cstdlib>", "#include <cassert>",
         "#include <algorithm>", "#include <string>", "#include <vector>",
         "#include <map>", "#include <iostream>"]
    for f in repo_sources(repo):
        s.append('#include "%s"' % f)
    s.append(extra)
    return "\n".join(s) + "\n"


def dump_ast(tu_path, filt="bwtc"):
    cmd = [CLANG, "-std=gnu++17", "-fsyntax-only", "-w", "-Dutils=utils_bwtc",
           "-Ddcsbwt=dcsbwt_bwtc", "-DMetaData=MetaData_bwtc", "-Xclang", "-ast-dump=json",
           "-Xclang", "-ast-dump-filter=" + filt, tu_path]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise FrontError("clang failed on %s:\n%s" % (tu_path, r.stderr.decode(errors="replace")[-4000:]))
    s = r.stdout.decode(errors="replace")
    d = json.JSONDecoder()
    docs = []
    i, n = 0, len(s)
    while i < n:
        while i < n and s[i] in " \n\r\t":
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        docs.append(o)
    return docs


def norm(s):
    """Normalise a (template) name for comparison."""
    s = s.replace("utils_bwtc::", "").replace("dcsbwt_bwtc::", "").replace("bwtc::", "")
    s = s.replace("(anonymous namespace)::", "")
    s = re.sub(r"\b(class|struct|enum) ", "", s)
    s = re.sub(r"\s+", " ", s.strip())
    s = re.sub(r" ?([<>,*&\[\]()]) ?", r"\1", s)
    s = re.sub(r"(?<=\d)[uU]?[lL]{0,2}(?=[,>])", "", s)
    s = re.sub(r"(?<![\w:])vector<", "std::vector<", s)
    s = re.sub(r"(?<![\w:])(std::)?allocator<", "std::allocator<", s)
    while True:
        t = re.sub(r",std::allocator<[^<>]*>", "", s)
        t = re.sub(r",std::allocator<[^<>]*<[^<>]*>>", "", t)
        if t == s:
            break
        s = t
    s = s.replace("__cxx11::", "")
    return s


def pub(s):
    return s.replace("utils_bwtc", "utils").replace("dcsbwt_bwtc", "dcsbwt")


FUNC_KINDS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl")


class Func:
    __slots__ = ("node", "qual", "cls", "name", "mangled", "kind", "params", "body",
                 "static", "virtual", "file", "line", "inits", "tmpl", "const")

    def __repr__(self):
        return "<Func %s>" % self.qual


class Index:
    def __init__(self, docs):
        self.by_id = {}          # id -> ast node
        self.parent_q = {}       # id -> qualified parent name
        self.funcs = {}          # id -> Func (any redecl)
        self.by_mangled = {}     # mangled -> Func with a body if available
        self.by_qual = {}        # public qualified name -> [Func]
        self.records = {}        # norm name -> record dict
        self.typedefs = {}       # name -> type string
        self.enums = {}          # enum norm name -> True
        self.enumconst = {}      # id -> (name, value)
        self.vars = {}           # id -> VarDecl
        self.var_qual = {}       # qual -> VarDecl
        self._file = None
        self._line = 0
        for d in docs:
            self._walk_locs(d)
        for d in docs:
            self._decl(d, self._ns_of(d), None, False)

    # clang's JSON elides file/line when unchanged: restore them in document order
    def _walk_locs(self, o):
        st = [o]
        # document order traversal
        def upd(loc):
            if not loc:
                return
            for sub in ("spellingLoc", "expansionLoc"):
                if sub in loc:
                    upd(loc[sub])
            if "file" in loc:
                self._file = loc["file"]
            if "line" in loc:
                self._line = loc["line"]
        def rec(o):
            if "loc" in o:
                upd(o["loc"])
                o["_loc"] = (self._file, self._line)
            if "range" in o:
                b = o["range"].get("begin") or {}
                upd(b)
                o["_beg"] = (self._file, self._line)
                upd(o["range"].get("end") or {})
                o["_end"] = (self._file, self._line)
            for x in o.get("inner", ()):
                if isinstance(x, dict):
                    rec(x)
        import sys
        sys.setrecursionlimit(100000)
        rec(o)

    def _ns_of(self, d):
        return ""

    def _decl(self, o, ns, rec, in_tmpl):
        k = o.get("kind")
        if not k:
            return
        if "id" in o:
            self.by_id[o["id"]] = o
        if k in ("NamespaceDecl",):
            q = ns + (o.get("name") + "::" if o.get("name") else "")
            for x in o.get("inner", ()):
                self._decl(x, q, None, in_tmpl)
        elif k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"):
            name = o.get("name", "")
            if o.get("isImplicit"):
                return
            if k == "ClassTemplateSpecializationDecl":
                args = []
                for x in o.get("inner", ()):
                    if x.get("kind") == "TemplateArgument":
                        if "value" in x:
                            args.append(str(x["value"]))
                        elif "type" in x:
                            args.append(x["type"]["qualType"])
                name = "%s<%s>" % (name, ", ".join(args))
            q = ns + name
            self.parent_q[o["id"]] = q
            if in_tmpl and k == "CXXRecordDecl":
                # pattern of a class template: remember members by id only
                for x in o.get("inner", ()):
                    self._decl(x, q + "::", None, True)
                return
            key = norm(q)
            r = self.records.setdefault(key, {"qual": q, "fields": [], "bases": [], "complete": False,
                                              "node": o, "methods": []})
            if o.get("completeDefinition"):
                r["complete"] = True
                r["node"] = o
                r["bases"] = [b["type"].get("desugaredQualType", b["type"]["qualType"]) for b in o.get("bases", ())]
                r["fields"] = [x for x in o.get("inner", ()) if x.get("kind") == "FieldDecl"]
            for x in o.get("inner", ()):
                self._decl(x, q + "::", q, False)
        elif k == "ClassTemplateDecl":
            for x in o.get("inner", ()):
                if x.get("kind") == "CXXRecordDecl":
                    self._decl(x, ns, None, True)
                elif x.get("kind") == "ClassTemplateSpecializationDecl":
                    self._decl(x, ns, None, False)
        elif k == "FunctionTemplateDecl":
            first = True
            for x in o.get("inner", ()):
                if x.get("kind") in FUNC_KINDS:
                    self._decl(x, ns, rec, first)
                    first = False
        elif k in FUNC_KINDS:
            if in_tmpl and not o.get("mangledName"):
                return
            has_targs = any(x.get("kind") == "TemplateArgument" for x in o.get("inner", ()))
            if in_tmpl and not has_targs:
                return
            f = Func()
            f.node = o
            cls = rec
            if cls is None and "parentDeclContextId" in o and o["parentDeclContextId"] in self.parent_q:
                cls = self.parent_q[o["parentDeclContextId"]]
            if cls is None and "previousDecl" in o and o["previousDecl"] in self.funcs:
                cls = self.funcs[o["previousDecl"]].cls
            f.cls = cls
            f.name = o.get("name", "")
            f.qual = (cls + "::" if cls else ns) + f.name
            f.mangled = o.get("mangledName") or f.qual
            f.kind = k
            f.params = [x for x in o.get("inner", ()) if x.get("kind") == "ParmVarDecl"]
            f.body = None
            for x in o.get("inner", ()):
                if x.get("kind") == "CompoundStmt":
                    f.body = x
            f.inits = [x for x in o.get("inner", ()) if x.get("kind") == "CXXCtorInitializer"]
            f.static = o.get("storageClass") == "static"
            f.virtual = bool(o.get("virtual"))
            f.tmpl = has_targs
            f.const = o["type"]["qualType"].rstrip().endswith("const") if "type" in o else False
            prev = self.funcs.get(o.get("previousDecl"))
            if prev is not None:
                f.static = f.static or prev.static
                f.virtual = f.virtual or prev.virtual
            f.file, f.line = o.get("_loc", (None, 0))
            self.funcs[o["id"]] = f
            old = self.by_mangled.get(f.mangled)
            if old is None or (old.body is None and f.body is not None):
                self.by_mangled[f.mangled] = f
            lst = self.by_qual.setdefault(pub(f.qual), [])
            for i, g in enumerate(lst):
                if g.mangled == f.mangled:
                    if g.body is None and f.body is not None:
                        lst[i] = f
                    break
            else:
                lst.append(f)
        elif k in ("TypedefDecl", "TypeAliasDecl"):
            self.typedefs[o["name"]] = o["type"].get("desugaredQualType", o["type"]["qualType"])
        elif k == "EnumDecl":
            if o.get("name"):
                self.enums[norm(ns + o["name"])] = True
            val = 0
            for x in o.get("inner", ()):
                if x.get("kind") == "EnumConstantDecl":
                    v = find_const(x)
                    if v is not None:
                        val = v
                    self.enumconst[x["id"]] = (x["name"], val)
                    self.by_id[x["id"]] = x
                    val += 1
        elif k == "VarDecl":
            self.vars[o["id"]] = o
            q = (rec + "::" if rec else ns) + o.get("name", "")
            o["_qual"] = q
            if q not in self.var_qual or o.get("inner"):
                self.var_qual[q] = o
        elif k == "LinkageSpecDecl":
            for x in o.get("inner", ()):
                self._decl(x, ns, rec, in_tmpl)

    def resolve(self, fid):
        f = self.funcs.get(fid)
        if f is None:
            return None
        return self.by_mangled.get(f.mangled, f)

    def find(self, spec):
        """spec: 'bwtc::X::f' or 'bwtc::X::f|type-substring'."""
        sub = None
        if "|" in spec:
            spec, sub = spec.split("|", 1)
        c = [self.by_mangled.get(f.mangled, f) for f in self.by_qual.get(spec, ())]
        if not c:
            ns = norm(spec)
            for q, fs in self.by_qual.items():
                if norm(q) == ns:
                    c += [self.by_mangled.get(f.mangled, f) for f in fs]
        if sub is not None:
            c = [f for f in c if norm(sub) in norm(f.node["type"]["qualType"])]
        u = {f.mangled: f for f in c}
        c = [f for f in u.values() if f.body is not None] or list(u.values())
        if len(c) != 1:
            raise Unsupported("function %s: %d candidates in the current source (%s)"
                              % (spec, len(c), [f.node["type"]["qualType"] for f in c][:6]))
        return c[0]


def find_const(o):
    if o.get("kind") == "ConstantExpr" and "value" in o:
        return int(o["value"])
    if o.get("kind") == "IntegerLiteral":
        return int(o["value"])
    for x in o.get("inner", ()):
        v = find_const(x)
        if v is not None:
            return v
    return None


def load(workdir, extra_tu="", repo=None):
    tu = os.path.join(workdir, "tu.cpp")
    with open(tu, "w") as f:
        f.write(make_tu(extra_tu, repo))
    return Index(dump_ast(tu))
