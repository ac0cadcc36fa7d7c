"""cxx2v: mechanical translation of C++ functions (clang AST of the real headers, instantiated)
into Verus.  Every C++ object becomes a ghost value (integers -> int with the C++ range/overflow
rules emitted as obligations, double -> real, containers -> Seq/Set/Map), every statement becomes
the corresponding ghost update, control flow is kept as it is.  Library operations are replaced by
their specification (LIB tables below and prelude.rs).  Nothing is written by hand per function:
contracts (pre/postconditions, loop invariants, hints) come from /verif/ded/contracts/*.py.
An AST shape the translator does not know raises Unsupported: the function is then undecided."""
import json, re, subprocess


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ AST loading
def load_ast(txt):
    d = json.JSONDecoder(); i = 0; o = []
    while True:
        while i < len(txt) and txt[i] in " \n\r\t": i += 1
        if i >= len(txt): break
        if txt[i] != "{":
            i = txt.index("\n", i); continue
        x, i = d.raw_decode(txt, i); o.append(x)
    return o


def annotate(roots):
    """clang prints "file"/"line" only when they change: restore them on every location"""
    st = {"file": None, "line": None}
    def rec(x):
        if isinstance(x, dict):
            if "file" in x and "offset" in x or "file" in x and "line" in x: st["file"] = x["file"]
            if "line" in x and "offset" in x: st["line"] = x["line"]
            if "offset" in x: x["_f"] = st["file"]; x["_l"] = st["line"]
            for k, v in x.items():
                if isinstance(v, (dict, list)): rec(v)
        elif isinstance(x, list):
            for v in x: rec(v)
    for r in roots: rec(r)


_files = {}
def source_text(n):
    r = n.get("range", {}); b, e = r.get("begin", {}), r.get("end", {})
    b = b.get("spellingLoc") or b; e = e.get("spellingLoc") or e
    f = b.get("_f")
    if f is None or "offset" not in b or "offset" not in e: return ""
    if f not in _files:
        try: _files[f] = open(f, "rb").read()
        except OSError: return ""
    return _files[f][b["offset"]:e["offset"] + e.get("tokLen", 1)].decode("utf8", "replace")


def kids(n): return [c for c in n.get("inner", []) if c and "kind" in c]
def qual(n):
    t = n.get("type") or {}
    return t.get("desugaredQualType") or t.get("qualType") or ""


# ------------------------------------------------------------------ types
INTS = {"int": (32, 1), "unsigned int": (32, 0), "unsigned": (32, 0), "long": (64, 1), "unsigned long": (64, 0), "long long": (64, 1), "unsigned long long": (64, 0), "short": (16, 1), "unsigned short": (16, 0), "char": (8, 1), "signed char": (8, 1), "unsigned char": (8, 0), "std::size_t": (64, 0), "size_t": (64, 0), "std::ptrdiff_t": (64, 1), "std::uint64_t": (64, 0), "__int128": (128, 1), "uint64_t": (64, 0), "unsigned __int128": (128, 0)}


class Ty:
    """k: int/bool/real/seq/set/map/tup/opt/struct/iter/graph/edge/unit/opaque/fun"""
    def __init__(self, k, **kw):
        self.k = k; self.__dict__.update(kw)
    def v(self):
        k = self.k
        if k in ("int", "iter", "handle", "ptr"): return "int"
        if k == "bool": return "bool"
        if k == "real": return "real"
        if k == "seq": return "Seq<%s>" % self.e.v()
        if k == "set": return "Set<%s>" % self.e.v()
        if k == "map": return "Map<%s, %s>" % (self.e.v(), self.f.v())
        if k == "tup": return "(" + ", ".join(t.v() for t in self.ts) + ("," if len(self.ts) == 1 else "") + ")"
        if k == "opt": return "Option<%s>" % self.e.v()
        if k == "struct": return self.name
        if k == "graph": return "G"
        if k == "edge": return "Edge"
        if k == "unit": return "()"
        if k == "opaque": return self.name
        raise Unsupported("no model type for " + k)
    def __repr__(self): return "Ty(%s)" % ", ".join("%s=%r" % x for x in self.__dict__.items())


TINT = Ty("int", bits=32, sg=1); TSZ = Ty("int", bits=64, sg=0); TBOOL = Ty("bool"); TREAL = Ty("real"); TUNIT = Ty("unit")


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([": d += 1
        if ch in ">)]": d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out


def strip_cv(s):
    s = s.strip()
    while True:
        o = s
        s = re.sub(r"^(const|volatile|struct|class|typename|enum)\s+", "", s).strip()
        s = re.sub(r"\s*(const|volatile)$", "", s).strip()
        if s == o: return s


def strip_ref(s):
    s = strip_cv(s)
    while s.endswith("&"): s = strip_cv(s[:-1])
    return s


def tmpl(s):
    """'a::b<x, y>' -> ('a::b', ['x','y'], rest)"""
    i = s.find("<")
    if i < 0: return s, [], ""
    d = 0
    for j in range(i, len(s)):
        if s[j] == "<": d += 1
        elif s[j] == ">":
            d -= 1
            if d == 0: return s[:i], split_args(s[i + 1:j]), s[j + 1:]
    return s, [], ""


RES = set("as async await become box break const continue crate do dyn else enum extern false final fn for if impl in let loop macro match mod move mut override priv pub ref return self static struct super trait true try type typeof union unsafe unsized use virtual where while yield int nat real spec proof exec ghost tracked open closed forall exists choose old implies is has matches assert assume requires ensures invariant decreases recommends via when trigger broadcast any arb tst".split())


def safe(n): return n + "_" if n in RES else n


# ------------------------------------------------------------------ lvalues
class LV:
    def __init__(self, root, ty, steps=(), roots=None, ro=False):
        self.root, self.ty, self.steps, self.ro = root, ty, tuple(steps), ro
    def get(self):
        s = self.root
        for st in self.steps:
            if st[0] == "f": s += "." + st[1]
            elif st[0] == "i": s += "[%s]" % st[1]
            elif st[0] == "k": s += "[%s]" % st[1]
            elif st[0] == "t": s += ".%d" % st[1]
            elif st[0] == "some": s = "%s->0" % s
        return s
    def at(self, step, ty): return LV(self.root, ty, self.steps + (step,), ro=self.ro)
    def upd(self, val):
        def rec(base, steps, ty):
            if not steps: return val
            st = steps[0]
            if st[0] == "f":
                return "%s { %s: %s, ..%s }" % (st[2], st[1], rec(base + "." + st[1], steps[1:], None), base)
            if st[0] == "i": return "%s.update(%s, %s)" % (base, st[1], rec("%s[%s]" % (base, st[1]), steps[1:], None))
            if st[0] == "k": return "%s.insert(%s, %s)" % (base, st[1], rec("%s[%s]" % (base, st[1]), steps[1:], None))
            if st[0] == "t":
                n = st[2]
                return "(" + ", ".join(rec("%s.%d" % (base, st[1]), steps[1:], None) if i == st[1] else "%s.%d" % (base, i) for i in range(n)) + ("," if n == 1 else "") + ")"
            raise Unsupported("update through " + st[0])
        return rec(self.root, self.steps, None)


class Val:
    """an rvalue: spec text + type; lv when it also denotes an object"""
    def __init__(self, s, ty, lv=None): self.s, self.ty, self.lv = s, ty, lv


WIDE = re.compile(r"^[\w.]+$|^-?\d+$|^\(.*\)$")
def par(s): return s if re.match(r"^[\w.\[\]@]+$", s) else "(" + s + ")"


# ------------------------------------------------------------------ program index
class Prog:
    def __init__(self, roots):
        self.by_id, self.qname, self.fields, self.parent, self.is_inst = {}, {}, {}, {}, {}
        self.by_id0 = {}
        self.alias = {}                 # typedef id/name -> type string
        self.methods = []
        self.specs = {}
        for r in roots: self.walk(r, "", False, None)

    def spec_name(self, n):
        a = []
        for c in kids(n):
            if c["kind"] == "TemplateArgument":
                if "type" in c: a.append(c["type"].get("desugaredQualType") or c["type"]["qualType"])
                elif "value" in c: a.append(str(c["value"]))
        return n.get("name", "") + ("<" + ", ".join(a) + ">" if a else "")

    def walk(self, n, q, inst, cls):
        k = n.get("kind")
        if not k: return
        nm = n.get("name", "")
        i = n.get("id")
        if k == "ClassTemplateDecl":
            for c in kids(n): self.walk(c, q, inst, cls)
            return
        if k == "NamespaceDecl":
            for c in kids(n): self.walk(c, q + nm + "::", inst, cls)
            return
        if k in ("ClassTemplateSpecializationDecl", "CXXRecordDecl"):
            sp = k == "ClassTemplateSpecializationDecl"
            name = q + (self.spec_name(n) if sp else nm)
            if i:
                if i not in self.by_id or len(kids(n)) > len(kids(self.by_id[i])): self.by_id[i] = n
                self.qname[i] = name
            fl = []
            for c in kids(n):
                if c["kind"] == "FieldDecl": fl.append((c.get("name"), c, c.get("hasInClassInitializer")))
            if fl or (sp and i not in self.fields): self.fields[i] = fl
            if not n.get("isImplicit"): self.specs.setdefault(nm, []).append((name, n, sp or inst))
            for c in kids(n): self.walk(c, name + "::", inst or sp, n)
            return
        if k == "FunctionTemplateDecl":
            first = True
            for c in kids(n):
                if c["kind"] in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl"):
                    self.walk(c, q, (not first), cls); first = False
            return
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            has = any(c["kind"] == "CompoundStmt" for c in kids(n))
            self.by_id0.setdefault(i, n)
            if i not in self.by_id or has:
                self.by_id[i] = n
            self.qname.setdefault(i, q + nm); self.parent.setdefault(i, cls); self.is_inst[i] = inst
            for c in kids(n):
                if c["kind"] == "ParmVarDecl": self.by_id.setdefault(c.get("id"), c)
            if has and n.get("previousDecl"):
                self.by_id[n["previousDecl"]] = n; self.qname.setdefault(n["previousDecl"], q + nm)
            if has: self.methods.append(n)
            for c in kids(n): self.deep(c)
            return
        if k in ("TypedefDecl", "TypeAliasDecl"):
            t = n.get("type", {})
            self.alias.setdefault(nm, set()).add(t.get("desugaredQualType") or t.get("qualType"))
            return
        for c in kids(n): self.walk(c, q, inst, cls)

    def deep(self, n):
        """lambdas and local typedefs inside bodies"""
        if n.get("kind") == "LambdaExpr":
            for c in kids(n):
                if c["kind"] == "CXXRecordDecl":
                    for m in kids(c):
                        ms = [m] if m["kind"] == "CXXMethodDecl" else [x for x in kids(m) if x["kind"] == "CXXMethodDecl"] if m["kind"] == "FunctionTemplateDecl" else []
                        for x in ms:
                            if x.get("name") == "operator()": self.by_id[x["id"]] = x
        for c in kids(n): self.deep(c)

    def get_index(self, f):
        t = source_text(f)
        m = re.search(r"get\s*<\s*(\d+)\s*>?", t)
        return int(m.group(1)) if m else None

    # contracts name a function as  Class::name(paramtypes)  with short parameter spellings
    def find(self, pat, nth=None, npar=None, sig=None):
        """pat: regex on the qualified name; returns the instantiated decl with a body"""
        out = []
        for n in self.methods:
            i = n["id"]
            if not re.fullmatch(pat, self.qname.get(i, "")): continue
            ps = [c for c in kids(n) if c["kind"] == "ParmVarDecl"]
            if npar is not None and len(ps) != npar: continue
            if sig is not None and not re.search(sig, n["type"]["qualType"]): continue
            if not self.is_inst.get(i) and self._has_dep(n): continue
            if n not in out: out.append(n)
        return out

    def _has_dep(self, n):
        t = json.dumps(n)
        return "<dependent type>" in t or "CXXDependentScope" in t or "UnresolvedLookup" in t or "CXXUnresolvedConstruct" in t


class Types:
    def __init__(self, prog):
        self.p = prog; self.structs = {}; self.order = []
        self.cache = {}; self.local = {}  # local: typedefs of the function being translated
        self.user_opaque = set()
        self.regions = None      # classes that own a heap of shared nodes; shared_ptr is then an index into it (-1: null)

    def of(self, n): 
        t = n.get("type") or {}
        return self.parse2(t.get("desugaredQualType"), t.get("qualType"))

    def parse2(self, a, b):
        e = None
        for s in (b, a):
            if s:
                try: return self.parse(s)
                except Unsupported as x: e = e or x
        raise e or Unsupported("no type")

    def parse(self, s):
        s = strip_ref(s)
        for k, v in self.local.items():
            if k in s: s = re.sub(r"(?<![:\w])%s(?!\w|::)" % k, lambda m: v, s)
        if s in self.cache: return self.cache[s]
        r = self._parse(s)
        self.cache[s] = r
        return r

    def _parse(self, s):
        if s in INTS: b, g = INTS[s]; return Ty("int", bits=b, sg=g)
        if s == "bool": return TBOOL
        if s in ("double", "float", "long double"): return TREAL
        if s == "void": return TUNIT
        if s.endswith("*") or s.endswith("]"):
            m = re.match(r"^(.*)\[(\d+)\]$", s)
            if m: return Ty("seq", e=self.parse(m.group(1)), kind="array", fixed=int(m.group(2)))
            if s.endswith("*") and "enable_if" in s: return Ty("opaque", name="Nil", what="nil")
            if s.endswith("*"): raise Unsupported("pointer type " + s)
        base, args, rest = tmpl(s)
        base = base.replace("class ", "").strip()
        if rest.strip().startswith("::"):
            if base.split("::")[-1] == "graph_traits" and "adjacency_list" in args[0]:
                if rest.strip() == "::vertex_descriptor": return TSZ
                if rest.strip() == "::edge_descriptor": return Ty("edge")
            if base.split("::")[-1] == "property_traits" and "edge_property_map<" in args[0] and "edge_weight_t" in args[0] and rest.strip() == "::value_type" and re.search(r"undirected_tag, double,", args[0]): return TREAL
            raise Unsupported("nested type " + s)
        b = base.split("::")[-1]
        if base in ("std::vector", "std::deque", "std::list", "std::queue", "std::stack", "std::initializer_list") or b == "concurrent_vector" or base in ("vector", "list", "deque", "queue"):
            return Ty("seq", e=self.parse(args[0]), kind=b)
        if base in ("std::set", "std::unordered_set", "set"):
            e = self.parse(args[0])
            return Ty("set", e=TINT if e.k == "edge" else e, elem=e, kind=b)
        if base in ("std::map", "std::unordered_map", "map"):
            e = self.parse(args[0]); f = self.parse(args[1])
            return Ty("map", e=TINT if e.k == "edge" else e, f=f, elem=e, kind=b)
        if base in ("std::pair", "pair", "std::tuple", "tuple", "boost::tuples::tuple", "boost::tuple", "boost::tuples::cons"):
            a = [x for x in args if "null_type" not in x]
            return Ty("tup", ts=[self.parse(x) for x in a])
        if self.regions and base in ("std::shared_ptr", "shared_ptr"): return Ty("ptr", e=self.parse(args[0]), region=None)
        if base in ("std::shared_ptr", "std::unique_ptr", "shared_ptr"): return Ty("opt", e=self.parse(args[0]))
        if "adjacency_list" in b and "iterator" not in s: return Ty("graph")
        if b == "edge_desc_impl": return Ty("edge")
        if b == "__normal_iterator" or b in ("_List_iterator", "_List_const_iterator", "_Rb_tree_iterator", "_Rb_tree_const_iterator", "_Node_iterator", "_Node_const_iterator", "_Rb_tree_iterator", "out_edge_iter", "undirected_edge_iter", "integer_iterator", "counting_iterator", "vector_iterator", "_Deque_iterator") or b.endswith("_iterator") or b.endswith("_iter"):
            return Ty("iter", raw=s)
        if b in ("vec_adj_list_vertex_id_map", "vec_adj_list_vertex_property_map"): return Ty("opaque", name="VIdx", what="index_map")
        if b == "adj_list_edge_property_map": return Ty("seq", e=self.parse(args[2]) if len(args) > 2 else TREAL, kind="edge_pm")
        if b == "node_handle" or b == "handle_type": return Ty("handle")
        if b == "function_property_map":
            try: f = self.parse(args[0])
            except Unsupported: f = None
            if f is not None and f.k == "struct":
                vf = [(n, t) for n, t in f.fs if t.k == "seq"]
                if len(vf) == 1 and all(t.k in ("opaque", "seq") for _, t in f.fs): return Ty("seq", e=vf[0][1].e, kind="vpm", functor=f, vfield=vf[0][0])
        if b in ("function_property_map", "associative_property_map", "iterator_property_map"): return Ty("opaque", name="PM", what="pm", raw=s)
        if b == "cpu_timer": return Ty("opaque", name="Timer", what="timer")
        if b in ("less", "plus", "greater"): return Ty("opaque", name="Fn_" + b, what=b, args=args)
        # user classes
        if b in self.p.specs:
            cands = [(nm, n) for nm, n, inst in self.p.specs[b] if inst or "<" not in nm]
            if any("<" in nm for nm, _ in cands): cands = [(nm, n) for nm, n in cands if "<" in nm]
            best = None
            want = tmpl(s)[1]
            for nm, n in cands:
                have = tmpl(nm)[1]
                if len(have) == len(want) and all(self.same(x, y) for x, y in zip(have, want)): best = (nm, n)
            if best is None and len(cands) == 1: best = cands[0]
            if best: return self.struct(best[0], best[1])
        if s in self.p.alias and len(self.p.alias[s]) == 1:
            t = next(iter(self.p.alias[s]))
            if t != s: return self.parse(t)
        if base in self.p.alias and not args:
            for t in self.p.alias[base]:
                if t and t != s:
                    try: return self.parse(t)
                    except Unsupported: pass
        if "::" in s and not args:
            tail = s.split("::")[-1]
            if tail in self.p.alias:
                al = [t for t in self.p.alias[tail] if t and t != s]
                ok = []
                for t in al:
                    try: ok.append(self.parse(t))
                    except Unsupported: pass
                if len({o.v() for o in ok if o.k not in ("opaque",)}) == 1 and ok: return ok[0]
        raise Unsupported("type " + s)

    def same(self, x, y):
        x, y = strip_ref(x), strip_ref(y)
        if x == y: return True
        bl = {"0": "false", "1": "true"}
        if bl.get(x, x) == bl.get(y, y): return True
        try: return self.parse(x).v() == self.parse(y).v()
        except Unsupported: return x.split("<")[0].split("::")[-1] == y.split("<")[0].split("::")[-1]

    def struct(self, name, n):
        i = n["id"]
        if i in self.structs: return self.structs[i]
        n = self.p.by_id.get(i, n)
        short = re.sub(r"\W+", "_", name.split("<")[0].split("::")[-1])
        used = {t.name for t in self.structs.values()}
        nm = short
        while nm in used: nm += "_"
        t = Ty("struct", name=nm, decl=n, fs=[])
        self.structs[i] = t
        for f, c, init in self.p.fields.get(i, []):
            try: ft = self.of(c)
            except Unsupported as e: ft = Ty("opaque", name="Opaque", what="field", why=str(e))
            if getattr(ft, "kind", "") == "vpm" and not qual(c).rstrip().endswith("&"): ft = Ty("opaque", name="Alias", what="alias")
            t.fs.append((safe(f), ft))
        if self.regions and short in self.regions:
            e = self.regions[short]
            def node(x): return x.e if x.k == "ptr" else node(x.e) if x.k == "seq" else None
            es = [node(ft) for _, ft in t.fs if node(ft) is not None]
            if not es or any(x is not es[0] for x in es) or any(f == "hp" for f, _ in t.fs): raise Unsupported("class %s does not own a heap of one kind of node" % short)
            t.fs.append(("hp", Ty("seq", e=es[0], kind="heap"))); t.owner = True
        return t
