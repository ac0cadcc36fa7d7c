"""graph layer of the translator: Boost.Graph adjacency lists, property maps, heaps"""
from tr import *
from cxx2v import *

TEDGE = Ty("edge"); THANDLE = Ty("handle")


def is_ref_class(p, n):
    """classes that only bundle references (functors): kept as aliases, not as values"""
    return any(qual(c).rstrip().endswith("&") for _, c, _ in p.fields.get(n["id"], []))


class TrG(Tr):
    def default(self, ty):
        if ty.k == "handle": return "(-1int)"
        return Tr.default(self, ty)

    # ------------------------------------------------------------ reference bundles
    def ctor_contract(self, t, n):
        """the contract of the constructor that this expression calls"""
        cs = [c for c in self.cs if c.get("ctor") and c.get("decl") and c["thisty"] is t and c is not self.cfg]
        if len(cs) < 2: return cs[0] if cs else None
        sig = n.get("ctorType") or {}; ss = (sig.get("qualType"), sig.get("desugaredQualType"))
        ms = [c for c in cs if c["decl"]["type"].get("qualType") in ss or c["decl"]["type"].get("desugaredQualType", "?") in ss]
        return ms[0] if len(ms) == 1 else None

    def construct(self, t, n, vals, argn=None):
        ct = self.ctor_contract(t, n)
        if ct is not None and argn is not None and len(argn) == len(ct["params"]): return self.call_contract(ct, None, argn, n, vals)
        if not is_ref_class(self.p, t.decl): return Tr.construct(self, t, n, vals, argn)
        def same(v): return isinstance(v, FunV) and v.kind == "obj" and v.t is t
        if vals is None and argn is not None and len(argn) == 1:
            vals = [self.ev(argn[0])]
        if vals and len(vals) == 1 and same(vals[0]):
            if getattr(vals[0], "own", False): raise Unsupported("copy of an object with state: " + t.name)
            return vals[0]
        if vals is None: vals = self.evs(argn or [])
        ds = []
        for x in kids(t.decl):
            ds += [x] if x["kind"] == "CXXConstructorDecl" else [y for y in kids(x) if y["kind"] == "CXXConstructorDecl"] if x["kind"] == "FunctionTemplateDecl" else []
        ds = [self.p.by_id.get(x["id"], x) for x in ds if not x.get("isImplicit")]
        ds = [x for x in ds if len([c for c in kids(x) if c["kind"] == "ParmVarDecl"]) == len(vals) and any(c["kind"] == "CompoundStmt" for c in kids(x))]
        if len(ds) != 1: raise Unsupported("constructor of " + t.name)
        d = ds[0]
        body = [c for c in kids(d) if c["kind"] == "CompoundStmt"][0]
        if kids(body): raise Unsupported("constructor body of " + t.name)
        pre, self.oname = getattr(self, "oname", None), None
        fields = {}; me = FunV("obj", t=t, fields=fields, own=False, by=(d["id"], tuple(v.s for v in vals)))
        saved = self.env; self.env = [{"this": me}]
        for p, v in zip([c for c in kids(d) if c["kind"] == "ParmVarDecl"], vals):
            self.bind(p["id"], v if isinstance(v, (IterV, KeyIt, PairV, FunV, OutIt)) or v.lv is None else self.freeze(v.lv))
        refs = {nm for nm, c, _ in self.p.fields.get(t.decl["id"], []) if qual(c).rstrip().endswith("&")}
        try:
            for x in kids(d):
                if x["kind"] == "CXXCtorInitializer":
                    f = (x.get("anyInit") or {}).get("name")
                    if f is None: raise Unsupported("base initializer")
                    self.heapname = "%s_%s" % (pre or "o", f)
                    v = self.ev(kids(x)[0]); self.heapname = None
                    fields[f] = self.own_field(me, pre, f, v, f in refs)
        finally: self.env = saved
        for f, ft in t.fs:
            if f not in fields and ft.k != "opaque": fields[f] = self.own_field(me, pre, f, Val(self.uninit(ft) if ft.k in ("int", "bool", "real") else self.default(ft), ft), f in refs)
        return me

    def own_field(self, me, pre, f, v, isref):
        """a member held by value is a variable of its own"""
        if isref or (isinstance(v, FunV) and v.kind != "heap"): return v
        if isinstance(v, FunV): me.own = True; return v
        if isinstance(v, (IterV, KeyIt, PairV, OutIt)) or v.ty.k == "opaque": return v
        if v.ty.k == "int" and re.fullmatch(r"\w+", v.s) and v.lv is None: return v
        if v.ty.k in ("int", "bool"): return Val(self.tmp(v.s, v.ty.v(), f), v.ty)
        me.own = True; nm = self.decl("%s_%s" % (pre or "o", f), v.ty.v(), v.s); return Val(nm, v.ty, LV(nm, v.ty))

    # std::reference_wrapper to an object that is not used by its own name any more: the wrapper is the object,
    # and swapping two wrappers swaps what they hold
    def c_ref(self, n, a):
        u = unwrap(a[0])
        if u["kind"] != "DeclRefExpr": raise Unsupported("std::ref")
        i = u["referencedDecl"]["id"]; o = self.look(i)
        if not (isinstance(o, FunV) and o.kind == "obj" and o.own): raise Unsupported("std::ref")
        if self.loops: raise Unsupported("std::ref inside a loop")
        for e in self.env:
            if i in e: e[i] = FunV("retired")
        return FunV("refw", obj=o)
    def h_refw_get(self, o, a, n): return o.obj
    def leaves(self, x, y):
        if isinstance(x, FunV) and x.kind == "obj" and x.own:
            if not (isinstance(y, FunV) and y.kind == "obj" and y.t is x.t and x.by == y.by and set(x.fields) == set(y.fields)): raise Unsupported("swap of different objects")
            return [p for f in x.fields for p in self.leaves(x.fields[f], y.fields[f])]
        if isinstance(x, FunV) and x.kind == "heap": return [(x.lv, y.lv)]
        if isinstance(x, FunV): return []
        if x.lv is None or x.lv.get() == y.lv.get():
            if x.s != y.s:
                if not (x.ty.k == y.ty.k and x.ty.k in ("int", "bool")): raise Unsupported("swap of different objects")
                self.oblige("%s == %s" % (x.s, y.s), "swapped objects agree on their constants")
            return []
        return [(x.lv, y.lv)]
    def c_swap(self, n, a):
        vs = [self.ev(x) for x in a]
        if any(isinstance(v, FunV) for v in vs):
            if not all(isinstance(v, FunV) and v.kind == "refw" for v in vs): raise Unsupported("swap")
            if vs[0].obj is vs[1].obj: return self.U()
            for x, y in self.leaves(vs[0].obj, vs[1].obj):
                t = self.tmp(x.get(), x.ty.v()); self.set(x, y.get()); self.set(y, t)
            return self.U()
        return Tr.c_swap(self, n, a)

    def e_CXXConstructExpr(self, n, want=None):
        q = qual(n)
        c = [x for x in kids(n) if x["kind"] != "CXXDefaultArgExpr"]
        if re.match(r"(boost::)?(d_ary_heap_indirect|heap::pairing_heap|function_property_map|associative_property_map)\b", strip_cv(q)): return self.construct_special(n, strip_cv(q), c)
        if re.match(r"(std::)?reference_wrapper\b", strip_cv(q)):
            v = self.ev(c[0]) if len(c) == 1 else None
            if not (isinstance(v, FunV) and v.kind == "refw") or unwrap(c[0])["kind"] == "DeclRefExpr": raise Unsupported("reference_wrapper")
            return v
        t = self.tyq(n)
        if t is not None and t.k == "struct" and is_ref_class(self.p, t.decl): return self.construct(t, n, None, c)
        return Tr.e_CXXConstructExpr(self, n, want)

    def e_InitListExpr(self, n, want=None):
        t = self.tyq(n)
        if t is not None and t.k == "struct" and is_ref_class(self.p, t.decl): return self.construct(t, n, None, kids(n))
        return Tr.e_InitListExpr(self, n, want)

    def alias_field(self, b, t, name):
        """a by-value member that only refers to another member (a property map over a vector): its constructor initializer, evaluated on the object"""
        key = (t.name, name)
        found = []
        for x in kids(t.decl):
            for y in ([x] if x["kind"] == "CXXConstructorDecl" else [z for z in kids(x) if z["kind"] == "CXXConstructorDecl"] if x["kind"] == "FunctionTemplateDecl" else []):
                y = self.p.by_id.get(y["id"], y)
                for z in kids(y):
                    if z["kind"] == "CXXCtorInitializer" and (z.get("anyInit") or {}).get("name") == name and not y.get("isImplicit"): found.append((y, kids(z)[0]))
        if len(found) != 1: raise Unsupported("member " + name)
        d, e = found[0]
        saved = self.env; self.env = [{"this": b}]
        try: return self.ev(e)
        finally: self.env = saved

    def e_MemberExpr(self, n):
        c = kids(n)
        if c and unwrap(c[0])["kind"] == "CXXThisExpr":
            b = self.look("this")
            if isinstance(b, LV) and b.ty.k == "struct":
                ft = dict(b.ty.fs).get(safe(n.get("name", "")))
                if ft is not None and ft.k == "opaque":
                    if getattr(ft, "what", "") == "alias": return self.alias_field(b, b.ty, n["name"])
                    if getattr(ft, "what", "") == "index_map": return FunV("index_map")
        if c:
            u = unwrap(c[0])
            if u["kind"] == "CXXThisExpr":
                b = self.look("this")
                if isinstance(b, FunV) and b.kind == "obj":
                    f = b.fields.get(n["name"])
                    if f is None: raise Unsupported("member " + n["name"])
                    return self.asval(f)
            elif u["kind"] == "DeclRefExpr":
                b = self.look(u["referencedDecl"]["id"])
                if isinstance(b, FunV) and b.kind == "obj" and n["name"] in b.fields: return self.asval(b.fields[n["name"]])
            elif u["kind"] in ("CXXMemberCallExpr",) or u["kind"] == "CallExpr":
                t = self.tyq(u)
                if t is not None and t.k == "struct" and is_ref_class(self.p, t.decl):
                    b = self.ev(c[0])
                    if isinstance(b, FunV) and b.kind == "obj" and n["name"] in b.fields: return self.asval(b.fields[n["name"]])
                    raise Unsupported("member " + n["name"])
        return Tr.e_MemberExpr(self, n)

    # ------------------------------------------------------------ property maps
    def construct_special(self, n, q, c, t=None):
        qb = strip_cv(q)
        if re.match(r"(boost::)?function_property_map", qb) or (t is not None and t.name == "PM" and "function_property_map" in getattr(t, "raw", "")[:40]):
            v = self.ev(c[0])
            if isinstance(v, FunV) and v.kind == "fpm": return v
            return FunV("fpm", f=v)
        if re.match(r"(boost::)?associative_property_map", qb) or (t is not None and t.name == "PM" and "associative_property_map" in getattr(t, "raw", "")[:40]):
            v = self.ev(c[0])
            if isinstance(v, FunV) and v.kind == "apm": return v
            return FunV("apm", m=self.freeze(v.lv))
        if re.match(r"(boost::)?d_ary_heap_indirect", qb):
            vs = [self.ev(x) for x in c]
            args = tmpl(qb)[1]
            kt = self.t.parse(args[0])
            dt = self.heap_key_type(vs[0], kt)
            nm = self.decl(getattr(self, "heapname", None) or "heap", "Map<%s, %s>" % (kt.v(), dt.v()), "Map::<%s, %s>::empty()" % (kt.v(), dt.v()))
            return FunV("heap", lv=LV(nm, Ty("map", e=kt, f=dt, elem=kt)), kt=kt, key=vs[0], pos=vs[1], cmp=vs[2] if len(vs) > 2 else FunV("less"), dt=dt)
        if re.match(r"(boost::)?heap::pairing_heap", qb):
            for x in c: self.ev(x)
            nm = self.decl("heap", "Set<int>", "Set::<int>::empty()")
            return FunV("pheap", lv=LV(nm, Ty("set", e=TINT, elem=TINT, kind="set")))
        return Tr.construct_special(self, n, q, c, t)

    def heap_key_type(self, pm, kt):
        """value type of the key property map, found by applying it to a dummy vertex"""
        saved = list(self.lines); m = self.mut; k = self.k
        v = self.pm_at(pm, Val(self.default(kt), kt)); self.lines = saved; self.mut = m; self.k = k
        return v.ty

    def pm_at(self, pm, key):
        if isinstance(pm, FunV):
            if pm.kind == "index_map": return key
            if pm.kind == "fpm":
                f = pm.f
                if isinstance(f, FunV) and f.kind == "obj":
                    d = self.op_call(f.t)
                    return self.inline(d, [key], f)
                if isinstance(f, FunV) and f.kind == "lambda": return self.inline(f.decl, [key], None, env=f.env)
                raise Unsupported("property map functor")
            if pm.kind == "apm": return self.subscript(self.asval(pm.m), key)
            if pm.kind == "ipm":
                c = pm.it.cont
                if c is None or c.kind != "live": raise Unsupported("iterator property map")
                i = key.s if pm.it.s == "0int" else "(%s + %s)" % (pm.it.s, key.s)
                return self.index(Val(c.lv.get(), c.lv.ty, c.lv), Val(i, TSZ), "property map access in range")
            raise Unsupported("property map " + pm.kind)
        if pm.ty.k == "seq": return self.subscript(pm, key)
        if pm.ty.k == "opaque" and getattr(pm.ty, "what", "") == "index_map": return key
        raise Unsupported("property map of " + pm.ty.k)

    def op_call(self, t):
        for x in kids(t.decl):
            if x["kind"] == "CXXMethodDecl" and x.get("name") == "operator()":
                b = self.p.by_id.get(x["id"], x)
                if any(c["kind"] == "CompoundStmt" for c in kids(b)): return b
        raise Unsupported("operator() of " + t.name)

    def subscript(self, a, b):
        if isinstance(a, FunV) and a.kind in ("fpm", "apm", "ipm", "index_map"): return self.pm_at(a, b)
        return Tr.subscript(self, a, b)

    def pm_get(self, n, a):
        x = self.ev(a[0])
        if isinstance(x, FunV) and x.kind in ("enum", "global"):
            g = self.ev(a[1])
            pm = self.tag_map(x.name, g)
            if len(a) == 3: return self.pm_at(pm, self.ev(a[2]))
            return pm
        return self.pm_at(x, self.ev(a[1]))

    def tag_map(self, tag, g):
        if tag == "vertex_index": return FunV("index_map")
        if tag == "edge_weight":
            t = Ty("seq", e=TREAL, kind="edge_pm")
            if g.lv is not None: lv = g.lv.at(("f", "w", "G"), t); return Val(lv.get(), t, lv)
            return Val(par(g.s) + ".w", t)
        raise Unsupported("property " + str(tag))

    def c_put(self, n, a):
        x = self.ev(a[0])
        if isinstance(x, FunV) and x.kind in ("enum", "global"):
            pm = self.tag_map(x.name, self.ev(a[1])); rest = a[2:]
        else: pm, rest = x, a[1:]
        kv = self.evs(rest)
        t = self.pm_at(pm, kv[0])
        if t.lv is None: raise Unsupported("put through a read-only map")
        self.set(t.lv, self.conv(kv[1], t.ty).s); return self.U()

    def c_make_iterator_property_map(self, n, a):
        v = self.ev(a[0])
        if not isinstance(v, IterV): raise Unsupported("iterator property map")
        return FunV("ipm", it=v)
    def c_make_assoc_property_map(self, n, a): return FunV("apm", m=self.freeze(self.ev(a[0]).lv))

    def argval(self, v, ty):
        if isinstance(v, FunV) and v.kind == "fpm" and ty.k == "seq" and getattr(ty, "kind", "") == "vpm":
            f = v.f.fields.get(ty.vfield)
            if f is None: raise Unsupported("property map argument")
            return self.asval(f)
        return v
    def bind_vpm(self, i, nm, ty, ro):
        fs = {ty.vfield: LV(nm, Ty("seq", e=ty.e, kind="vector"), ro=ro)}
        for f, t in ty.functor.fs:
            if f != ty.vfield: fs[f] = FunV("index_map")
        self.bind(i, FunV("fpm", f=FunV("obj", t=ty.functor, fields=fs)))

    # ------------------------------------------------------------ graph functions
    def gr(self, n):
        g = self.ev(n)
        if g.ty.k != "graph": raise Unsupported("graph argument of type " + g.ty.k)
        return g
    def c_num_vertices(self, n, a): return Val("%s.n" % par(self.gr(a[0]).s), TSZ)
    def c_num_edges(self, n, a): return Val("(%s.ends.len() as int)" % par(self.gr(a[0]).s), TSZ)
    def c_vertices(self, n, a):
        g = self.gr(a[0]); c = Cont("verts", n="%s.n" % par(g.s)); return PairV(IterV("0int", c), IterV(c.n, c))
    def c_edges(self, n, a):
        g = self.gr(a[0]); c = Cont("snap", s="g_edges(%s)" % g.s, e=TEDGE); return PairV(IterV("0int", c), IterV("(%s.ends.len() as int)" % par(g.s), c))
    def vtx(self, g, v, why): self.oblige("0 <= %s < %s.n" % (v.s, par(g.s)), why + " of an existing vertex")
    def c_out_edges(self, n, a):
        v, g = self.evs(a); self.vtx(g, v, "out_edges")
        c = Cont("snap", s="g_out(%s, %s)" % (g.s, v.s), e=TEDGE); return PairV(IterV("0int", c), IterV("(%s.adj[%s].len() as int)" % (par(g.s), v.s), c))
    def c_out_degree(self, n, a):
        v, g = self.evs(a); self.vtx(g, v, "out_degree"); return Val("(%s.adj[%s].len() as int)" % (par(g.s), v.s), TSZ)
    def c_source(self, n, a): e = self.ev(a[0]); return Val("%s.s" % par(e.s), TSZ)
    def c_target(self, n, a): e = self.ev(a[0]); return Val("%s.t" % par(e.s), TSZ)
    def c_opposite(self, n, a): e, v = self.evs(a[:2]); return Val("g_opp(%s, %s)" % (e.s, v.s), TSZ)
    def c_vertex(self, n, a): return self.ev(a[0])
    def c_add_vertex(self, n, a):
        g = self.ev(a[-1]); r = self.tmp("(%s.n)" % par(g.s), "int"); self.set(self.need(g), "g_add_vertex(%s)" % g.s); return Val(r, TSZ)
    def c_add_edge(self, n, a):
        if len(a) not in (3, 4): raise Unsupported("add_edge")
        vs = self.evs(a); u, v, g = vs[0], vs[1], vs[-1]
        u = Val(self.tmp(u.s, "int"), TSZ); v = Val(self.tmp(v.s, "int"), TSZ)
        self.vtx(g, u, "add_edge"); self.vtx(g, v, "add_edge")
        r = self.tmp("Edge { id: %s.ends.len() as int, s: %s, t: %s }" % (par(g.s), u.s, v.s), "Edge")
        if len(a) == 4: raise Unsupported("add_edge with property")
        self.set(self.need(g), "g_add_edge(%s, %s, %s)" % (g.s, u.s, v.s))
        return PairV(Val(r, TEDGE), Val("true", TBOOL))

    # ------------------------------------------------------------ iterators declared before they are assigned
    def vardecl(self, d):
        init = [c for c in kids(d) if c["kind"] not in ("FullComment",) and not c["kind"].endswith("Attr")]
        if init and unwrap(init[0])["kind"] == "CXXConstructExpr" and not kids(unwrap(init[0])):
            t = self.tyq(d)
            if t is not None and t.k == "iter": self.bind(d["id"], ("uninit", d.get("name", "it"), t)); return
        t = self.tyq(d) if init and unwrap(init[0])["kind"] == "CXXConstructExpr" else None
        if t is not None and t.k == "struct" and is_ref_class(self.p, t.decl): self.oname = d.get("name")
        return Tr.vardecl(self, d)

    def c_tie(self, n, a): return Tie([self.ev(x) for x in a])
    def target(self, n):
        v = self.ev(n)
        if isinstance(v, (Tie, IterV, KeyIt, PairV, FunV, OutIt)): return v
        if v.lv is None: raise Unsupported("assignment to a value")
        return v
    def assignv(self, lhs, rhs, a=None):
        if isinstance(lhs, Tie):
            if isinstance(rhs, PairV): parts = [rhs.a, rhs.b]
            elif rhs.ty.k == "tup":
                t = self.tmp(rhs.s, rhs.ty.v()); parts = [Val("%s.%d" % (t, i), x) for i, x in enumerate(rhs.ty.ts)]
            else: raise Unsupported("tie with " + rhs.ty.k)
            if len(parts) != len(lhs.vs): raise Unsupported("tie arity")
            for l, r in zip(lhs.vs, parts): self.assignv(l, r)
            return lhs
        if isinstance(lhs, OutIt):
            if isinstance(rhs, OutIt): return lhs
            x = self.conv(rhs, lhs.ty.e).s
            self.out_append(lhs, "seq![%s]" % x); return lhs
        if isinstance(lhs, FunV) and lhs.kind == "uninit" and not isinstance(rhs, IterV): raise Unsupported("first assignment")
        return Tr.assignv(self, lhs, rhs, a)

    # std::sort: a permutation in which no later element compares less than an earlier one
    def c_sort(self, n, a):
        vs = [self.ev(x) for x in a]
        x, y = vs[0], vs[1]
        if not isinstance(x, IterV) or x.cont.kind != "live" or x.s != "0int": raise Unsupported("sort of a part of a sequence")
        lv = x.cont.lv; s = lv.get(); m = self.subrange(x, y)
        if m.replace(" ", "") not in (s, ) and y.s.replace(" ", "") not in ("(%s.len()asint)" % s, "%s.len()" % s): raise Unsupported("sort of a part of a sequence: " + y.s)
        e = lv.ty.e
        def cmp(q, i, j):
            u, v = [Val(x, e, LV(x, e, ro=True)) for x in ("%s[%s]" % (q, i), "%s[%s]" % (q, j))]
            r, l = self.trial(lambda: self.callv(vs[2], [u, v], n) if len(vs) > 2 else self.binop("<", u, v, n))
            ob = []
            for t, o in l:
                mm = re.fullmatch(r"proof \{ assert\((.*)\); \}", t)
                if not mm: raise Unsupported("comparison with effects: " + t)
                ob.append(mm.group(1))
            return self.truth(r), ob
        old = self.tmp(s, lv.ty.v(), "unsorted")
        R = "0 <= i_ < %s.len() && 0 <= j_ < %s.len()" % (old, old)
        c, ob = cmp(old, "i_", "j_")
        ob_ = lambda t, why: self.oblige(t.replace("OLD_", old), why)
        for o in ob: ob_("forall|i_: int, j_: int| #![trigger OLD_[i_], OLD_[j_]] %s ==> (%s)" % (R, o), "the comparison of sort() is defined on all pairs")
        ob_("forall|i_: int, j_: int| #![trigger OLD_[i_], OLD_[j_]] %s ==> !(%s && %s)" % (R, c, cmp(old, "j_", "i_")[0]), "the comparison of sort() is asymmetric")
        ob_("forall|i_: int, j_: int, k_: int| #![trigger OLD_[i_], OLD_[j_], OLD_[k_]] %s && 0 <= k_ < %s.len() && !%s && !%s ==> !%s" % (R, old, c, cmp(old, "j_", "k_")[0], cmp(old, "i_", "k_")[0]), "the comparison of sort() is a strict weak order")
        h = self.havoc(lv.ty.v()); h = self.tmp(h, lv.ty.v(), "sorted"); pi = self.tmp(self.havoc("Seq<int>"), "Seq<int>", "perm")
        self.emit("proof { assume(perm_by(%s, %s, %s)); assume(forall|i_: int, j_: int| #![trigger %s[i_], %s[j_]] 0 <= i_ < j_ < %s.len() ==> !%s); }" % (h, old, pi, h, h, h, cmp(h, "j_", "i_")[0]))
        self.set(lv, h); return self.U()

    def bundle_call(self, o, nm, args, n):
        """a method of a reference bundle: by its contract on the bundle's current value, which it must leave alone, or inlined"""
        i = unwrap(kids(n)[0]).get("referencedMemberDecl")
        ct = self.contract_for(i)
        if ct is None or ct.get("inline"):
            b = self.p.by_id.get(i)
            if b is None or not any(x["kind"] == "CompoundStmt" for x in kids(b)): raise Unsupported("method %s of a reference bundle" % nm)
            return self.inline(b, self.evs(args), o)
        lv = self.tmp_lv(Val(self.bundle_value(o), o.t)); old = self.tmp(lv.get(), o.t.v())
        dst = {f: self.freeze(o.fields[f].lv if isinstance(o.fields[f], Val) else o.fields[f]) for f in ct.get("writes", ())} if ct["this"] == "out" else {}
        roots = [x.root for x in dst.values()]
        for f, x in o.fields.items():
            if f not in dst and isinstance(x, (Val, LV)) and (x if isinstance(x, LV) else x.lv) is not None: roots.append((x if isinstance(x, LV) else x.lv).root)
        if any(roots.count(x.root) > 1 for x in dst.values()): raise Unsupported("two members refer to one object that is written")
        r = self.call_contract(ct, lv, args, n)
        if ct["this"] == "out":
            rest = "%s { %s }" % (o.t.name, ", ".join("%s: %s.%s" % (f, old if f in dst else lv.get(), f) for f, ft in o.t.fs if ft.k != "opaque"))
            self.oblige("%s == %s" % (lv.get(), old) if not dst else "%s =~= %s" % (old, rest), "the call of %s leaves the objects its object refers to unchanged" % ct["name"])
            for f, x in dst.items(): self.set(x, "%s.%s" % (lv.get(), f))
        return r
    def bundle_value(self, o):
        """the objects a bundle refers to, as a value"""
        vs = []
        for f, ft in o.t.fs:
            if ft.k == "opaque": continue
            v = o.fields.get(f)
            if v is None: raise Unsupported("member " + f)
            if isinstance(v, FunV) and v.kind == "obj" and v.t is ft: vs.append("%s: %s" % (f, self.bundle_value(v))); continue
            v = self.conv(self.argval(self.asval(v), ft), ft)
            vs.append("%s: %s" % (f, v.s))
        return "%s { %s }" % (o.t.name, ", ".join(vs))

    # ------------------------------------------------------------ heaps
    def fun_method(self, o, nm, args, n):
        f = getattr(self, "h_%s_%s" % (o.kind, nm), None)
        if f is None:
            if o.kind == "obj": return self.bundle_call(o, nm, args, n)
            if o.kind == "timer" and nm in ("start", "stop", "resume", "elapsed", "format", "is_stopped"): self.dropped.add("timers"); return self.U()
            raise Unsupported("method %s of %s" % (nm, o.kind))
        return f(o, args, n)

    def h_pheap_push(self, o, a, n):
        v = self.ev(a[0]); s = o.lv.get(); self.oblige("!%s.contains(%s)" % (s, v.s), "an element is pushed once")
        self.set(o.lv, "%s.insert(%s)" % (s, v.s)); return Val(v.s, THANDLE)
    def h_pheap_empty(self, o, a, n): return Val("(%s.len() == 0)" % o.lv.get(), TBOOL)
    def h_pheap_size(self, o, a, n): return Val("(%s.len() as int)" % o.lv.get(), TSZ)
    def ptop(self, o):
        s = o.lv.get(); self.oblige("%s.len() > 0" % s, "the heap is not empty")
        # top() and pop() agree: the choice depends on the heap's state only
        return "heap_top(%s)" % s
    def h_pheap_top(self, o, a, n): t = self.ptop(o); self.emit("proof { ax_heap_top(%s); }" % o.lv.get()); return Val(t, TSZ)
    def h_pheap_pop(self, o, a, n): t = self.ptop(o); self.emit("proof { ax_heap_top(%s); }" % o.lv.get()); self.set(o.lv, "%s.remove(%s)" % (o.lv.get(), t)); return self.U()
    def handle_op(self, o, a):
        v = self.ev(a[0]); self.oblige("%s.contains(%s)" % (o.lv.get(), v.s), "the handle refers to an element of the heap"); return self.U()
    def h_pheap_decrease(self, o, a, n): return self.handle_op(o, a)
    def h_pheap_increase(self, o, a, n): return self.handle_op(o, a)
    def h_pheap_update(self, o, a, n): return self.handle_op(o, a)

    # d_ary_heap_indirect: vertex -> key at the time of its last push/update
    def hkey(self, o, v): return self.pm_at(o.key, Val(v, o.kt))
    def hcmp(self, o, a, b):
        r, l = self.trial(lambda: self.callv(o.cmp, [a, b], None))
        if l: raise Unsupported("comparison with effects")
        return r.s
    def h_heap_push(self, o, a, n):
        v = self.ev(a[0]); x = self.tmp(v.s, o.kt.v()); k = self.hkey(o, x)
        self.oblige("!%s.contains_key(%s)" % (o.lv.get(), x), "a vertex is pushed at most once at a time")
        self.hpos(o, x)
        self.set(o.lv, "%s.insert(%s, %s)" % (o.lv.get(), x, k.s)); return self.U()
    def h_heap_update(self, o, a, n):
        v = self.ev(a[0]); x = self.tmp(v.s, o.kt.v()); k = self.hkey(o, x); h = o.lv.get()
        self.oblige("%s.contains_key(%s)" % (h, x), "updated vertex is in the heap")
        self.oblige("!(%s)" % self.hcmp(o, Val("%s[%s]" % (h, x), o.dt), Val(k.s, o.dt)), "update() only follows a decrease of the key")
        self.set(o.lv, "%s.insert(%s, %s)" % (h, x, k.s)); return self.U()
    def h_heap_empty(self, o, a, n): return Val("(%s.len() == 0)" % o.lv.get(), TBOOL)
    def h_heap_size(self, o, a, n): return Val("(%s.len() as int)" % o.lv.get(), TSZ)
    def h_heap_contains(self, o, a, n): return Val("%s.contains_key(%s)" % (o.lv.get(), self.ev(a[0]).s), TBOOL)
    def hpos(self, o, x):
        if isinstance(o.pos, FunV): self.pm_at(o.pos, Val(x, o.kt))   # the position map is written: its index must be in range
    def htop(self, o):
        h = o.lv.get(); self.oblige("%s.len() > 0" % h, "the heap is not empty")
        kk, l = self.trial(lambda: self.pm_at(o.key, Val("x_", o.kt)))
        ks = kk.s
        for t, ob in reversed(l):
            m = re.fullmatch(r"let ghost (?:mut )?(\w+): [^=]* = (.*);", t)
            if m: ks = re.sub(r"\b%s\b" % m.group(1), m.group(2), ks)
        self.oblige("forall|x_: %s| #[trigger] %s.contains_key(x_) ==> %s[x_] == %s" % (o.kt.v(), h, h, ks), "every key changed in the heap was announced by update()")
        t = "mheap_top::<%s, %s>(%s)" % (o.kt.v(), o.dt.v(), h)
        c = self.hcmp(o, Val("%s[y_]" % h, o.dt), Val("%s[%s]" % (h, t), o.dt))
        self.emit("proof { assume(%s.contains_key(%s) && (forall|y_: %s| #[trigger] %s.contains_key(y_) ==> !(%s))); }" % (h, t, o.kt.v(), h, c))
        return t
    def h_heap_top(self, o, a, n): return Val(self.htop(o), o.kt)
    def h_heap_pop(self, o, a, n): t = self.htop(o); self.set(o.lv, "%s.remove(%s)" % (o.lv.get(), t)); return self.U()

    # ------------------------------------------------------------ sets of edge descriptors
    def the_graph(self):
        """the only graph in scope: the one whose edges a std::set<Edge> holds"""
        c = [p["name"] for p in self.cfg["params"] if p.get("ty") is not None and p["ty"].k == "graph"] + [nm for nm, ty in self.cfg.get("gparams") or () if ty == "G"]
        b = self.env[0].get("this") if self.env else None
        if self.cfg.get("thisty") is not None:
            for f, ft in self.cfg["thisty"].fs:
                if ft.k == "graph": c.append("this_." + f)
        if len(c) != 1: raise Unsupported("enumeration of an edge set: %d graphs in scope" % len(c))
        return c[0]
    def edge_seq(self, s):
        g = self.the_graph()
        h = self.tmp(self.havoc("Seq<Edge>"), "Seq<Edge>", "en")
        self.emit("proof { ax_id_order(%s); assume(edge_enum(%s, %s, %s)); }" % (s, g, s, h))
        self.assumed.add("a std::set of edge descriptors holds descriptors of the graph in scope and is traversed in an order that depends on its elements only")
        return h
    def enumerate(self, v):
        if v.ty.k == "set" and v.ty.elem.k == "edge" and v.ty.kind == "set": return Cont("snap", s=self.edge_seq(v.s), e=TEDGE)
        return Tr.enumerate(self, v)
    def m_set_begin(self, o, a, n):
        if o.ty.kind == "set" and o.ty.elem.k == "edge":
            s = self.tmp(o.s, o.ty.v(), "es"); return IterV("0int", Cont("snap", s=self.edge_seq(s), e=TEDGE))
        return Tr.m_set_begin(self, o, a, n)
    def m_set_end(self, o, a, n):
        if o.ty.kind == "set" and o.ty.elem.k == "edge" and not self.end_as_none(n): 
            s = "(%s.len() as int)" % par(o.s)
            return IterV(s, Cont("len", n=s, e=TEDGE))
        return Tr.m_set_end(self, o, a, n)
    def m_set_erase(self, o, a, n):
        if o.ty.kind == "set" and o.ty.elem.k == "edge":
            v = self.ev(a[0])
            if isinstance(v, IterV):
                x = self.deref(v); self.set(self.need(o), "%s.remove(%s.id)" % (par(o.s), par(x.s))); return self.U()
        return Tr.m_set_erase(self, o, a, n)
    def c_for_each(self, n, a):
        x, y, f = [self.ev(z) for z in a]
        if not isinstance(x, IterV) or not isinstance(f, FunV) or f.kind != "lambda" or f.decl is None: raise Unsupported("for_each")
        d = f.decl
        p = [c for c in kids(d) if c["kind"] == "ParmVarDecl"]
        if len(p) != 1 or (qual(p[0]).endswith("&") and not strip_ref_const(qual(p[0]))): raise Unsupported("for_each over references")
        e = x.cont.e if x.cont.kind == "snap" else x.cont.lv.ty.e
        c = self.fresh("each_c"); self.emit("let ghost %s: Seq<%s> = %s;" % (c, e.v(), self.subrange(x, y)))
        i = self.decl("each_i", "int", "0")
        body = [z for z in kids(d) if z["kind"] == "CompoundStmt"][0]
        self.loop(lambda: "%s < %s.len()" % (i, c), lambda: self.inline(d, [Val("%s[%s]" % (c, i), e)], None, env=f.env), lambda: self.emit("proof { %s = %s + 1; }" % (i, i)), body, auto=["0 <= %s <= %s.len()" % (i, c)])
        return f
