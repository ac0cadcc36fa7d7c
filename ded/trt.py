"""translator, continued: order functors with a contract, set_difference, objects that own a heap of shared nodes"""
from trp import *
from trg import *
from tr import *
from cxx2v import *


class TrT(TrP):
    def set_of(self, x, y):
        """the set that the iterators x, y = begin(), end() range over"""
        if not (isinstance(x, IterV) and isinstance(y, IterV) and x.cont is not None and x.s == "0int"): raise Unsupported("part of a set")
        m = re.fullmatch(r"set_sorted\((.*)\)", x.cont.s or "")
        if not m or y.s != "(set_sorted(%s).len() as int)" % m.group(1): raise Unsupported("part of a set")
        return m.group(1)
    def c_set_difference(self, n, a):
        vs = [self.ev(x) for x in a]
        if len(vs) != 5 or not isinstance(vs[4], OutIt) or vs[4].mode != "ins": raise Unsupported("set_difference")
        o = vs[4]; self.set(o.dst, "%s.union(%s.difference(%s))" % (o.dst.get(), par(self.set_of(vs[0], vs[1])), self.set_of(vs[2], vs[3]))); return o

    def order_contract(self, f):
        if isinstance(f, FunV) or f.ty.k != "struct": return None
        for c in self.cs:
            if c.get("order") and c.get("decl") and c.get("thisty") is f.ty and not f.ty.fs: return c
        raise Unsupported("comparison %s without a contract" % f.ty.name)
    def hcmp(self, o, a, b):
        c = self.order_contract(o.cmp)
        if c is None: return TrP.hcmp(self, o, a, b)
        self.called.add(c["name"])
        return "%s(%s, %s)" % (c["order"], a.s, b.s)
    def htop(self, o):
        c = self.order_contract(o.cmp)
        if c is not None:
            h = o.lv.get(); kt = o.kt.v(); f = c["order"]
            self.oblige("forall|i_: {k}, j_: {k}| #![trigger {h}[i_], {h}[j_]] {h}.contains_key(i_) && {h}.contains_key(j_) ==> !({f}({h}[i_], {h}[j_]) && {f}({h}[j_], {h}[i_]))".format(k=kt, h=h, f=f), "the order of the heap is asymmetric")
            self.oblige("forall|i_: {k}, j_: {k}, k_: {k}| #![trigger {h}[i_], {h}[j_], {h}[k_]] {h}.contains_key(i_) && {h}.contains_key(j_) && {h}.contains_key(k_) && !{f}({h}[i_], {h}[j_]) && !{f}({h}[j_], {h}[k_]) ==> !{f}({h}[i_], {h}[k_])".format(k=kt, h=h, f=f), "the order of the heap is a strict weak order")
        return TrP.htop(self, o)

    # ------------------------------------------------------------ shared nodes
    # A class that owns a heap (Types.regions) gets a ghost field hp; the shared_ptrs in it, in the nodes and in
    # local variables are indices into it.  Pointers stored in objects belong to the heap of the object under
    # construction or inspection (this_); pointers held in local variables remember the heap they come from.
    def default(self, ty):
        if ty.k == "ptr": return "(-1int)"
        return TrP.default(self, ty)
    def uninit(self, ty):
        if ty.k == "ptr": return "(-1int)"
        return TrP.uninit(self, ty)
    def home(self):
        b = self.cfg.get("thisty")
        if b is None or not getattr(b, "owner", False): raise Unsupported("pointer outside of the class that owns its heap")
        return LV("this_", b).at(("f", "hp", b.name), dict(b.fs)["hp"])
    def region(self, v):
        r = getattr(v.ty, "region", None)
        if r is not None: return r
        if v.lv is not None:
            if getattr(v.lv.ty, "region", None) is not None: return v.lv.ty.region
            for j in range(len(v.lv.steps) - 1, -1, -1):
                st = v.lv.steps[j]
                if st[0] == "f":
                    o = [t for t in self.t.structs.values() if t.name == st[2] and getattr(t, "owner", False)]
                    if o: return LV(v.lv.root, dict(o[0].fs)["hp"], v.lv.steps[:j] + (("f", "hp", st[2]),))
        return self.home()
    def same_region(self, a, b):
        if a.get() == b.get(): return
        if a.root != b.root or len(a.steps) != len(b.steps): raise Unsupported("pointer into another heap")
        for x, y in zip(a.steps, b.steps):
            if x[0] == "i" and y[0] == "i":
                if x[1] != y[1]: self.oblige("%s == %s" % (x[1], y[1]), "pointer belongs to the heap of the same object")
            elif x != y: raise Unsupported("pointer into another heap")
    def ptr(self, s, e, r, lv=None): return Val(s, Ty("ptr", e=e, region=r), lv)
    def conv(self, v, to, why=""):
        if to.k == "ptr":
            if isinstance(v, FunV) and v.kind == "null": return Val("(-1int)", to)
            if v.ty.k != "ptr": raise Unsupported("conversion to a pointer")
            self.same_region(self.region(v), to.region if to.region is not None else self.home()); return Val(v.s, Ty("ptr", e=to.e, region=to.region if to.region is not None else self.home()))
        if getattr(v, "ty", None) is not None and v.ty.k == "ptr" and to.k != "opaque": raise Unsupported("conversion of a pointer")
        return TrP.conv(self, v, to, why)
    def assignv(self, lhs, rhs, a=None):
        if getattr(lhs, "ty", None) is not None and lhs.ty.k == "ptr" and lhs.lv is not None:
            if isinstance(rhs, FunV) and rhs.kind == "null": self.set(lhs.lv, "(-1int)"); return lhs
            if rhs.ty.k != "ptr": raise Unsupported("assignment to a pointer")
            self.same_region(self.region(rhs), self.region(lhs)); self.set(lhs.lv, rhs.s); return Val(lhs.lv.get(), lhs.ty, lhs.lv)
        if getattr(lhs, "ty", None) is not None and getattr(lhs.ty, "owner", False): raise Unsupported("assignment of an object that owns a heap")
        return TrP.assignv(self, lhs, rhs, a)
    def bindptr(self, d, v):
        r = self.freeze(self.region(v)); nm = self.decl(d.get("name", "p"), "int", v.s); self.bind(d["id"], LV(nm, Ty("ptr", e=v.ty.e, region=r)))
    def vardecl(self, d):
        t = self.tyq(d) if self.t.regions else None
        if t is not None and getattr(t, "owner", False) and not qual(d).rstrip().endswith("&"): raise Unsupported("copy of an object that owns a heap")
        init = [c for c in kids(d) if c["kind"] != "FullComment" and not c["kind"].endswith("Attr")]
        if t is not None and t.k == "ptr" and not qual(d).rstrip().endswith("&"):
            if init:
                v = self.ev(init[0], want=t)
                if not isinstance(v, FunV) and v.ty.k == "ptr": return self.bindptr(d, v)
            raise Unsupported("pointer variable without a known heap")
        return TrP.vardecl(self, d)
    def param_inline(self, p, v):
        if not isinstance(v, (IterV, KeyIt, PairV, FunV, OutIt)) and v.ty.k == "ptr":
            if qual(p).endswith("&") and not qual(p).startswith("const"): raise Unsupported("reference to a pointer")
            return self.bindptr(p, v)
        return TrP.param_inline(self, p, v)
    def pointee(self, v):
        r = self.region(v); self.oblige("0 <= %s < %s.len()" % (v.s, r.get()), "pointer is not null")
        lv = r.at(("i", v.s), v.ty.e); return Val(lv.get(), v.ty.e, lv)
    def e_CXXOperatorCallExpr(self, n, discard=False):
        c = kids(n); nm, i, f = self.callee(c[0]); args = c[1:]
        if self.t.regions and nm in ("operator->", "operator*") and len(args) == 1:
            t = self.tyq(unwrap(args[0]))
            if t is not None and t.k == "ptr": return self.pointee(self.ev(args[0]))
        if self.t.regions and nm in ("operator==", "operator!="):
            x, y = self.evs(args)
            p = [v for v in (x, y) if not isinstance(v, FunV) and v.ty.k == "ptr"]
            if p:
                o = [v for v in (x, y) if v is not p[0]][0]
                if isinstance(o, FunV) and o.kind == "null": return Val("(%s %s -1)" % (p[0].s, nm[8:]), TBOOL)
                if len(p) == 2: self.same_region(self.region(x), self.region(y)); return Val("(%s %s %s)" % (x.s, nm[8:], y.s), TBOOL)
                raise Unsupported("comparison of a pointer")
            if isinstance(x, IterV) and isinstance(y, (IterV,)) or isinstance(x, KeyIt) or isinstance(y, KeyIt): return self.binop(nm[8:], x, y, n)
        return TrP.e_CXXOperatorCallExpr(self, n, discard)
    def e_CXXMemberCallExpr(self, n, discard=False):
        c = kids(n); m = unwrap(c[0])
        if self.t.regions and m["kind"] == "MemberExpr" and kids(m):
            t = self.tyq(unwrap(kids(m)[0]))
            if t is not None and t.k == "ptr" and not m.get("isArrow"):
                if m["name"].startswith("operator bool"): return Val("(%s != -1)" % self.ev(kids(m)[0]).s, TBOOL)
                if m["name"] == "get": return self.ev(kids(m)[0])
                raise Unsupported("method %s of a pointer" % m["name"])
        return TrP.e_CXXMemberCallExpr(self, n, discard)
    def e_CXXNewExpr(self, n):
        c = kids(n)
        if not self.t.regions or n.get("isArray") or len(c) != 1: raise Unsupported("new")
        return self.alloc(self.ev(c[0]))
    def alloc(self, v):
        h = self.home()
        if v.ty is not h.ty.e: raise Unsupported("new")
        p = self.tmp("(%s.len() as int)" % h.get(), "int", "new"); self.set(h, "%s.push(%s)" % (h.get(), v.s)); return self.ptr(p, v.ty, h)
    def c_make_shared(self, n, a):
        h = self.home(); return self.alloc(self.construct_by(h.ty.e, a))
    def e_CXXConstructExpr(self, n, want=None):
        if self.t.regions:
            t = self.tyq(n)
            if t is not None and t.k == "ptr":
                c = [x for x in kids(n) if x["kind"] != "CXXDefaultArgExpr"]
                if len(c) == 1:
                    v = self.ev(c[0])
                    return Val("(-1int)", t) if isinstance(v, FunV) and v.kind == "null" else v
                if not c: return Val("(-1int)", t)
                raise Unsupported("pointer construction")
        return TrP.e_CXXConstructExpr(self, n, want)
    # construction of an element in place: the constructor is chosen by the number of arguments
    def construct_by(self, t, a):
        vs = self.evs(a)
        cs = [c for c in self.cs if c.get("ctor") and c.get("decl") and c["thisty"] is t and len(c["params"]) == len(a)]
        if len(cs) == 1: return self.call_contract(cs[0], None, a, None, vs)
        ds = []
        for x in kids(t.decl):
            if x["kind"] == "CXXConstructorDecl" and not x.get("isImplicit"):
                b = self.p.by_id.get(x["id"], x)
                if len([y for y in kids(b) if y["kind"] == "ParmVarDecl"]) == len(a) and any(y["kind"] == "CompoundStmt" for y in kids(b)): ds.append(b)
        if len(ds) != 1 or getattr(t, "owner", False): raise Unsupported("construction in place of " + t.name)
        self.k += 1; o = "o__%d" % self.k
        self.emit("let ghost mut %s: %s = %s;" % (o, t.v(), self.uninit_struct(t))); self.inline(ds[0], vs, LV(o, t), ctor=t)
        return Val(o, t, LV(o, t))
    def m_seq_emplace_back(self, o, a, n):
        if o.ty.e.k == "struct" and len(a) >= 2:
            lv = self.freeze(self.need(o)); v = self.construct_by(o.ty.e, a); self.set(lv, "%s.push(%s)" % (par(lv.get()), v.s)); return self.U()
        return TrP.m_seq_emplace_back(self, o, a, n)
    def m_seq_emplace(self, o, a, n):
        if o.ty.kind != "stack": raise Unsupported("emplace")
        return self.m_seq_emplace_back(o, a, n) if len(a) > 1 else self.m_seq_push_back(o, a, n)
    def m_seq_insert(self, o, a, n):
        vs = [self.ev(x) for x in a]
        if len(vs) != 3 or not all(isinstance(v, IterV) for v in vs) or vs[0].s != "(%s.len() as int)" % par(o.s) or vs[1].cont is None: raise Unsupported("insert")
        if vs[1].cont.kind == "live" and vs[1].cont.lv.root == o.lv.root: raise Unsupported("insert of a container into itself")
        self.set(self.need(o), "%s + %s" % (par(o.s), self.subrange(vs[1], vs[2]))); return self.U()
    def enumerate(self, v):
        if v.ty.k == "seq" and v.ty.e.k == "ptr": self.same_region(self.region(v), self.home())
        return TrP.enumerate(self, v)
    def c_make_tuple(self, n, a, want=None):
        r = TrP.c_make_tuple(self, n, a, want)
        if r.ty.k == "tup" and any(t.k == "ptr" for t in r.ty.ts): raise Unsupported("tuple of pointers")
        return r
    # exclusive or of truth values
    def arith(self, op, a, b, ty, why):
        if op == "^":
            m = [re.fullmatch(r"\(if (.*) \{ 1int \} else \{ 0int \}\)", x) for x in (a, b)]
            if all(m): return Val("(if (%s) != (%s) { 1int } else { 0int })" % (m[0].group(1), m[1].group(1)), ty)
        return TrP.arith(self, op, a, b, ty, why)
