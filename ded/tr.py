"""The function translator: one C++ function (clang AST) -> one Verus function over ghost values.
See cxx2v.py for the type model and DESIGN.md for what the extraction keeps and drops."""
import re, json
from cxx2v import *

SKIP = {"ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "SubstNonTypeTemplateParmExpr", "ConstantExpr", "CXXStdInitializerListExpr", "FullExpr"}
IDCAST = {"LValueToRValue", "NoOp", "FunctionToPointerDecay", "ArrayToPointerDecay", "ConstructorConversion", "UserDefinedConversion", "UncheckedDerivedToBase", "DerivedToBase", "BuiltinFnToFnPtr", "FloatingCast"}


class Cont:
    """what an iterator ranges over: a live object (LV of a Seq), a frozen sequence, the vertices 0..n"""
    def __init__(self, kind, lv=None, s=None, e=None, n=None): self.kind, self.lv, self.s, self.e, self.n = kind, lv, s, e, n
    def seq(self): return self.lv.get() if self.kind == "live" else self.s
    def len(self): return self.n if self.kind in ("verts", "len") else par(self.seq()) + ".len()"


class IterV(Val):
    def __init__(self, pos, cont, lv=None): Val.__init__(self, pos, Ty("iter"), lv); self.cont = cont


class KeyIt(Val):
    """iterator obtained from find()/unordered begin(): a key and whether it is an element"""
    def __init__(self, ok, key, lv): Val.__init__(self, ok, Ty("keyit")); self.ok, self.key, self.c = ok, key, lv


class PairV(Val):
    def __init__(self, a, b): Val.__init__(self, "(%s, %s)" % (a.s, b.s), Ty("pairv", a=a.ty, b=b.ty)); self.a, self.b = a, b


class FunV(Val):
    def __init__(self, kind, **kw): Val.__init__(self, "()", Ty("fun")); self.kind = kind; self.__dict__.update(kw)


class OutIt(Val):
    """an output iterator writing to lv: mode 'back' (Seq push) or 'ins' (Set insert)"""
    def __init__(self, lv, mode, e): Val.__init__(self, "()", Ty("outit", e=e)); self.dst, self.mode = lv, mode


def unwrap(n):
    while True:
        k = n["kind"]
        if k in SKIP and kids(n): n = kids(n)[0]; continue
        if k in ("ImplicitCastExpr",) and n.get("castKind") in ("NoOp", "FunctionToPointerDecay", "UncheckedDerivedToBase", "DerivedToBase"): n = kids(n)[0]; continue
        return n


def names_in(txt): return set(re.findall(r"[A-Za-z_]\w*", txt))


class Tr:
    def __init__(self, prog, types, contracts, cfgs):
        self.p, self.t, self.cs = prog, types, contracts
        self.cfg = cfgs                      # current contract dict
        self.lines = []; self.obs = {}       # line index -> (kind, text)
        self.env = [{}]; self.active = set(); self.k = 0; self.loopn = 0
        self.cond_depth = []
        self.guards = []
        self.inl = []                        # stack of inlined decl ids
        self.t.local = {}
        self.retctx = None
        self.loops = []
        self.ncall = {}; self.called = set(); self.dropped = set(); self.decls = []
        self.fname = cfgs["name"]
        self.assumed = set()
        self.mut = 0
        self.wmax = False

    # ---------------------------------------------------------------- emission
    def emit(self, s, ob=None):
        for q in s.split("\n"):
            self.lines.append((q, ob)); ob = None
        self.mut += 1

    def oblige(self, c, why):
        if c == "true": return
        m = self.mut
        g = " && ".join(par(x) for x in self.guards)
        self.emit("proof { assert(%s); }" % (("(%s) ==> (%s)" % (g, c)) if g else c), why)
        self.mut = m

    def tmp(self, s, ty=None, base="t"):
        if re.match(r"^[\w]+$", s) and not ty and s not in self.mutvars(): return s
        self.k += 1; v = "%s__%d" % (base, self.k)
        m = self.mut
        self.emit("let ghost %s%s = %s;" % (v, (": " + ty) if ty else "", s)); self.mut = m + (1 if self.guards else 0)
        return v

    def mutvars(self): return self.active

    def havoc(self, ty):
        self.k += 1; v = "h__%d" % self.k
        self.emit("let %s = havoc::<%s>();" % (v, ty)); return v + "@"

    def fresh(self, name):
        nm = safe(name) if name else "v"
        if nm in self.active:
            j = 2
            while "%s_%d" % (nm, j) in self.active: j += 1
            nm = "%s_%d" % (nm, j)
        self.active.add(nm); return nm

    def decl(self, name, ty, init, fixed=None):
        nm = self.fresh(name); self.decls.append(nm)
        self.emit("let ghost mut %s: %s = %s;" % (nm, ty, init))
        return nm

    def set(self, lv, val):
        if lv.ro: raise Unsupported("write to read-only " + lv.get())
        h = (self.cfg.get("on") or {}).get(lv.root)
        if h:
            if "OLD_" in h: self.k += 1; o = "old__%d" % self.k; self.emit("let ghost %s = %s;" % (o, lv.root)); h = h.replace("OLD_", o)
        self.emit("proof { %s = %s; }" % (lv.root, lv.upd(val)))
        if h: self.emit("proof { %s }" % h.replace("\n", " "), "hint on update of " + lv.root)

    def bind(self, i, b): self.env[-1][i] = b
    def look(self, i):
        for e in reversed(self.env):
            if i in e: return e[i]
        return None

    # ---------------------------------------------------------------- types helpers
    def ty(self, n): return self.t.of(n)
    def tyq(self, n):
        try: return self.ty(n)
        except Unsupported: return None

    def default(self, ty):
        if ty.k == "int": return "0int"
        if ty.k == "real": return "0real"
        if ty.k == "bool": return "false"
        if ty.k == "seq" and not getattr(ty, "fixed", None): return "Seq::<%s>::empty()" % ty.e.v()
        if ty.k == "set": return "Set::<%s>::empty()" % ty.e.v()
        if ty.k == "map": return "Map::<%s, %s>::empty()" % (ty.e.v(), ty.f.v())
        if ty.k == "opt": return "Option::<%s>::None" % ty.e.v()
        if ty.k == "tup": return "(" + ", ".join(self.default(x) for x in ty.ts) + ("," if len(ty.ts) == 1 else "") + ")"
        if ty.k == "edge": return "edge0()"
        if ty.k == "unit": return "()"
        if ty.k == "graph": return "g_empty()"
        if ty.k == "struct": return "%s { %s }" % (ty.name, ", ".join("%s: %s" % (f, self.default(ft)) for f, ft in ty.fs if ft.k != "opaque"))
        raise Unsupported("default value of " + ty.k)

    def uninit(self, ty):
        if ty.k == "seq" and getattr(ty, "fixed", None):
            h = self.havoc(ty.v()); return "Seq::new(%dnat, |i_: int| %s[i_])" % (ty.fixed, h)
        if ty.k == "int":
            h = self.havoc("int"); lo, hi = self.rng(ty); self.emit("proof { assume(%d <= %s <= %d); }" % (lo, h, hi)); return h
        return self.havoc(ty.v())

    def conv(self, v, to, why=""):
        """value v converted to C++ type `to`"""
        if isinstance(v, (IterV, KeyIt, PairV, FunV, OutIt)): return v
        a = v.ty
        if to.k == "int" and a.k == "int":
            if re.fullmatch(r"-?\d+(int)?", v.s):
                x = int(v.s.replace("int", ""))
                lo, hi = self.rng(to)
                if lo <= x <= hi: return Val("%dint" % x if x >= 0 else "(%dint)" % x, to)
            alo, ahi = self.rng(a); lo, hi = self.rng(to)
            if lo <= alo and ahi <= hi: return Val(v.s, to, v.lv)
            return Val("%s%d(%s)" % ("sw" if to.sg else "uw", to.bits, v.s), to)
        if to.k == "bool" and a.k == "int": return Val("(%s != 0)" % v.s, TBOOL)
        if to.k == "int" and a.k == "bool": return Val("(if %s { 1int } else { 0int })" % v.s, to)
        if to.k == "real" and a.k == "int":
            if re.fullmatch(r"\d+int", v.s): return Val(v.s[:-3] + "real", to)
            return Val("(%s as real)" % par(v.s), to)
        if to.k == "int" and a.k == "real": return Val("rtrunc(%s)" % v.s, to)
        return Val(v.s, to if a.k in ("int", "unit") and to.k != a.k and False else a, v.lv)

    def rng(self, t):
        if t.sg: return -(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1
        return 0, (1 << t.bits) - 1

    def arith(self, op, a, b, ty, why):
        if ty.k == "real":
            if op == "/": self.oblige("%s != 0real" % b, "division by zero"); return Val("(%s / %s)" % (a, b), ty)
            if op in "+-*": return Val("(%s %s %s)" % (a, op, b), ty)
            raise Unsupported("real op " + op)
        if ty.k != "int": raise Unsupported("arithmetic on " + ty.k)
        lo, hi = self.rng(ty)
        if op in ("/", "%"):
            self.oblige("%s != 0" % par(b), "division by zero: " + why)
            if ty.sg and op == "/" and not self.cfg.get("nooverflow"): self.oblige("!(%s == %d && %s == -1)" % (par(a), lo, par(b)), "signed overflow: " + why)
            f = {"/": "tdiv", "%": "tmod"}[op] if ty.sg else {"/": "udiv", "%": "umod"}[op]
            return Val("%s(%s, %s)" % (f, a, b), ty)
        if op in ("<<", ">>", "&", "|", "^"):
            raise Unsupported("bit operation " + op)
        s = "(%s %s %s)" % (a, op, b)
        m = re.fullmatch(r"\(if (\w+) \{ (\(?-?\d+int\)?) \} else \{ (\(?-?\d+int\)?) \}\)", b)
        if op == "*" and m: s = "(if %s { %s * %s } else { %s * %s })" % (m.group(1), a, m.group(2), a, m.group(3))
        if ty.sg:
            if not self.cfg.get("nooverflow"):
                self.oblige("%d <= %s <= %d" % (lo, s, hi), "signed overflow: " + why)
            return Val(s, ty)
        if self.cfg.get("nowrap"): self.assumed.add("unsigned arithmetic does not wrap (%s)" % self.fname); return Val(s, ty)
        return Val("uw%d(%s)" % (ty.bits, s), ty)

    def truth(self, v):
        if v.ty.k == "bool": return v.s
        if v.ty.k == "int": return "(%s != 0)" % v.s
        if v.ty.k == "opt": return "(%s).is_some()" % v.s
        raise Unsupported("condition of type " + v.ty.k)

    # ---------------------------------------------------------------- statements
    def block(self, n):
        self.env.append({}); act = set(self.active)
        for c in kids(n): self.stmt(c)
        self.env.pop(); self.active = act

    def scoped(self, f):
        self.env.append({}); act = set(self.active)
        f(); self.env.pop(); self.active = act

    def stmt(self, n):
        k = n["kind"]
        f = getattr(self, "s_" + k, None)
        if f: return f(n)
        if k.endswith("Expr") or k.endswith("Operator") or k in ("CXXMemberCallExpr", "ExprWithCleanups", "UnaryOperator", "CompoundAssignOperator"):
            self.ev(n, discard=True); return
        raise Unsupported("statement " + k)

    def s_CompoundStmt(self, n):
        self.emit("{"); self.block(n); self.emit("}")
    def s_NullStmt(self, n): pass
    def s_AttributedStmt(self, n): self.stmt(kids(n)[-1])

    def s_DeclStmt(self, n):
        for d in kids(n):
            if d["kind"] == "VarDecl": self.vardecl(d)
            elif d["kind"] in ("TypedefDecl", "TypeAliasDecl"):
                q = d["type"].get("desugaredQualType") or d["type"]["qualType"]
                if d.get("name") and not re.search(r"(?<![:\w])%s\b" % re.escape(d["name"]), q): self.t.local = dict(self.t.local, **{d["name"]: q})
            elif d["kind"] in ("UsingDecl", "StaticAssertDecl", "UsingDirectiveDecl", "CXXRecordDecl", "EmptyDecl"): pass
            else: raise Unsupported("declaration " + d["kind"])

    def vardecl(self, d):
        name, i = d.get("name", "v"), d["id"]
        q = qual(d); qq = (d.get("type") or {}).get("qualType", "")
        isref = q.endswith("&") or qq.endswith("&")
        if "concept_checking" in q or "_BOOST_CONCEPT" in q or name.startswith("boost_concept_check"): return
        init = [c for c in kids(d) if c["kind"] not in ("FullComment",) and not c["kind"].endswith("Attr")]
        if isref and init:
            v = self.ev(init[0])
            if isinstance(v, (IterV, KeyIt, PairV, FunV, OutIt)): self.bindval(d, name, v); return
            if v.lv is not None: self.bind(i, self.freeze(v.lv)); return
            ty = v.ty; nm = self.decl(name, ty.v(), v.s); self.bind(i, LV(nm, ty)); return
        if init:
            self.want = self.tyq(d)
            v = self.ev(init[0], want=self.tyq(d)); self.want = None
            if isinstance(v, (IterV, KeyIt, PairV, FunV, OutIt)): self.bindval(d, name, v); return
            try: ty = self.ty(d)
            except Unsupported: ty = v.ty
            if ty.k in ("iter", "opaque") and v.ty.k not in ("iter", "opaque"): ty = v.ty
            if ty.k == "opaque" or v.ty.k == "opaque":
                self.bind(i, v); return
            v = self.conv(v, ty)
            nm = self.decl(name, ty.v(), v.s); self.bind(i, LV(nm, ty)); return
        ty = self.ty(d)
        if ty.k in ("iter", "opaque"): self.bind(i, ("uninit", name, ty)); return
        if ty.k in ("int", "bool", "real") or (ty.k == "seq" and getattr(ty, "fixed", None)):
            nm = self.decl(name, ty.v(), self.uninit(ty))
        else:
            nm = self.decl(name, ty.v(), self.default(ty))
        self.bind(i, LV(nm, ty))

    def bindval(self, d, name, v):
        i = d["id"]
        if isinstance(v, IterV):
            cont = v.cont
            nm = self.decl(name, "int", v.s)
            if cont.kind == "snap":
                c = self.decl(name + "_c", "Seq<%s>" % cont.e.v(), cont.s); cont = Cont("snap", s=c, e=cont.e, lv=LV(c, Ty("seq", e=cont.e, kind="snap")))
            self.bind(i, IterV(nm, cont, LV(nm, TINT))); return
        if isinstance(v, PairV) and isinstance(v.a, IterV):
            a, b = v.a, v.b
            cont = a.cont
            if cont.kind == "snap":
                c = self.decl(name + "_c", "Seq<%s>" % cont.e.v(), cont.s); cont = Cont("snap", s=c, e=cont.e, lv=LV(c, Ty("seq", e=cont.e, kind="snap")))
            na = self.decl(name + "_first", "int", a.s); nb = self.decl(name + "_second", "int", b.s)
            self.bind(i, PairV(IterV(na, cont, LV(na, TINT)), IterV(nb, cont, LV(nb, TINT)))); return
        if isinstance(v, KeyIt):
            ok = self.decl(name + "_ok", "bool", v.ok); key = self.decl(name + "_k", v.c.ty.e.v(), v.key)
            self.bind(i, KeyIt(ok, key, v.c)); return
        self.bind(i, v)

    def freeze(self, lv):
        st = []
        for s in lv.steps:
            if s[0] in ("i", "k") and not re.fullmatch(r"\d+(int)?", s[1]): s = (s[0], self.tmp(s[1], "int" if s[0] == "i" else None, "ix"))
            st.append(s)
        return LV(lv.root, lv.ty, st, ro=lv.ro)

    def cond(self, n):
        v = self.ev(n); return self.truth(self.contextual(v))

    def contextual(self, v): return v

    def s_IfStmt(self, n):
        c = kids(n)
        if n.get("hasInit"): raise Unsupported("if with initializer")
        if n.get("hasVar"): raise Unsupported("if with declaration")
        cv = self.cond(c[0])
        if cv in ("true", "false") and n.get("isConstexpr"): raise Unsupported("if constexpr")
        self.emit("if tst(Ghost(%s)) {" % cv)
        self.scoped(lambda: self.body(c[1]))
        if len(c) > 2:
            self.emit("} else {")
            self.scoped(lambda: self.body(c[2]))
        self.emit("}")

    def body(self, n):
        if n["kind"] == "CompoundStmt":
            for x in kids(n): self.stmt(x)
        else: self.stmt(n)

    def has(self, n, kind, stop=("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt", "LambdaExpr"), top=True):
        if n["kind"] == kind: return True
        if not top and n["kind"] in stop: return False
        return any(self.has(c, kind, stop, False) for c in kids(n))

    def trial(self, f):
        """evaluate f(), returning (result, emitted lines) without keeping the lines"""
        old = self.lines; self.lines = []
        r = f(); out = self.lines; self.lines = old
        return r, out

    def loop(self, condf, bodyf, incf, bodynode, auto=(), names=(), post=False):
        """the one loop scheme: while (cond) { body; inc }"""
        k = self.loopn; self.loopn += 1
        spec = (self.cfg.get("loops") or {}).get(k) or {}
        if isinstance(spec, list): spec = dict(inv=spec)
        brk = self.has(bodynode, "BreakStmt")
        b = None
        if spec.get("before"): self.emit("proof { %s }" % spec["before"].replace("\n", " "), "hint before loop %d" % k)
        if spec.get("ghost"): self.emit(spec["ghost"])
        if brk:
            b = "brk_%d" % k; self.emit("let ghost mut %s: bool = false;" % b)
        go = None
        if post:
            go = "first_%d" % k; self.emit("let ghost mut %s: bool = true;" % go)
        cs, cl = self.trial(condf) if condf else ("true", [])
        pure = all(ob is not None for _, ob in cl)
        if not pure:
            if post: raise Unsupported("do-while with effects in the condition")
            go2 = "go_%d" % k; self.emit("let ghost mut %s: bool = true;" % go2); head = go2
        else:
            for x in cl: self.lines.append(x)
            head = cs
            if post: head = "(%s || %s)" % (go, cs)
        if b: head = "((!%s) && %s)" % (b, par(head)) if head != "true" else "!%s" % b
        self.emit("while tst(Ghost(%s))" % head)
        invs = []
        for x in auto: invs.append((x, "loop %d bounds" % k))
        for x in spec.get("inv", []): invs.append((("!%s ==> (%s)" % (b, x)) if b else x, "loop %d invariant: %s" % (k, x)))
        for x in spec.get("brk", []):
            if not b: raise Unsupported("contract expects a break in loop %d" % k)
            invs.append(("%s ==> (%s)" % (b, x), "loop %d at break: %s" % (k, x)))
        for x in spec.get("always", []): invs.append((x.replace("BRK", b or "false"), "loop %d invariant: %s" % (k, x)))
        if spec.get("except") : invs += [(x, "loop %d" % k) for x in spec["except"]]
        if invs:
            self.emit("  invariant")
            for x, w in invs: self.emit("    " + x.replace("\n", " ") + ",", w)
        self.emit("{")
        self.emit("proof { assert(PROBE_%d); }" % k) if False else None
        self.lines.append(("/*PROBE loop %d*/" % k, None))
        if not pure:
            for x in cl: self.lines.append(x)
            self.emit("if tst(Ghost(!(%s))) { proof { %s = false; } continue; }" % (cs, go2))
        if post: self.emit("proof { %s = false; }" % go)
        if spec.get("begin"): self.emit("proof { %s }" % spec["begin"].replace("\n", " "), "hint in loop %d" % k)
        if spec.get("gbegin"): self.emit(spec["gbegin"])
        def finish():
            if incf: incf()
            if spec.get("end"): self.emit("proof { %s }" % spec["end"].replace("\n", " "), "hint at the end of loop %d" % k)
            if pure:
                for x in cl: self.lines.append(x)
        self.loops.append((b, finish))
        self.scoped(bodyf)
        self.loops.pop()
        finish()
        self.emit("}"); self.emit("proof { }")
        if spec.get("after"): self.emit("proof { %s }" % spec["after"].replace("\n", " "), "hint after loop %d" % k)

    def s_WhileStmt(self, n):
        c = kids(n)
        if n.get("hasVar"): raise Unsupported("while with declaration")
        self.loop(lambda: self.cond(c[0]), lambda: self.body(c[1]), None, c[1])

    def s_DoStmt(self, n):
        c = kids(n)
        self.loop(lambda: self.cond(c[1]), lambda: self.body(c[0]), None, c[0], post=True)

    def s_ForStmt(self, n):
        raw = [c for c in n.get("inner", [])]
        init, var, cond, inc, body = (raw + [{}] * 5)[:5]
        self.emit("{"); self.env.append({}); act = set(self.active)
        if init.get("kind"): self.stmt(init)
        if var.get("kind"): raise Unsupported("for with condition variable")
        self.loop((lambda: self.cond(cond)) if cond.get("kind") else None, lambda: self.body(body), (lambda: self.ev(inc, discard=True)) if inc.get("kind") else None, body)
        self.env.pop(); self.active = act; self.emit("}")

    def s_CXXForRangeStmt(self, n):
        raw = [c for c in n.get("inner", [])]
        rng = cur = None
        ds = [c for c in raw if c.get("kind") == "DeclStmt"]
        rangevar = kids(ds[0])[0]; loopvar = kids(ds[-1])[0]; body = raw[-1]
        self.emit("{"); self.env.append({}); act = set(self.active)
        v = self.ev(kids(rangevar)[0])
        q = qual(loopvar); nm = loopvar.get("name", "x")
        mutref = q.endswith("&") and not strip_ref_const(q)
        if mutref and v.lv is not None and v.ty.k == "seq":
            i = self.decl(nm + "_i", "int", "0"); lv = self.freeze(v.lv)
            def body_():
                self.bind(loopvar["id"], lv.at(("i", self.tmp(i, "int", "ix")), v.ty.e)); self.body(body)
            self.loop(lambda: "%s < %s.len()" % (i, par(lv.get())), body_, lambda: self.emit("proof { %s = %s + 1; }" % (i, i)), body, auto=["0 <= %s <= %s.len()" % (i, par(lv.get()))])
        elif mutref and v.lv is not None and v.ty.k == "opaque": raise Unsupported("range over " + v.ty.name)
        else:
            if mutref: raise Unsupported("mutable range loop over " + v.ty.k)
            cont = self.enumerate(v)
            c = self.tmp(cont.s, "Seq<%s>" % cont.e.v(), nm + "_c") ; 
            cname = self.fresh(nm + "_c"); self.emit("let ghost %s: Seq<%s> = %s;" % (cname, cont.e.v(), c))
            i = self.decl(nm + "_i", "int", "0")
            def body_():
                x = self.decl(nm, cont.e.v(), "%s[%s]" % (cname, i)); self.bind(loopvar["id"], LV(x, cont.e)); self.body(body)
            self.loop(lambda: "%s < %s.len()" % (i, cname), body_, lambda: self.emit("proof { %s = %s + 1; }" % (i, i)), body, auto=["0 <= %s <= %s.len()" % (i, cname)])
        self.env.pop(); self.active = act; self.emit("}")

    def enumerate(self, v):
        """sequence in which a container is traversed"""
        if v.ty.k == "seq": return Cont("snap", s=v.s, e=v.ty.e)
        if v.ty.k == "set":
            if v.ty.elem.k == "edge": raise Unsupported("enumeration of an edge set needs the graph")
            if v.ty.kind.startswith("unordered"):
                h = self.havoc("Seq<%s>" % v.ty.e.v()); self.emit("proof { assume(enumerates(%s, %s)); }" % (h, v.s)); return Cont("snap", s=h, e=v.ty.e)
            return Cont("snap", s="set_sorted(%s)" % v.s, e=v.ty.e)
        if v.ty.k == "pairv": pass
        raise Unsupported("enumeration of " + v.ty.k)

    def s_BreakStmt(self, n):
        if not self.loops: raise Unsupported("break outside of a loop")
        b, fin = self.loops[-1]
        self.emit("proof { %s = true; }" % b); self.emit("continue;")
    def s_ContinueStmt(self, n):
        b, fin = self.loops[-1]
        fin(); self.emit("continue;")

    def s_ReturnStmt(self, n):
        c = kids(n)
        if self.retctx["inline"]:
            if self.loops and len(self.loops) > self.retctx["depth"]: raise Unsupported("return inside a loop of an inlined function")
            if c: self.retctx["put"](self.ev(c[0]))
            self.retctx["done"] = True
            return
        v = Val("()", TUNIT)
        if c:
            v = self.ev(c[0])
            rt = self.retctx["ty"]
            if rt.k in ("int", "real", "bool"): v = self.conv(v, rt)
        self.ret(v.s, "false")

    def ret(self, s, exc):
        h = self.cfg.get("at_return")
        self.emit("let ghost r: %s = %s;" % (self.retctx["ty"].v(), s))
        if h: self.emit("proof { %s }" % h.replace("\n", " "), "hint at return")
        for o, lv in self.retctx["outs"]:
            pass
        parts = ["r"] + [lv for _, lv in self.retctx["outs"]] + ([exc] if self.cfg.get("throws") else [])
        self.emit("return Ghost((%s,));" % ", ".join(parts) if len(parts) == 1 else "return Ghost((%s));" % ", ".join(parts), "postcondition")

    def s_CXXThrowExpr(self, n): self.throw()
    def throw(self):
        if self.cfg.get("throws"):
            rt = self.retctx["ty"] if not self.retctx["inline"] else self.outer_ret["ty"]
            h = self.havoc(rt.v())
            save = self.retctx; self.retctx = self.outer_ret
            self.ret(h, "true"); self.retctx = save
        else:
            self.oblige("false", "this throw is unreachable under the precondition")

    def s_CXXTryStmt(self, n): raise Unsupported("try block")
    def s_SwitchStmt(self, n): raise Unsupported("switch")
    def s_GotoStmt(self, n): raise Unsupported("goto")

    # ---------------------------------------------------------------- expressions
    def ev(self, n, discard=False, want=None):
        k = n["kind"]
        f = getattr(self, "e_" + k, None)
        if k in SKIP: return self.ev(kids(n)[0], discard, want)
        if not f: raise Unsupported("expression " + k)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "CXXFunctionalCastExpr", "ImplicitCastExpr", "CallExpr"): return f(n, want)
        if k in ("UnaryOperator", "BinaryOperator", "CXXOperatorCallExpr", "CXXMemberCallExpr", "CompoundAssignOperator"): return f(n, discard)
        return f(n)

    def evs(self, ns):
        """operands left to right; earlier values are frozen when a later operand has effects"""
        out = []
        for n in ns:
            mark = self.mut; pos = len(self.lines)
            v = self.ev(n)
            if self.mut != mark:
                for j, o in enumerate(out):
                    if not isinstance(o, (IterV, KeyIt, PairV, FunV, OutIt)) and o.ty.k not in ("opaque", "fun") and not re.fullmatch(r"-?[\d.]+(int|real)?|\w+__\d+|true|false", o.s):
                        self.k += 1; t = "f__%d" % self.k
                        self.lines.insert(pos, ("let ghost %s: %s = %s;" % (t, o.ty.v(), o.s), None)); pos += 1
                        out[j] = Val(t, o.ty, o.lv)
            out.append(v)
        return out

    def e_IntegerLiteral(self, n): return Val("%sint" % n["value"], self.ty(n))
    def e_FloatingLiteral(self, n):
        from fractions import Fraction
        f = Fraction(str(n["value"]))
        return Val("%dreal" % f.numerator if f.denominator == 1 else "(%dreal / %dreal)" % (f.numerator, f.denominator), TREAL)
    def e_CXXBoolLiteralExpr(self, n): return Val("true" if n["value"] else "false", TBOOL)
    def e_CXXNullPtrLiteralExpr(self, n): return FunV("null")
    def e_CharacterLiteral(self, n): return Val("%sint" % n["value"], self.ty(n))
    def e_StringLiteral(self, n): return FunV("string", text=n.get("value", ""))
    def e_CXXDefaultArgExpr(self, n): return FunV("default")
    def e_CXXScalarValueInitExpr(self, n): t = self.ty(n); return Val(self.default(t), t)
    def e_ImplicitValueInitExpr(self, n): t = self.ty(n); return Val(self.default(t), t)
    def e_CXXThrowExpr(self, n): self.throw(); return Val("()", TUNIT)

    def e_CXXThisExpr(self, n):
        b = self.look("this")
        return self.asval(b)

    def asval(self, b):
        if b is None: raise Unsupported("unknown variable")
        if isinstance(b, Val): return b
        if isinstance(b, LV): return Val(b.get(), b.ty, b)
        if isinstance(b, tuple) and b[0] == "uninit": return FunV("uninit", name=b[1], t=b[2])
        raise Unsupported("binding")

    def e_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        b = self.look(d["id"])
        if b is not None:
            v = self.asval(b)
            if isinstance(v, FunV) and v.kind == "uninit": v.id = d["id"]
            return v
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"): return FunV("fn", decl=d["id"], name=d.get("name"), q=self.p.qname.get(d["id"]))
        if d["kind"] == "VarDecl":
            g = self.cfg.get("globals", {}).get(d.get("name"))
            if g: return Val(g[0], g[1], LV(g[0], g[1]))
            return FunV("global", name=d.get("name"), q=qual(d))
        if d["kind"] == "EnumConstantDecl": return FunV("enum", name=d.get("name"))
        raise Unsupported("reference to " + d["kind"] + " " + str(d.get("name")))

    def e_ImplicitCastExpr(self, n, want=None):
        ck = n.get("castKind"); c = kids(n)[0]
        if ck in IDCAST: return self.ev(c, want=want)
        v = self.ev(c)
        if ck in ("IntegralCast", "IntegralToBoolean", "IntegralToFloating", "FloatingToIntegral", "BooleanToSignedIntegral"): return self.conv(v, self.ty(n))
        if ck == "PointerToBoolean" or ck == "FloatingToBoolean": raise Unsupported("cast " + ck)
        if ck == "ToVoid": return Val("()", TUNIT)
        if ck in ("NullToPointer",): return FunV("null")
        raise Unsupported("cast " + str(ck))
    def e_CStyleCastExpr(self, n): return self.e_ImplicitCastExpr(n)
    def e_CXXStaticCastExpr(self, n): return self.e_ImplicitCastExpr(n)
    def e_CXXFunctionalCastExpr(self, n, want=None): return self.e_ImplicitCastExpr(n, want)

    def e_ConditionalOperator(self, n):
        c, a, b = kids(n)
        cv = self.cond(c)
        (x, la) = self.trial(lambda: self.ev(a)); (y, lb) = self.trial(lambda: self.ev(b))
        if any(o is None for _, o in la + lb):
            ty = x.ty if not (x.ty.k == "int" and y.ty.k == "real") else y.ty
            self.k += 1; t = "c__%d" % self.k
            self.emit("let ghost mut %s: %s = %s;" % (t, ty.v(), self.havoc(ty.v())))
            self.emit("if tst(Ghost(%s)) {" % cv); self.lines += la; self.emit("proof { %s = %s; }" % (t, x.s)); self.emit("} else {"); self.lines += lb; self.emit("proof { %s = %s; }" % (t, y.s)); self.emit("}")
            return Val(t, ty)
        for l, o in la: self.lines.append((self.guard1(l, cv), o))
        for l, o in lb: self.lines.append((self.guard1(l, "!(%s)" % cv), o))
        return Val("(if %s { %s } else { %s })" % (cv, x.s, y.s), x.ty)

    def guard1(self, l, c):
        m = re.fullmatch(r"proof \{ assert\((.*)\); \}", l)
        if not m: raise Unsupported("guarded effect")
        return "proof { assert((%s) ==> (%s)); }" % (c, m.group(1))

    def e_BinaryOperator(self, n, discard=False):
        op = n["opcode"]; a, b = kids(n)
        if op in ("&&", "||"):
            x = self.truth(self.ev(a))
            (y, ly) = self.trial(lambda: self.truth(self.ev(b)))
            if all(o is not None for _, o in ly):
                for l, o in ly: self.lines.append((self.guard1(l, x if op == "&&" else "!(%s)" % x), o))
                return Val("(%s %s %s)" % (x, op, y), TBOOL)
            self.k += 1; t = "s__%d" % self.k
            self.emit("let ghost mut %s: bool = %s;" % (t, x)); self.emit("if tst(Ghost(%s)) {" % (t if op == "&&" else "!" + t)); self.lines += ly; self.emit("proof { %s = %s; }" % (t, y)); self.emit("}")
            return Val(t, TBOOL)
        if op == ",":
            self.ev(a, discard=True); return self.ev(b)
        if op == "=":
            return self.assign(a, b)
        x, y = self.evs([a, b])
        return self.binop(op, x, y, n)

    def binop(self, op, x, y, n):
        if isinstance(x, IterV) and isinstance(y, IterV):
            if op in ("==", "!=", "<", "<=", ">", ">="): return Val("(%s %s %s)" % (x.s, op, y.s), TBOOL)
            if op == "-": return Val("(%s - %s)" % (x.s, y.s), Ty("int", bits=64, sg=1))
        if op in ("==", "!="):
            if isinstance(x, KeyIt) and isinstance(y, IterV):
                return Val("!%s" % x.ok if op == "==" else x.ok, TBOOL)
            if isinstance(y, KeyIt) and isinstance(x, IterV): return self.binop(op, y, x, n)
            if isinstance(y, FunV) and y.kind == "null" and x.ty.k == "opt": return Val("%s(%s).is_some()" % ("!" if op == "==" else "", x.s), TBOOL)
            if isinstance(x, FunV) and x.kind == "null": return self.binop(op, y, x, n)
            if y.ty.k == "addr" or x.ty.k == "addr":
                a = x.ty.of if x.ty.k == "addr" else x; b = y.ty.of if y.ty.k == "addr" else y
                self.k += 1; h = "same__%d" % self.k
                self.emit("let %s = havoc::<bool>();" % h); self.emit("proof { assume(%s@ ==> (%s == %s)); }" % (h, a.s, b.s))
                self.assumed.add("equal addresses denote the same object (self-assignment test)")
                return Val("%s@" % h if op == "==" else "!%s@" % h, TBOOL)
            if x.ty.k == "struct" and y.ty.k == "struct" and n.get("_ptr"): raise Unsupported("pointer comparison")
            if x.ty.k == "edge" and y.ty.k == "edge": return Val("(%s.id %s %s.id)" % (par(x.s), op, par(y.s)), TBOOL)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if x.ty.k == "real" and y.ty.k == "int": y = self.conv(y, TREAL)
            if y.ty.k == "real" and x.ty.k == "int": x = self.conv(x, TREAL)
            if x.ty.k in ("int", "real") and y.ty.k == x.ty.k or (op in ("==", "!=") and x.ty.k == y.ty.k and x.ty.k in ("bool", "tup", "seq", "set", "struct", "map")):
                if x.ty.k == "edge": pass
                return Val("(%s %s %s)" % (x.s, op, y.s), TBOOL)
            if x.ty.k == "bool" or y.ty.k == "bool":
                return self.binop(op, self.conv(x, TINT) if x.ty.k == "bool" else x, self.conv(y, TINT) if y.ty.k == "bool" else y, n)
            raise Unsupported("comparison %s of %s and %s" % (op, x.ty.k, y.ty.k))
        ty = self.ty(n)
        if ty.k == "real": x, y = self.conv(x, ty), self.conv(y, ty)
        if x.ty.k == "bool": x = self.conv(x, TINT)
        if y.ty.k == "bool": y = self.conv(y, TINT)
        return self.arith(op, x.s, y.s, ty, self.src(n))

    def src(self, n):
        r = n.get("range", {}).get("begin", {})
        r = r.get("expansionLoc") or r
        t = " ".join(source_text(n).split())
        return "%s:%s `%s`" % (str(r.get("_f")).split("/")[-1], r.get("_l"), t[:60])

    def target(self, n):
        v = self.ev(n)
        if isinstance(v, (IterV, KeyIt, PairV, FunV, OutIt)): return v
        if v.lv is None: raise Unsupported("assignment to a value")
        return v

    def assign(self, a, b):
        rhs = self.ev(b, want=self.tyq(a))
        if not isinstance(rhs, (IterV, KeyIt, PairV, FunV, OutIt)) and rhs.ty.k != "opaque" and not re.fullmatch(r"[\w]+(\.\w+)*", rhs.s):
            pass
        m = self.mut
        lhs = self.target(a)
        return self.assignv(lhs, rhs, a)

    def assignv(self, lhs, rhs, a=None):
        if isinstance(lhs, FunV) and lhs.kind == "uninit":
            return self.first_assign(lhs, rhs)
        if isinstance(lhs, OutIt): return lhs
        if isinstance(lhs, IterV):
            if not isinstance(rhs, IterV): raise Unsupported("iterator assignment")
            if rhs.cont is not lhs.cont:
                if lhs.cont.kind == "snap" and rhs.cont.kind == "snap": self.set(lhs.cont.lv, rhs.cont.s)
                elif lhs.cont.kind == rhs.cont.kind == "verts": pass
                elif lhs.cont.kind == rhs.cont.kind == "live" and lhs.cont.lv.get() == rhs.cont.lv.get(): pass
                else: raise Unsupported("iterator re-targeted to another container")
            self.set(lhs.lv, rhs.s); return lhs
        if isinstance(lhs, PairV) and isinstance(rhs, PairV):
            x, y = rhs.a.s, rhs.b.s
            self.assignv(lhs.a, rhs.a)
            self.set(lhs.b.lv, y) if isinstance(lhs.b, IterV) else self.assignv(lhs.b, rhs.b)
            return lhs
        if isinstance(lhs, KeyIt) and isinstance(rhs, KeyIt):
            if lhs.c.get() != rhs.c.get(): raise Unsupported("iterator re-targeted")
            self.emit("proof { %s = %s; }" % (lhs.ok, rhs.ok)); self.emit("proof { %s = %s; }" % (lhs.key, rhs.key)); return lhs
        if isinstance(rhs, FunV) and rhs.kind == "null" and lhs.ty.k == "opt": self.set(lhs.lv, self.default(lhs.ty)); return lhs
        if isinstance(rhs, (IterV, KeyIt, PairV, FunV, OutIt)): raise Unsupported("assignment of a library object")
        rhs = self.conv(rhs, lhs.ty)
        if rhs.ty.k != lhs.ty.k: raise Unsupported("assignment of %s to %s" % (rhs.ty.k, lhs.ty.k))
        self.set(lhs.lv, rhs.s)
        return Val(lhs.lv.get(), lhs.ty, lhs.lv)

    def first_assign(self, lhs, rhs):
        # an iterator declared without initializer gets its range here
        i, name = lhs.id, lhs.name
        for e in self.env:
            if i in e:
                save = self.env[-1]
                if isinstance(rhs, IterV):
                    # declared in the enclosing Rust scope of this statement
                    cont = rhs.cont
                    nm = self.decl(name, "int", rhs.s)
                    if cont.kind == "snap":
                        c = self.decl(name + "_c", "Seq<%s>" % cont.e.v(), cont.s); cont = Cont("snap", s=c, e=cont.e, lv=LV(c, Ty("seq", e=cont.e, kind="snap")))
                    # binding lives as long as the current scope
                    self.bind(i, IterV(nm, cont, LV(nm, TINT)))
                    return rhs
        raise Unsupported("first assignment of " + name)

    def e_CompoundAssignOperator(self, n, discard=False):
        op = n["opcode"][:-1]; a, b = kids(n)
        y = self.ev(b)
        if self.effects(b): y = Val(self.tmp(y.s, y.ty.v()), y.ty)
        x = self.target(a)
        if isinstance(x, IterV):
            self.set(x.lv, "(%s %s %s)" % (x.s, op, y.s)); return x
        ct = n.get("computeResultType") or n.get("computeLHSType")
        ty = self.t.parse2(ct.get("desugaredQualType"), ct.get("qualType")) if ct else x.ty
        xx = self.conv(x, ty); yy = self.conv(y, ty)
        v = self.conv(self.arith(op, xx.s, yy.s, ty, self.src(n)), x.ty)
        self.set(x.lv, v.s)
        return Val(x.lv.get(), x.ty, x.lv)

    def effects(self, n): return False

    def e_UnaryOperator(self, n, discard=False):
        op = n["opcode"]; c = kids(n)[0]
        if op in ("++", "--"):
            v = self.ev(c)
            if isinstance(v, OutIt): return v
            return self.incdec(v, op, n.get("isPostfix"), discard, n)
        if op == "&":
            v = self.ev(c); return Val(v.s, Ty("addr", of=v), v.lv)
        if op == "*":
            v = self.ev(c)
            if isinstance(v, OutIt): return v
            if isinstance(v, IterV): return self.deref(v)
            if v.ty.k == "addr": return v.ty.of
            if unwrap(c)["kind"] == "CXXThisExpr": return v
            if v.ty.k == "struct": return v
            raise Unsupported("dereference of " + v.ty.k)
        v = self.ev(c)
        if op == "!": return Val("!%s" % par(self.truth(v)), TBOOL)
        if op == "-":
            ty = self.ty(n)
            if ty.k == "real": return Val("(-%s)" % par(v.s), ty)
            if re.fullmatch(r"\d+int", v.s): return Val("(-%s)" % v.s, ty)
            return self.arith("-", "0int", v.s, ty, self.src(n))
        if op == "+": return v
        raise Unsupported("unary " + op)

    def incdec(self, v, op, post, discard, n):
        if isinstance(v, KeyIt): raise Unsupported("increment of a find() iterator")
        if isinstance(v, (FunV, PairV)): raise Unsupported("increment")
        if v.lv is None: raise Unsupported("increment of a value")
        old = None
        if post and not discard: old = self.tmp("(" + v.s + ")", "int")
        if isinstance(v, IterV):
            if op == "++": self.oblige("%s < %s" % (v.s, v.cont.len()), "iterator incremented past the end")
            self.set(v.lv, "%s %s 1" % (v.s, op[0]))
            return IterV(old or v.lv.get(), v.cont, None if old else v.lv)
        if v.ty.k == "real": self.set(v.lv, "(%s %s 1real)" % (v.s, op[0])); return Val(old or v.lv.get(), v.ty, v.lv)
        lo, hi = self.rng(v.ty)
        if v.ty.sg and not self.cfg.get("nooverflow"): self.oblige("%s %s %d" % (v.s, "<" if op == "++" else ">", hi if op == "++" else lo), "signed overflow: increment")
        if not v.ty.sg and op == "++": self.assumed.add("size_t counters do not reach 2^64")
        if v.ty.sg or op == "++": s = "%s %s 1" % (v.s, op[0])
        else: s = "uw%d(%s - 1)" % (v.ty.bits, v.s)
        self.set(v.lv, s)
        return Val(old if old else v.lv.get(), v.ty, None if old else v.lv)

    def deref(self, v):
        c = v.cont
        if c is None: raise Unsupported("dereference of end()")
        if c.kind == "verts":
            self.oblige("0 <= %s < %s" % (v.s, c.n), "dereferenced vertex iterator is in range"); return Val(v.s, TSZ)
        self.oblige("0 <= %s < %s" % (v.s, c.len()), "dereferenced iterator is in range")
        e = c.e if c.kind == "snap" else c.lv.ty.e
        if c.kind == "live":
            lv = c.lv.at(("i", v.s), e); return Val(lv.get(), e, lv)
        return Val("%s[%s]" % (par(c.s), v.s), e)

    def e_ArraySubscriptExpr(self, n):
        a, b = self.evs(kids(n))
        return self.index(a, b, "array index in range")

    def index(self, a, b, why):
        if a.ty.k != "seq": raise Unsupported("subscript of " + a.ty.k)
        self.oblige("0 <= %s < %s.len()" % (b.s, par(a.s)), why)
        if a.lv is not None:
            lv = a.lv.at(("i", b.s), a.ty.e); return Val(lv.get(), a.ty.e, lv)
        return Val("%s[%s]" % (par(a.s), b.s), a.ty.e)

    def e_MemberExpr(self, n):
        c = kids(n)[0]
        d = self.p.by_id.get(n.get("referencedMemberDecl"))
        v = self.ev(c)
        nm = safe(n["name"])
        if isinstance(v, PairV): return v.a if nm == "first" else v.b
        if isinstance(v, KeyIt) or v.ty.k == "keyit": raise Unsupported("member of iterator")
        if v.ty.k == "tup" and nm in ("first", "second"): return self.proj(v, 0 if nm == "first" else 1)
        if v.ty.k == "addr": v = v.ty.of
        if v.ty.k == "mapent": return Val(v.key, v.mty.e) if nm == "first" else self.mapval(v)
        if v.ty.k == "struct":
            for f, ft in v.ty.fs:
                if f == nm:
                    al = self.field_alias(v, f)
                    if al is not None: return al
                    if ft.k == "opaque" and getattr(ft, "what", "") in ("less", "plus", "greater"): return FunV(ft.what)
                    if ft.k == "opaque": return FunV("opaque_field", name=f, t=ft, of=v)
                    if v.lv is not None: lv = v.lv.at(("f", f, v.ty.name), ft); return Val(lv.get(), ft, lv)
                    return Val(par(v.s) + "." + f, ft)
        raise Unsupported("member %s of %s" % (nm, v.ty.k))

    def field_alias(self, v, f): return None

    def proj(self, v, i):
        if v.ty.k != "tup": raise Unsupported("get on " + v.ty.k)
        if v.lv is not None:
            lv = v.lv.at(("t", i, len(v.ty.ts)), v.ty.ts[i]); return Val(lv.get(), v.ty.ts[i], lv)
        return Val("%s.%d" % (par(v.s), i), v.ty.ts[i])

    def e_LambdaExpr(self, n):
        m = None
        for c in kids(n):
            if c["kind"] == "CXXRecordDecl":
                for x in kids(c):
                    if x["kind"] == "CXXMethodDecl" and x.get("name") == "operator()": m = x
                    if x["kind"] == "FunctionTemplateDecl":
                        for y in kids(x):
                            if y["kind"] == "CXXMethodDecl" and y.get("name") == "operator()": m = y
        return FunV("lambda", decl=m, env=list(self.env), node=n)

    def e_InitListExpr(self, n, want=None):
        t = want or self.ty(n)
        c = kids(n)
        if t.k == "tup":
            vs = self.evs(c); return Val("(" + ", ".join(self.conv(v, x).s for v, x in zip(vs, t.ts)) + ")", t)
        if t.k == "seq":
            vs = self.evs(c)
            if getattr(t, "fixed", None) and len(vs) != t.fixed: raise Unsupported("partial initializer list")
            return Val("seq![%s]" % ", ".join(self.conv(v, t.e).s for v in vs), t)
        if len(c) == 1: return self.ev(c[0])
        if not c: return Val(self.default(t), t)
        if t.k == "struct":
            vs = self.evs(c); return Val("%s { %s }" % (t.name, ", ".join("%s: %s" % (f, self.conv(v, ft).s) for (f, ft), v in zip(t.fs, vs))), t)
        raise Unsupported("initializer list for " + t.k)

    # ---------------------------------------------------------------- construction
    def e_CXXTemporaryObjectExpr(self, n, want=None): return self.e_CXXConstructExpr(n, want)
    def e_CXXConstructExpr(self, n, want=None):
        c = [x for x in kids(n) if x["kind"] != "CXXDefaultArgExpr"]
        q = qual(n)
        try: t = self.ty(n)
        except Unsupported: t = None
        if t is None and len(c) == 1:
            v = self.ev(c[0], want=want); return v
        if t is None: return self.construct_special(n, q, c)
        if t.k in ("iter",):
            if len(c) == 1: return self.ev(c[0])
            if not c: return FunV("uninit", name="it", t=t, id=None)
            raise Unsupported("iterator construction")
        if t.k == "opaque": return self.construct_special(n, q, c, t)
        if t.k == "set" and len(c) == 1:
            il = self.init_list(c[0])
            if il is not None: return Val(self.default(t) + "".join(".insert(%s)" % self.key(v, t) for v in self.evs(kids(il))), t)
        if len(c) == 1:
            inner = self.tyq(c[0])
            v = self.ev(c[0], want=t)
            if isinstance(v, (IterV, KeyIt, PairV, FunV, OutIt)) and not (isinstance(v, FunV) and t.k == "opt"): 
                if not (t.k == "struct" and isinstance(v, FunV)): return v
            if t.k == v.ty.k and (t.k != "struct" or t.name == v.ty.name) and (t.k != "int"): return v
            if t.k == "seq" and v.ty.k == "int": return self.fill(t, v, None)
            if t.k == "opt" and isinstance(v, FunV) and v.kind == "null": return Val(self.default(t), t)
            if t.k == "struct": return self.construct(t, n, [v], c)
            if t.k in ("int", "real", "bool"): return self.conv(v, t)
            if t.k == "tup" and v.ty.k == "tup": return Val("(" + ", ".join(self.conv(Val("%s.%d" % (par(v.s), i), x), y).s for i, (x, y) in enumerate(zip(v.ty.ts, t.ts))) + ")", t)
            if t.k == "graph" and v.ty.k == "int": return Val("g_new(%s)" % v.s, t)
            raise Unsupported("construction of %s from %s" % (t.k, v.ty.k))
        if not c and t.k not in ("struct",): return Val(self.default(t), t)
        if t.k == "tup":
            vs = self.evs(c)
            return Val("(" + ", ".join(self.conv(v, x).s for v, x in zip(vs, t.ts)) + ")", t)
        if t.k == "seq":
            vs = self.evs(c)
            if len(vs) == 2 and isinstance(vs[0], IterV) and isinstance(vs[1], IterV): return Val(self.subrange(vs[0], vs[1]), t)
            if len(vs) == 2 and vs[0].ty.k == "int": return self.fill(t, vs[0], vs[1])
        if t.k == "set" and len(c) == 2:
            vs = self.evs(c)
            return Val("seq_set(%s)" % self.subrange(vs[0], vs[1]), t)
        if t.k == "struct": return self.construct(t, n, None, c)
        raise Unsupported("construction of " + t.k)

    def init_list(self, n):
        """the elements of a std::initializer_list"""
        seen = False
        while n["kind"] in SKIP and kids(n): seen = seen or n["kind"] == "CXXStdInitializerListExpr"; n = kids(n)[0]
        return n if seen and n["kind"] == "InitListExpr" else None

    def fill(self, t, n, v):
        x = self.conv(v, t.e).s if v is not None else self.default(t.e)
        return Val("Seq::new(%s as nat, |i_: int| %s)" % (par(n.s), x), t)

    def subrange(self, a, b):
        self.oblige("0 <= %s <= %s <= %s" % (a.s, b.s, a.cont.len()), "iterator range is valid")
        return "%s.subrange(%s, %s)" % (par(a.cont.seq()), a.s, b.s)

    def construct_special(self, n, q, c, t=None):
        if "VertexIndexFunctor" in q and len(c) == 2: return self.ev(c[0])
        if "function_property_map" in q or "associative_property_map" in q: return self.ev(c[0])
        if len(c) == 1: return self.ev(c[0])
        if t is not None and not c: return FunV(t.what if hasattr(t, "what") else "opaque", t=t)
        raise Unsupported("construction of " + q[:80])

    def construct(self, t, n, vals, argn=None):
        sig = (n.get("ctorType") or {})
        s1 = sig.get("qualType", ""); s2 = sig.get("desugaredQualType", s1)
        cands = []
        def ctors(d):
            for x in kids(d):
                if x["kind"] == "CXXConstructorDecl": yield x
                if x["kind"] == "FunctionTemplateDecl":
                    for y in kids(x):
                        if y["kind"] == "CXXConstructorDecl": yield y
        for x in ctors(t.decl):
            ct = x["type"]
            if ct.get("qualType") in (s1, s2) or ct.get("desugaredQualType", "?") in (s1, s2): cands.append(x)
        if not cands: raise Unsupported("constructor %s" % s1)
        d = cands[0]
        implicit = d.get("isImplicit") or d.get("explicitlyDefaulted")
        b = self.p.by_id.get(d["id"], d)
        if implicit or not any(x["kind"] == "CompoundStmt" for x in kids(b)):
            if vals and vals[0].ty.k == "struct": return vals[0]
            if not vals and not argn: return Val(self.default(t), t)
            raise Unsupported("constructor without body")
        if vals is None: vals = self.evs(argn)
        self.k += 1; o = "o__%d" % self.k
        self.emit("let ghost mut %s: %s = %s;" % (o, t.v(), self.uninit_struct(t)))
        self.inline(b, vals, LV(o, t), ctor=t)
        return Val(o, t, LV(o, t))

    def uninit_struct(self, t):
        """class members are default-initialised, scalars are unspecified"""
        out = []
        for f, ft in t.fs:
            if ft.k == "opaque": continue
            x = self.uninit(ft) if ft.k in ("int", "bool", "real") else self.default(ft)
            out.append("%s: %s" % (f, x))
        return "%s { %s }" % (t.name, ", ".join(out))

    # ---------------------------------------------------------------- calls
    def callee(self, n):
        f = unwrap(n)
        if f["kind"] == "DeclRefExpr": return f["referencedDecl"].get("name"), f["referencedDecl"]["id"], f
        if f["kind"] == "ImplicitCastExpr": return self.callee(kids(f)[0])
        return None, None, f

    def e_CallExpr(self, n, want=None):
        c = kids(n)
        nm, i, f = self.callee(c[0])
        args = [x for x in c[1:] if x["kind"] != "CXXDefaultArgExpr"]
        if nm is None:
            if f["kind"] == "MemberExpr": return self.e_CXXMemberCallExpr(n)
            v = self.ev(f)
            if isinstance(v, FunV) and v.kind == "lambda": return self.inline(v.decl, self.evs(args), None, env=v.env)
            raise Unsupported("call through " + f["kind"])
        r = self.user_call(nm, i, None, args, n)
        if r is not None: return r
        lib = getattr(self, "c_" + nm, None)
        if not lib: raise Unsupported("call of %s" % nm)
        return lib(n, args, want) if nm in ("make_tuple", "make_pair", "get") else lib(n, args)

    def contract_for(self, i):
        q = self.p.qname.get(i)
        b = self.p.by_id.get(i)
        if b is None: return None
        for ct in self.cs:
            if ct.get("decl") and ct["decl"]["id"] == b["id"]: return ct
        return None

    def user_call(self, nm, i, this, args, n):
        ct = self.contract_for(i)
        if ct is not None and ct["name"] != None and not ct.get("inline"):
            return self.call_contract(ct, this, args, n)
        b = self.p.by_id.get(i)
        if b is not None and any(x["kind"] == "CompoundStmt" for x in kids(b)):
            q = self.p.qname.get(i, "")
            return self.inline(b, self.evs(args), this)
        return None

    def call_contract(self, ct, this, args, n, vals=None):
        vs = self.evs(args) if vals is None else vals
        self.called.add(ct["name"])
        ps = ct["params"]
        ins, outs = [], []
        for nm, ty in ct.get("gparams") or ():
            ins.append(self.cfg.get("gargs", {}).get(ct["name"], {}).get(nm, nm))
        if ct["this"] == "new": outs.append(("new", None))
        elif ct["this"]:
            if this is None: this = self.look("this"); 
            lv = this if isinstance(this, LV) else this.lv
            ins.append(lv.get() if lv is not None else this.s)
            if ct["this"] == "out":
                if lv is None: raise Unsupported("mutating call on a temporary")
                outs.append(("lv", self.freeze(lv)))
        for p, v in zip(ps, vs):
            if p["mode"] == "drop": continue
            if p["mode"] == "outit":
                if not isinstance(v, OutIt): raise Unsupported("output iterator argument")
                outs.append(("outit", v)); continue
            if isinstance(v, FunV) and p["mode"] in ("in",) and p["ty"].k == "opaque": continue
            v = self.argval(v, p["ty"])
            v = self.conv(v, p["ty"])
            ins.append(v.s)
            if p["mode"] == "out":
                if v.lv is None: raise Unsupported("reference argument is not an object")
                outs.append(("lv", self.freeze(v.lv)))
        if (self.cfg.get("calls") or {}).get(ct["name"]): self.emit("proof { %s }" % self.cfg["calls"][ct["name"]].replace("\n", " "), "hint before the call of " + ct["name"])
        self.ncall[ct["name"]] = self.ncall.get(ct["name"], 0) + 1; t = "c_%s_%d" % (ct["name"], self.ncall[ct["name"]])
        self.emit("let %s = %s(%s);" % (t, ct["name"], ", ".join("Ghost(%s)" % x for x in ins)), "precondition of " + ct["name"])
        for j, (k, o) in enumerate(outs):
            if k == "new": continue
            if k == "lv": self.set(o, "%s@.%d" % (t, j + 1))
            else: self.out_append(o, "%s@.%d" % (t, j + 1))
        if (self.cfg.get("after") or {}).get(ct["name"]): self.emit("proof { %s }" % self.cfg["after"][ct["name"]].replace("\n", " ").replace("R_", t + "@"), "hint after the call of " + ct["name"])
        if ct.get("throws"):
            x = "%s@.%d" % (t, len(outs) + 1)
            if self.cfg.get("throws"):
                self.emit("if tst(Ghost(%s)) {" % x); self.throw(); self.emit("}")
            else: self.oblige("!%s" % x, "the call of %s does not throw" % ct["name"])
        if ct["this"] == "new": return Val("%s@.1" % t, ct["thisty"])
        return Val("%s@.0" % t, ct["ret"])

    def argval(self, v, ty): return v

    def out_append(self, o, s):
        if o.mode == "back": self.set(o.dst, "%s + %s" % (o.dst.get(), s))
        elif o.mode == "ins": self.set(o.dst, "%s.union(%s)" % (o.dst.get(), ("ids(%s)" if o.dst.ty.elem.k == "edge" else "seq_set(%s)") % s))

    def inline(self, d, vals, this, env=None, ctor=None):
        if d["id"] in self.inl: raise Unsupported("recursion in " + str(d.get("name")))
        self.inl.append(d["id"])
        if len(self.inl) > 12: raise Unsupported("inlining depth")
        saved_env, self.env = self.env, (list(env) if env is not None else []) + [{}]
        saved_local = self.t.local
        if env is None: self.t.local = {}
        if env is None or this is not None: self.env[-1]["this"] = this if this is not None else None
        if env is not None and this is None: self.env[-1].pop("this", None)
        ps = [c for c in kids(d) if c["kind"] == "ParmVarDecl"]
        rt = None
        single = self.single_return(d)
        act = set(self.active)
        for p, v in zip(ps, vals): self.param_inline(p, v)
        res = {}
        if ctor is not None:
            for x in kids(d):
                if x["kind"] == "CXXCtorInitializer":
                    f = (x.get("anyInit") or {}).get("name")
                    if f is None: raise Unsupported("base initializer")
                    ft = dict(ctor.fs).get(safe(f))
                    if ft is None or ft.k == "opaque": continue
                    e = kids(x)
                    if not e: continue
                    e0 = self.init_expr(e[0], ctor.decl, f)
                    if e0 is None: continue
                    v = self.ev(e0, want=ft)
                    self.set(this.at(("f", safe(f), ctor.name), ft), self.conv(v, ft).s)
        body = [c for c in kids(d) if c["kind"] == "CompoundStmt"][0]
        old = self.retctx
        if single is not None:
            for s in single[0]: self.stmt(s)
            r = self.ev(single[1]) if single[1] is not None else Val("()", TUNIT)
        else:
            rq = d["type"].get("desugaredQualType") or d["type"]["qualType"]
            r = self.inline_multi(d, body)
        self.retctx = old
        self.env = saved_env; self.t.local = saved_local; self.inl.pop()
        return r

    def init_expr(self, e, cls, f):
        """the initializer itself, or the default member initializer it stands for"""
        if unwrap(e)["kind"] != "CXXDefaultInitExpr": return e
        for nm, fd, _ in self.p.fields.get(cls["id"], []):
            if nm == f:
                i = [x for x in kids(fd) if not x["kind"].endswith("Attr") and x["kind"] != "FullComment"]
                if i: return i[0]
                return self.template_init(cls, f)
        raise Unsupported("default member initializer of " + f)
    def template_init(self, cls, f):
        # the initializer was not instantiated: take it from the class template when it does not depend on a parameter
        for nm, n, _ in self.p.specs.get(cls.get("name"), []):
            for nm2, fd, _ in self.p.fields.get(n["id"], []):
                if nm2 == f:
                    i = [x for x in kids(fd) if not x["kind"].endswith("Attr") and x["kind"] != "FullComment"]
                    if i and i[0]["kind"] in ("IntegerLiteral", "FloatingLiteral", "CXXBoolLiteralExpr", "ImplicitCastExpr"): return i[0]
        raise Unsupported("default member initializer of " + f)

    def single_return(self, d):
        """body = straight statements followed by at most one return"""
        body = [c for c in kids(d) if c["kind"] == "CompoundStmt"][0]
        st = kids(body)
        def hasret(x): return x["kind"] == "ReturnStmt" or (x["kind"] != "LambdaExpr" and any(hasret(y) for y in kids(x)))
        if st and st[-1]["kind"] == "ReturnStmt" and not any(hasret(x) for x in st[:-1]):
            return st[:-1], (kids(st[-1])[0] if kids(st[-1]) else None)
        if not any(hasret(x) for x in st): return st, None
        return None

    def inline_multi(self, d, body):
        rt = self.ret_type(d)
        self.k += 1; rv = "ret__%d" % self.k
        if rt.k != "unit": self.emit("let ghost mut %s: %s = %s;" % (rv, rt.v(), self.havoc(rt.v())))
        depth = len(self.loops)
        def hasret(x): return x["kind"] == "ReturnStmt" or (x["kind"] != "LambdaExpr" and any(hasret(y) for y in kids(x)))
        def seq(st):
            """translate st; code after a conditional return goes into the branches that fall through"""
            for j, s in enumerate(st):
                if not hasret(s): self.stmt(s); continue
                if s["kind"] == "ReturnStmt":
                    if kids(s):
                        v = self.ev(kids(s)[0])
                        if isinstance(v, (IterV, KeyIt, PairV, FunV, OutIt)): raise Unsupported("library object returned from an inlined function")
                        self.emit("proof { %s = %s; }" % (rv, self.conv(v, rt).s))
                    return
                if s["kind"] == "CompoundStmt": return seq(kids(s) + st[j + 1:])
                if s["kind"] == "IfStmt":
                    c = kids(s); cv = self.cond(c[0])
                    cp = lambda: None
                    rest = st[j + 1:]
                    sub = lambda x: (kids(x) if x["kind"] == "CompoundStmt" else [x])
                    self.emit("if tst(Ghost(%s)) {" % cv); ln = self.loopn
                    self.scoped(lambda: seq(sub(c[1]) + rest))
                    self.emit("} else {")
                    if rest and self.loopn != ln and hasloop(rest): pass
                    self.scoped(lambda: seq((sub(c[2]) if len(c) > 2 else []) + rest))
                    self.emit("}")
                    return
                raise Unsupported("return inside %s of an inlined function" % s["kind"])
        def hasloop(st): return any(self.has(x, k) for x in st for k in ("WhileStmt", "ForStmt", "CXXForRangeStmt", "DoStmt"))
        seq(kids(body))
        return Val(rv, rt) if rt.k != "unit" else Val("()", TUNIT)

    def ret_type(self, d):
        q = d["type"].get("desugaredQualType") or d["type"]["qualType"]
        r = fn_ret(q)
        try: return self.t.parse(r)
        except Unsupported: pass
        q2 = d["type"]["qualType"]
        try: return self.t.parse(fn_ret(q2))
        except Unsupported: pass
        # auto: take it from a return expression
        def find(x):
            if x["kind"] == "ReturnStmt" and kids(x): return self.tyq(kids(x)[0])
            for y in kids(x):
                r = find(y)
                if r is not None: return r
        r = find(d)
        if r is None: raise Unsupported("return type " + q)
        return r

    def param_inline(self, p, v):
        q = qual(p); i = p["id"]
        if isinstance(v, FunV) and v.kind == "default": raise Unsupported("default argument")
        if isinstance(v, (KeyIt, PairV, FunV, OutIt)) or v.ty.k == "opaque": self.bind(i, v); return
        if isinstance(v, IterV):
            nm = self.decl(p.get("name", "p"), "int", v.s); self.bind(i, IterV(nm, v.cont, LV(nm, TINT))); return
        t = self.tyq(p)
        if q.endswith("&") or self.is_pm(p):
            if v.lv is not None and (t is None or t.k == v.ty.k): self.bind(i, self.freeze(v.lv)); return
        if t is not None and t.k not in ("iter", "opaque"): v = self.conv(v, t)
        nm = self.decl(p.get("name", "p"), v.ty.v(), v.s); self.bind(i, LV(nm, v.ty))

    def is_pm(self, p): return "property_map" in qual(p) and "adjacency_list" not in qual(p).split("<")[0]

    def e_CXXMemberCallExpr(self, n, discard=False):
        c = kids(n); m = unwrap(c[0]); args = [x for x in c[1:] if x["kind"] != "CXXDefaultArgExpr"]
        if m["kind"] != "MemberExpr": raise Unsupported("member call through " + m["kind"])
        nm = m["name"]; oid = m.get("referencedMemberDecl")
        o = self.ev(kids(m)[0]) if kids(m) else self.asval(self.look("this"))
        if o.ty.k == "addr": o = o.ty.of
        if o.ty.k == "opt" and m.get("isArrow"): o = self.optval(o)
        if nm.startswith("operator ") and o.ty.k in ("bool", "int", "opt"): return Val(self.truth(o), TBOOL) if "bool" in nm else o
        if o.ty.k == "struct" and not isinstance(o, (FunV,)):
            r = self.user_call(nm, oid, o.lv if o.lv is not None else self.tmp_lv(o), args, n)
            if r is not None: return r
            raise Unsupported("method %s::%s without body" % (o.ty.name, nm))
        return self.method(o, nm, args, n, discard)

    def tmp_lv(self, v):
        self.k += 1; t = "m__%d" % self.k
        self.emit("let ghost mut %s: %s = %s;" % (t, v.ty.v(), v.s)); return LV(t, v.ty)

    def optval(self, o):
        self.oblige("(%s).is_some()" % o.s, "pointer is not null")
        if o.lv is not None: lv = o.lv.at(("some",), o.ty.e); return Val(lv.get(), o.ty.e, lv)
        return Val("%s->0" % par(o.s), o.ty.e)

    OPS = {"operator" + x: x for x in ("==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "=", "+=", "-=", "*=", "++", "--", "[]", "()", "->", "!", "<<", ">>")}

    def e_CXXOperatorCallExpr(self, n, discard=False):
        c = kids(n); nm, i, f = self.callee(c[0]); args = c[1:]
        op = self.OPS.get(nm)
        if op is None: raise Unsupported("operator " + str(nm))
        d = self.p.by_id.get(i)
        if d is not None and any(x["kind"] == "CompoundStmt" for x in kids(d)) :
            o = self.ev(args[0])
            if isinstance(o, FunV) and o.kind == "lambda": return self.inline(d, self.evs(args[1:]), None, env=o.env)
            if not isinstance(o, (FunV, OutIt, IterV)) and o.ty.k == "struct":
                if d["kind"] == "CXXMethodDecl": return self.user_call(nm, i, o.lv if o.lv is not None else self.tmp_lv(o), args[1:], n)
            if isinstance(o, FunV) and d["kind"] == "CXXMethodDecl": return self.inline(d, self.evs(args[1:]), o)
        if op == "=":
            t = self.tyq(args[0])
            return self.assign(args[0], args[1])
        if op in ("++", "--"):
            v = self.ev(args[0])
            if isinstance(v, OutIt): return v
            return self.incdec(v, op, len(args) > 1, discard, n)
        if op == "*" and len(args) == 1:
            v = self.ev(args[0])
            if isinstance(v, OutIt): return v
            if isinstance(v, IterV): return self.deref(v)
            if isinstance(v, KeyIt): return self.keyderef(v)
            if v.ty.k == "opt": return self.optval(v)
            if v.ty.k == "outseq": return v
            raise Unsupported("operator* on " + v.ty.k)
        if op == "->":
            v = self.ev(args[0])
            if isinstance(v, IterV): return self.deref(v)
            if isinstance(v, KeyIt): return self.keyderef(v)
            if v.ty.k == "opt": return self.optval(v)
            raise Unsupported("operator-> on " + v.ty.k)
        if op == "[]":
            a, b = self.evs(args)
            return self.subscript(a, b)
        if op == "()":
            vs = self.evs(args)
            return self.callv(vs[0], vs[1:], n)
        if op == "!" and len(args) == 1:
            v = self.ev(args[0]); return Val("!%s" % par(self.truth(v)), TBOOL)
        if op in ("+=", "-="):
            x = self.ev(args[0]); y = self.ev(args[1])
            if isinstance(x, IterV): self.set(x.lv, "%s %s %s" % (x.s, op[0], y.s)); return x
        if op in ("<<", ">>"): return self.stream(op, args)
        x, y = self.evs(args)
        if isinstance(x, IterV) and op in ("+", "-") and not isinstance(y, IterV): return IterV("(%s %s %s)" % (x.s, op, y.s), x.cont)
        return self.binop(op, x, y, n)

    def stream(self, op, args):
        # output of text: the written values are not modelled
        o = self.ev(args[0])
        if len(args) > 1:
            try: self.trial(lambda: self.ev(args[1]))
            except Unsupported: pass
        self.dropped.add("stream output"); return o

    def keyderef(self, v):
        self.oblige(v.ok, "dereferenced iterator is not end()")
        c = v.c
        if c.ty.k == "set": return Val(v.key, c.ty.e)
        if c.ty.k == "map":
            r = Val("()", Ty("mapent", mty=c.ty)); r.key = v.key; r.c = c; return r
        raise Unsupported("keyderef")

    def mapval(self, v):
        lv = v.c.at(("k", v.key), v.mty.f); return Val(lv.get(), v.mty.f, lv)

    def key(self, v, t):
        if t.elem.k == "edge":
            if v.ty.k == "edge": return "%s.id" % par(v.s)
        return self.conv(v, t.elem).s

    def subscript(self, a, b):
        if a.ty.k == "seq":
            if getattr(a.ty, "kind", "") == "edge_pm": b = Val(par(b.s) + ".id", TSZ)
            return self.index(a, b, "subscript in range")
        if a.ty.k == "map":
            k = self.key(b, a.ty)
            lv = a.lv.at(("k", k), a.ty.f)
            # operator[] inserts a value-initialised element when the key is absent
            k2 = self.tmp(k)
            self.set(a.lv, "if %s.contains_key(%s) { %s } else { %s.insert(%s, %s) }" % (par(a.s), k2, a.s, par(a.s), k2, self.default(a.ty.f)))
            lv = a.lv.at(("k", k2), a.ty.f)
            return Val(lv.get(), a.ty.f, lv)
        if isinstance(a, FunV) and a.kind == "index_map" or (a.ty.k == "opaque" and getattr(a.ty, "what", "") == "index_map"): return b
        raise Unsupported("operator[] on " + a.ty.k)

    def callv(self, f, vs, n):
        if isinstance(f, FunV) and f.kind == "lambda": return self.inline(f.decl, vs, None, env=f.env)
        if isinstance(f, FunV) and f.kind in ("less", "plus", "greater"): 
            op = {"less": "<", "plus": "+", "greater": ">"}[f.kind]
            if op == "+": return Val("(%s + %s)" % (vs[0].s, vs[1].s), vs[0].ty)
            return self.binop(op, vs[0], vs[1], n)
        raise Unsupported("call of a function object")

    # ---------------------------------------------------------------- container methods
    def method(self, o, nm, args, n, discard):
        if isinstance(o, OutIt): raise Unsupported("method of output iterator")
        if isinstance(o, FunV): return self.fun_method(o, nm, args, n)
        k = o.ty.k
        f = getattr(self, "m_%s_%s" % (k, nm), None)
        if f is None: raise Unsupported("method %s of %s" % (nm, k))
        return f(o, args, n)

    def fun_method(self, o, nm, args, n): raise Unsupported("method %s of %s" % (nm, o.kind))

    def need(self, o):
        if o.lv is None: raise Unsupported("mutation of a temporary")
        return o.lv
    def U(self): return Val("()", TUNIT)
    def arg(self, n, t): return self.conv(self.ev(n, want=t), t).s

    def m_seq_push_back(self, o, a, n): x = self.arg(a[0], o.ty.e); self.set(self.need(o), "%s.push(%s)" % (par(o.lv.get()), x)); return self.U()
    def m_seq_emplace_back(self, o, a, n):
        if len(a) == 1 and o.ty.e.k == "struct":
            v = self.ev(a[0])
            if not isinstance(v, FunV) and getattr(v, "ty", None) is not None and v.ty.k in ("int", "bool", "real"):
                cs = [c for c in self.cs if c.get("ctor") and c.get("decl") and c["thisty"] is o.ty.e and len(c["params"]) == 1 and c["params"][0].get("ty") is not None and c["params"][0]["ty"].k == v.ty.k]
                if len(cs) != 1: raise Unsupported("emplace_back")
                v = self.call_contract(cs[0], None, a, n, [v])
                self.set(self.need(o), "%s.push(%s)" % (par(o.lv.get()), v.s)); return self.U()
            if not isinstance(v, Val) or v.ty is not o.ty.e: raise Unsupported("emplace_back of an object")
            self.set(self.need(o), "%s.push(%s)" % (par(o.lv.get()), self.conv(v, o.ty.e).s)); return self.U()
        if len(a) == 1: return self.m_seq_push_back(o, a, n)
        if o.ty.e.k == "tup":
            vs = self.evs(a); x = "(" + ", ".join(self.conv(v, t).s for v, t in zip(vs, o.ty.e.ts)) + ")"
            self.set(self.need(o), "%s.push(%s)" % (par(o.lv.get()), x)); return self.U()
        raise Unsupported("emplace_back")
    m_seq_push = m_seq_push_back
    def m_seq_push_front(self, o, a, n): x = self.arg(a[0], o.ty.e); self.set(self.need(o), "seq![%s] + %s" % (x, o.lv.get())); return self.U()
    def m_seq_pop_back(self, o, a, n): self.oblige("%s.len() > 0" % par(o.s), "pop_back on a non-empty sequence"); self.set(self.need(o), "%s.drop_last()" % par(o.s)); return self.U()
    def m_seq_pop_front(self, o, a, n): self.oblige("%s.len() > 0" % par(o.s), "pop on a non-empty sequence"); self.set(self.need(o), "%s.drop_first()" % par(o.s)); return self.U()
    def m_seq_pop(self, o, a, n): return (self.m_seq_pop_back if o.ty.kind == "stack" else self.m_seq_pop_front)(o, a, n)
    def m_seq_top(self, o, a, n): return self.m_seq_back(o, a, n)
    def m_seq_front(self, o, a, n): self.oblige("%s.len() > 0" % par(o.s), "front of a non-empty sequence"); return self.index0(o, "0")
    def m_seq_back(self, o, a, n): self.oblige("%s.len() > 0" % par(o.s), "back of a non-empty sequence"); return self.index0(o, "%s.len() - 1" % par(o.s))
    def index0(self, o, i):
        if o.lv is not None: lv = o.lv.at(("i", i), o.ty.e); return Val(lv.get(), o.ty.e, lv)
        return Val("%s[%s]" % (par(o.s), i), o.ty.e)
    def m_seq_size(self, o, a, n): return Val("(%s.len() as int)" % par(o.s), TSZ)
    def m_seq_empty(self, o, a, n): return Val("(%s.len() == 0)" % par(o.s), TBOOL)
    def m_seq_clear(self, o, a, n): self.set(self.need(o), "Seq::<%s>::empty()" % o.ty.e.v()); return self.U()
    def m_seq_reserve(self, o, a, n): self.ev(a[0]); return self.U()
    def m_seq_at(self, o, a, n): b = self.ev(a[0]); return self.index(o, b, "at() index in range (no out_of_range exception)")
    def m_seq_begin(self, o, a, n): return IterV("0int", Cont("live", lv=self.freeze(o.lv)) if o.lv is not None else Cont("snap", s=o.s, e=o.ty.e))
    def m_seq_end(self, o, a, n): return IterV("(%s.len() as int)" % par(o.s), Cont("live", lv=self.freeze(o.lv)) if o.lv is not None else Cont("snap", s=o.s, e=o.ty.e))
    m_seq_cbegin = m_seq_begin
    m_seq_cend = m_seq_end
    def m_seq_resize(self, o, a, n):
        c = self.arg(a[0], TSZ); v = self.arg(a[1], o.ty.e) if len(a) > 1 else self.default(o.ty.e)
        s = o.s
        self.set(self.need(o), "Seq::new(%s as nat, |i_: int| if i_ < %s.len() { %s[i_] } else { %s })" % (par(c), par(s), par(s), v)); return self.U()
    def m_seq_assign(self, o, a, n):
        vs = self.evs(a); self.set(self.need(o), self.fill(o.ty, vs[0], vs[1]).s); return self.U()
    def m_seq_swap(self, o, a, n):
        v = self.ev(a[0]); t = self.tmp("(" + o.s + ")"); self.set(self.need(o), v.s); self.set(self.need(v), t); return self.U()

    def m_set_insert(self, o, a, n):
        if len(a) == 1:
            x = self.key(self.ev(a[0], want=o.ty.elem), o.ty)
            fresh = self.tmp("!%s.contains(%s)" % (par(o.s), x), "bool")
            self.set(self.need(o), "%s.insert(%s)" % (par(o.s), x)); return PairV(FunV("insit"), Val(fresh, TBOOL))
        raise Unsupported("set insert")
    def m_set_erase(self, o, a, n):
        v = self.ev(a[0])
        if isinstance(v, KeyIt):
            self.oblige(v.ok, "erased iterator is not end()"); self.set(self.need(o), "%s.remove(%s)" % (par(o.s), v.key))
            if re.fullmatch(r"\w+_ok", v.ok): self.emit("proof { %s = false; }" % v.ok)    # the iterator is invalid now
            return self.U()
        x = self.key(v, o.ty); r = self.tmp("(if %s.contains(%s) { 1int } else { 0int })" % (par(o.s), x), "int")
        self.set(self.need(o), "%s.remove(%s)" % (par(o.s), x)); return Val(r, TSZ)
    def m_set_find(self, o, a, n): x = self.key(self.ev(a[0]), o.ty); return KeyIt("%s.contains(%s)" % (par(o.s), x), x, o.lv if o.lv is not None else self.tmp_lv(o))
    def m_set_count(self, o, a, n): x = self.key(self.ev(a[0]), o.ty); return Val("(if %s.contains(%s) { 1int } else { 0int })" % (par(o.s), x), TSZ)
    def m_set_end(self, o, a, n):
        if o.ty.kind == "set" and o.ty.elem.k != "edge" and not self.end_as_none(n): return IterV("(set_sorted(%s).len() as int)" % o.s, Cont("snap", s="set_sorted(%s)" % o.s, e=o.ty.e))
        return IterV("0int", None)
    def end_as_none(self, n): return n.get("_cmp_key", False)
    def m_set_begin(self, o, a, n):
        if o.ty.kind == "set" and o.ty.elem.k != "edge": return IterV("0int", Cont("snap", s="set_sorted(%s)" % o.s, e=o.ty.e))
        h = self.havoc(o.ty.e.v())
        self.emit("proof { assume(%s.len() > 0 ==> %s.contains(%s)); }" % (par(o.s), par(o.s), h))
        return KeyIt("(%s.len() > 0)" % par(o.s), h, self.need(o))
    def m_set_size(self, o, a, n): return Val("(%s.len() as int)" % par(o.s), TSZ)
    def m_set_empty(self, o, a, n): return Val("(%s.len() == 0)" % par(o.s), TBOOL)
    def m_set_clear(self, o, a, n): self.set(self.need(o), self.default(o.ty)); return self.U()
    def m_set_reserve(self, o, a, n): self.ev(a[0]); return self.U()

    def m_map_find(self, o, a, n): x = self.key(self.ev(a[0]), o.ty); return KeyIt("%s.contains_key(%s)" % (par(o.s), x), x, o.lv if o.lv is not None else self.tmp_lv(o))
    def m_map_end(self, o, a, n): return IterV("0int", None)
    def m_map_count(self, o, a, n): x = self.key(self.ev(a[0]), o.ty); return Val("(if %s.contains_key(%s) { 1int } else { 0int })" % (par(o.s), x), TSZ)
    def m_map_at(self, o, a, n):
        x = self.key(self.ev(a[0]), o.ty); self.oblige("%s.contains_key(%s)" % (par(o.s), x), "at() finds the key (no out_of_range exception)")
        if o.lv is not None: lv = o.lv.at(("k", x), o.ty.f); return Val(lv.get(), o.ty.f, lv)
        return Val("%s[%s]" % (par(o.s), x), o.ty.f)
    def m_map_clear(self, o, a, n): self.set(self.need(o), self.default(o.ty)); return self.U()
    def m_map_size(self, o, a, n): return Val("(%s.len() as int)" % par(o.s), TSZ)
    def m_map_empty(self, o, a, n): return Val("(%s.len() == 0)" % par(o.s), TBOOL)
    def m_map_insert(self, o, a, n):
        v = self.ev(a[0])
        if v.ty.k != "tup": raise Unsupported("map insert")
        k = self.key(Val("%s.0" % par(v.s), v.ty.ts[0]), o.ty); k = self.tmp(k); x = self.tmp(self.conv(Val("%s.1" % par(v.s), v.ty.ts[1]), o.ty.f).s)
        fresh = self.tmp("!%s.contains_key(%s)" % (par(o.s), k), "bool")
        self.set(self.need(o), "if %s { %s.insert(%s, %s) } else { %s }" % (fresh, par(o.s), k, x, o.s))
        return PairV(FunV("insit"), Val(fresh, TBOOL))
    def m_map_erase(self, o, a, n):
        v = self.ev(a[0]); k = v.key if isinstance(v, KeyIt) else self.key(v, o.ty)
        self.set(self.need(o), "%s.remove(%s)" % (par(o.s), k)); return self.U()
    def m_opt_get(self, o, a, n): return o
    def m_opt_reset(self, o, a, n): self.set(self.need(o), self.default(o.ty)); return self.U()

    # ---------------------------------------------------------------- library functions
    def c_move(self, n, a): return self.ev(a[0])
    c_forward = c_move
    c_ref = c_move
    c_cref = c_move
    def c___assert_fail(self, n, a): self.oblige("false", "assert() holds"); return self.U()
    def c_make_tuple(self, n, a, want=None): vs = self.evs(a); t = Ty("tup", ts=[v.ty for v in vs]); return Val("(" + ", ".join(v.s for v in vs) + ("," if len(vs) == 1 else "") + ")", t) if not any(isinstance(v, (IterV, FunV)) for v in vs) else PairV(*vs)
    def c_make_pair(self, n, a, want=None): return self.c_make_tuple(n, a, want)
    def c_get(self, n, a, want=None):
        if len(a) == 1:
            v = self.ev(a[0])
            i = self.template_int(n)
            if isinstance(v, PairV): return (v.a, v.b)[i]
            return self.proj(v, i)
        return self.pm_get(n, a)
    def template_int(self, n):
        # std::get<I>/boost::get<I>: the index is identified by the callee's declaration in the AST
        f = unwrap(kids(n)[0])
        while f["kind"] != "DeclRefExpr": f = kids(f)[0]
        i = self.p.get_index(f)
        if i is None: raise Unsupported("get<I>")
        return i
    def c_back_inserter(self, n, a): v = self.ev(a[0]); return OutIt(self.need(v), "back", v.ty.e)
    def c_inserter(self, n, a):
        v = self.ev(a[0])
        if v.ty.k == "seq": return OutIt(self.need(v), "back", v.ty.e)
        return OutIt(self.need(v), "ins", v.ty.elem)
    def c_tie(self, n, a):
        vs = [self.ev(x) for x in a]
        if len(vs) == 2: return PairV(vs[0], vs[1]) if not (isinstance(vs[0], FunV) and vs[0].kind == "uninit") else Tie(vs)
        raise Unsupported("tie")
    def c_sqrt(self, n, a): v = self.conv(self.ev(a[0]), TREAL); self.assumed.add("sqrt is correctly rounded enough: floor(sqrt(p)) as computed by the C library satisfies sq(t) <= p < sq(t + 2)"); return Val("csqrt(%s)" % v.s, TREAL)
    def c_ceil(self, n, a): v = self.conv(self.ev(a[0]), TREAL); return Val("rceil(%s)" % v.s, TREAL)
    def c_max(self, n, a):
        if not a: return self.limits(n, "max")
        x, y = self.evs(a); return Val("(if %s < %s { %s } else { %s })" % (x.s, y.s, y.s, x.s), x.ty)
    def c_min(self, n, a):
        if not a: return self.limits(n, "min")
        x, y = self.evs(a); return Val("(if %s < %s { %s } else { %s })" % (y.s, x.s, y.s, x.s), x.ty)
    def limits(self, n, w):
        t = self.ty(n)
        if t.k == "real":
            if w != "max": raise Unsupported("numeric_limits of a floating type")
            return Val("dmax()", t)
        lo, hi = self.rng(t); return Val("%dint" % (hi if w == "max" else lo), t)
    def c_swap(self, n, a):
        x, y = self.ev(a[0]), self.ev(a[1]); t = self.tmp("(" + x.s + ")"); self.set(x.lv, y.s); self.set(y.lv, t); return self.U()
    def c_copy(self, n, a):
        x, y, o = [self.ev(z) for z in a]
        if not isinstance(o, OutIt): raise Unsupported("copy to an iterator")
        if isinstance(x, IterV): self.out_append(o, self.subrange(x, y)); return o
        raise Unsupported("copy")


class Tie(Val):
    def __init__(self, vs): Val.__init__(self, "()", Ty("tie")); self.vs = vs


def strip_ref_const(q):
    q = q.strip()
    if q.endswith("&"): q = q[:-1].strip()
    if q.endswith("&"): return True
    return q.startswith("const ") or q.endswith(" const")


def fn_ret(q):
    d = 0
    for i in range(len(q) - 1, -1, -1):
        pass
    # return type is everything before the parameter list's opening parenthesis
    i = 0; d = 0
    for i, ch in enumerate(q):
        if ch == "<": d += 1
        elif ch == ">": d -= 1
        elif ch == "(" and d == 0:
            return q[:i].strip()
    return q
