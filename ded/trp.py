"""tasks: tbb::parallel_for / tbb::parallel_reduce by the contract of the algorithm, for every schedule.
A call is replaced by (1) obligations about one task on an arbitrary piece of the range, (2) for reductions the
join of two arbitrary neighbouring partial results, (3) what holds of the whole range when (1) and (2) do.
A task may write only its own rows of a declared container (or push to a declared concurrent container) and may
read shared objects only where no other task writes: everything else is the obligation "no data race"."""
from trg import *


class TrP(TrG):
    def __init__(self, *a):
        TrG.__init__(self, *a); self.task = None; self.parn = 0

    # ------------------------------------------------------------ ranges
    def e_CXXConstructExpr(self, n, want=None):
        if re.match(r"(oneapi::)?(tbb::)?(detail::\w+::)?blocked_range<", strip_cv(qual(n))): return self.mk_range(n)
        if re.search(r"concurrent_vector<.*>::(generic_range_type<.*>|const_range_type|range_type)$", strip_cv(qual(n))): return self.mk_crange(n)
        return TrG.e_CXXConstructExpr(self, n, want)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def mk_range(self, n):
        c = [x for x in kids(n) if x["kind"] != "CXXDefaultArgExpr"]
        if len(c) == 1: return self.ev(c[0])
        if len(c) not in (2, 3): raise Unsupported("blocked_range")
        a, b = self.evs(c[:2])
        if a.ty.k != "int" or b.ty.k != "int": raise Unsupported("blocked_range over " + a.ty.k)
        a, b = self.conv(a, TSZ), self.conv(b, TSZ)
        return FunV("range", lo=self.tmp(a.s, "int", "lo"), hi=self.tmp(b.s, "int", "hi"))
    def mk_crange(self, n):
        c = [x for x in kids(n) if x["kind"] != "CXXDefaultArgExpr"]
        if len(c) == 1: return self.ev(c[0])
        if len(c) not in (2, 3): raise Unsupported("range of a container")
        a, b = self.evs(c[:2])
        if not (isinstance(a, IterV) and isinstance(b, IterV) and a.cont is not None): raise Unsupported("range of a container")
        self.oblige("0 <= %s && %s <= %s" % (a.s, b.s, a.cont.len()), "range over a container is valid")
        return FunV("range", lo=self.tmp(a.s, "int", "lo"), hi=self.tmp(b.s, "int", "hi"), cont=a.cont)
    def h_range_begin(self, o, a, n): return IterV(o.lo, o.cont) if hasattr(o, "cont") else Val(o.lo, TSZ)
    def h_range_end(self, o, a, n): return IterV(o.hi, o.cont) if hasattr(o, "cont") else Val(o.hi, TSZ)
    def c_accumulate(self, n, a):
        if len(a) != 3: raise Unsupported("accumulate with an operation")
        x, y, v = self.evs(a)
        if not (isinstance(x, IterV) and isinstance(y, IterV)) or x.cont is None: raise Unsupported("accumulate over " + x.ty.k)
        self.oblige("0 <= %s <= %s <= %s" % (x.s, y.s, x.cont.len()), "iterator range is valid")
        if v.ty.k != "real": return Val(self.havoc(v.ty.v()), v.ty)
        return Val("(%s + (sumr(%s, %s) - sumr(%s, %s)))" % (v.s, x.cont.seq(), y.s, x.cont.seq(), x.s), TREAL)
    def h_range_size(self, o, a, n): return Val("(%s - %s)" % (o.hi, o.lo), TSZ)
    def h_range_empty(self, o, a, n): return Val("!(%s < %s)" % (o.lo, o.hi), TBOOL)

    # ------------------------------------------------------------ what a task may touch
    # rows: containers (variables, or members of one) each task owns a piece of; keyed by the path to the container
    def rowkey(self, lv):
        """the declared container that lv is an element of or inside of: (key, index), (key, None) for the container or an object around it"""
        for k, q in self.task["rows"].items():
            c = q[4]
            if lv is None or lv.root != c.root: continue
            n = len(c.steps)
            if tuple(lv.steps[:n]) == tuple(c.steps):
                if len(lv.steps) > n: return k, (lv.steps[n][1] if lv.steps[n][0] == "i" else None)
                return k, None
            if tuple(c.steps[:len(lv.steps)]) == tuple(lv.steps): return k, None
        return None, None
    def set(self, lv, val):
        t = self.task
        if t and lv.root in t["shared"]:
            r, i = self.rowkey(lv)
            if r and i is not None: self.oblige("%s <= %s < %s" % (t["rows"][r][0], i, t["rows"][r][1]), "no data race: the task writes only its own rows of " + r)
            else: self.oblige("false", "no data race: a task writes the shared object " + lv.root)
        return TrG.set(self, lv, val)
    def index(self, a, b, why):
        t = self.task
        if t and a.lv is not None:
            k, i = self.rowkey(a.lv)
            if k is not None and i is None and tuple(a.lv.steps) == tuple(t["rows"][k][4].steps):
                r = t["rows"][k]
                self.oblige("(%s <= %s < %s) || !(%s <= %s < %s)" % (r[0], b.s, r[1], r[2], b.s, r[3]), "no data race: the task reads rows of %s that no other task writes" % k)
        return TrG.index(self, a, b, why)
    def whole_rows(self, lv):
        if not self.task or lv is None: return False
        k, i = self.rowkey(lv); return k is not None and i is None
    def enumerate(self, v):
        if self.whole_rows(v.lv): raise Unsupported("a task traverses a container that tasks write")
        return TrG.enumerate(self, v)
    def m_seq_begin(self, o, a, n):
        if self.whole_rows(o.lv): raise Unsupported("a task traverses a container that tasks write")
        return TrG.m_seq_begin(self, o, a, n)
    def argval(self, v, ty):
        if self.whole_rows(getattr(v, "lv", None)): raise Unsupported("a task passes on a container that tasks write")
        return TrG.argval(self, v, ty)
    def call_contract(self, ct, this, args, n, vals=None):
        if self.task and ct["this"] and ct["this"] != "new":
            o = this if this is not None else self.look("this")
            if self.whole_rows(o if isinstance(o, LV) else getattr(o, "lv", None)): raise Unsupported("a task calls a method of an object with a container that tasks write")
        return TrG.call_contract(self, ct, this, args, n, vals)
    def m_seq_push_back(self, o, a, n):
        t = self.task
        if t and o.lv is not None and o.lv.root in t["shared"] and o.ty.kind == "concurrent_vector":
            if o.lv.root not in t["push"] or o.lv.steps: raise Unsupported("concurrent push_back on a container the contract does not mention")
            x = self.arg(a[0], o.ty.e); g = t["push"][o.lv.root]
            self.emit("proof { %s = %s.push(%s); }" % (g, g, x)); return self.U()
        return TrG.m_seq_push_back(self, o, a, n)

    # ------------------------------------------------------------ the algorithms
    def nextpar(self, kind):
        k = self.parn; self.parn += 1
        s = (self.cfg.get("par") or {}).get(k)
        if self.task: raise Unsupported("nested parallel algorithm")
        if s is None or ("R" in s) != (kind == "reduce"): raise Unsupported("contract does not attach: parallel algorithm %d" % k)
        return k, s
    def piece(self, names, conds, f):
        """obligations about arbitrary values of `names`; nothing of this path survives"""
        self.k += 1; g = "any__%d" % self.k
        self.emit("let %s = havoc::<bool>();" % g); self.emit("if tst(Ghost(%s@)) {" % g)
        self.env.append({}); act = set(self.active)
        for x, ty in names: self.active.add(x); self.emit("let ghost %s: %s = %s;" % (x, ty, self.havoc(ty)))
        for c in conds: self.emit("proof { assume(%s); }" % c)
        self.lines.append(("/*PROBE piece of parallel algorithm*/", None))
        f()
        self.emit("proof { assume(false); }"); self.env.pop(); self.active = act; self.emit("}")
    def sub_range(self, rg, lo, hi): return FunV("range", lo=lo, hi=hi, cont=rg.cont) if hasattr(rg, "cont") else FunV("range", lo=lo, hi=hi)
    def hint(self, s, why):
        if s: self.emit("proof { %s }" % s.replace("\n", " "), why)
    def need_lambda(self, v):
        if not (isinstance(v, FunV) and v.kind == "lambda" and v.decl is not None): raise Unsupported("parallel algorithm with a body that is not a lambda")
        return v
    def run_lambda(self, f, vals):
        if f.kind != "lambda": return self.callv(f, vals, None)
        depth = len(self.loops); saved, self.loops = self.loops, []
        try: return self.inline(f.decl, vals, None, env=f.env)
        finally: self.loops = saved

    def c_parallel_reduce(self, n, a):
        k, sp = self.nextpar("reduce")
        rg = self.ev(a[0]); body = self.need_lambda(self.ev(a[2])); join = self.ev(a[3])
        if not (isinstance(rg, FunV) and rg.kind == "range"): raise Unsupported("parallel_reduce range")
        ps = [x for x in kids(body.decl) if x["kind"] == "ParmVarDecl"]
        vt = self.ty(ps[1]); idv = self.ev(a[1], want=vt); idv = Val(self.tmp(self.conv(idv, vt).s, vt.v(), "id"), vt)
        sub = lambda lo, hi, v: re.sub(r"\b(LO_|HI_|V_)(?=\W|$)", lambda m: {"LO_": lo, "HI_": hi, "V_": v}[m.group(1)], sp["R"])
        fix = lambda h, **kw: re.sub(r"\b(%s)(?=\W|$)" % "|".join(kw), lambda m: kw[m.group(1)], h) if h else h
        A, B = rg.lo, rg.hi; p = "p%d_" % k
        lo, mi, hi, v0, x, y = [p + q for q in ("lo", "mid", "hi", "v0", "x", "y")]
        self.oblige("%s <= %s" % (A, B), "range of the parallel reduction is not reversed")
        shared = set(self.active)
        def ident():
            self.hint(fix(sp.get("id"), LO_=lo, V_=idv.s), "hint on the identity of parallel algorithm %d" % k)
            self.oblige(sub(lo, lo, idv.s), "parallel reduction %d: the identity is right for an empty piece: %s" % (k, sp["R"]))
        self.piece([(lo, "int")], ["%s <= %s <= %s" % (A, lo, B)], ident)
        def task():
            self.task = dict(shared=shared | {lo, mi, hi, v0}, rows={}, push={})
            r = self.run_lambda(body, [self.sub_range(rg, mi, hi), Val(v0, vt)])
            self.task = None
            r = self.tmp(self.conv(r, vt).s, vt.v(), "part")
            self.hint(fix(sp.get("body_end"), LO_=lo, MID_=mi, HI_=hi, V0_=v0, V_=r), "hint on the task of parallel algorithm %d" % k)
            self.oblige(sub(lo, hi, r), "parallel reduction %d: a task extends its partial result: %s" % (k, sp["R"]))
        self.piece([(lo, "int"), (mi, "int"), (hi, "int"), (v0, vt.v())], ["%s <= %s <= %s <= %s <= %s" % (A, lo, mi, hi, B), sub(lo, mi, v0)], task)
        def joined():
            self.task = dict(shared=shared | {lo, mi, hi, x, y}, rows={}, push={})
            r = self.run_lambda(join, [Val(x, vt), Val(y, vt)])
            self.task = None
            r = self.tmp(self.conv(r, vt).s, vt.v(), "both")
            self.hint(fix(sp.get("join"), LO_=lo, MID_=mi, HI_=hi, X_=x, Y_=y, V_=r), "hint on the join of parallel algorithm %d" % k)
            self.oblige(sub(lo, hi, r), "parallel reduction %d: joining two neighbouring partial results: %s" % (k, sp["R"]))
        self.piece([(lo, "int"), (mi, "int"), (hi, "int"), (x, vt.v()), (y, vt.v())], ["%s <= %s <= %s <= %s <= %s" % (A, lo, mi, hi, B), sub(lo, mi, x), sub(mi, hi, y)], joined)
        res = self.decl("par_%d" % k, vt.v(), self.havoc(vt.v()))
        self.emit("proof { assume(%s); }" % sub(A, B, res))
        self.assumed.add("tbb::parallel_reduce: the result is built from the identity by the body on consecutive pieces and by the join of neighbouring results")
        self.hint(fix(sp.get("after"), V_=res), "hint after parallel algorithm %d" % k)
        return Val(res, vt, LV(res, vt))

    def c_parallel_for(self, n, a):
        k, sp = self.nextpar("for")
        rg = self.ev(a[0]); body = self.need_lambda(self.ev(a[1]))
        if not (isinstance(rg, FunV) and rg.kind == "range"): raise Unsupported("parallel_for range")
        A, B = rg.lo, rg.hi; p = "p%d_" % k; lo, hi = p + "lo", p + "hi"
        self.oblige("%s <= %s" % (A, B), "range of the parallel loop is not reversed")
        shared = set(self.active); rows = sp.get("rows") or {}; push = list(sp.get("push") or ()); each = sp.get("each")
        rel = lambda at, i: re.sub(r"\b(I_|X_(\w+))(?=\W|$)", lambda m: at(m.group(2)) if m.group(2) else i, each)
        tys = {}
        for e in self.env:
            for b in e.values():
                if isinstance(b, LV) and not b.steps and b.root in shared: tys[b.root] = b.ty
        lvs = {}
        for r in list(rows) + push:
            x, *fs = r.split(".")
            if x not in shared or x not in tys or (fs and r in push): raise Unsupported("contract does not attach: " + r)
            lv = LV(x, tys[x])
            for f in fs:
                if lv.ty.k != "struct" or f not in dict(lv.ty.fs): raise Unsupported("contract does not attach: " + r)
                lv = lv.at(("f", f, lv.ty.name), dict(lv.ty.fs)[f])
            lvs[r] = lv
        nme = lambda r: p + r.replace(".", "_")
        fix = lambda h, **kw: re.sub(r"\b(%s)(?=\W|$)" % "|".join(kw), lambda m: kw[m.group(1)], h) if h else h
        def task():
            self.task = dict(shared=shared | {lo, hi}, rows={r: (lo, hi, A, B, lvs[r]) for r in rows}, push={r: p + r for r in push})
            for r in rows:
                h = self.havoc(lvs[r].ty.v()); self.emit("proof { assume(%s.len() == %s.len() && forall|i: int| 0 <= i < %s.len() && ((%s <= i < %s) || !(%s <= i < %s)) ==> #[trigger] %s[i] == %s[i]); %s = %s; }" % (h, r, r, lo, hi, A, B, h, r, lvs[r].root, lvs[r].upd(h)))
                self.emit("let ghost %s = %s;" % (nme(r), r))
            for r in push: self.emit("let ghost mut %s%s: %s = Seq::empty();" % (p, r, tys[r].v()))
            self.hint(fix(sp.get("begin"), LO_=lo, HI_=hi), "hint in the task of parallel algorithm %d" % k)
            self.run_lambda(body, [self.sub_range(rg, lo, hi)])
            self.task = None
            self.hint(fix(sp.get("body_end"), LO_=lo, HI_=hi), "hint on the task of parallel algorithm %d" % k)
            for r, q in rows.items(): self.oblige("forall|i: int| %s <= i < %s ==> (%s)" % (lo, hi, fix(q, I_="i", OLD_=nme(r) + "[i]", NEW_="#[trigger] %s[i]" % r)), "parallel loop %d: what a task does to its rows of %s: %s" % (k, r, q))
            for r in push: self.oblige("%s%s.len() == %s - %s" % (p, r, hi, lo), "parallel loop %d: a task appends one element to %s per index" % (k, r))
            if push: self.oblige("forall|i: int| 0 <= i < %s - %s ==> (%s)" % (hi, lo, rel(lambda r: "%s%s[i]" % (p, r), "(%s + i)" % lo)), "parallel loop %d: what a task appends: %s" % (k, each))
        self.piece([(lo, "int"), (hi, "int")], ["%s <= %s <= %s <= %s" % (A, lo, hi, B)], task)
        for r, q in rows.items():
            h = self.havoc(lvs[r].ty.v()); o = "%sold_%s" % (p, r.replace(".", "_")); self.emit("let ghost %s = %s;" % (o, r))
            self.emit("proof { assume(%s.len() == %s.len() && forall|i: int| 0 <= i < %s.len() && !(%s <= i < %s) ==> #[trigger] %s[i] == %s[i]); %s = %s; }" % (h, r, r, A, B, h, r, lvs[r].root, lvs[r].upd(h)))
            self.emit("proof { assume(forall|i: int| %s <= i < %s ==> (%s)); }" % (A, B, fix(q, I_="i", OLD_=o + "[i]", NEW_="#[trigger] %s[i]" % r)))
        if push:
            # concurrent appends: every element once, in some order; an order for each container
            al = {r: "%sall_%s" % (p, r) for r in push}
            for r in push: self.emit("let ghost %s = %s;" % (al[r], self.havoc(tys[r].v())))
            self.emit("proof { assume(%s); assume(forall|i: int| 0 <= i < %s - %s ==> (%s)); }" % (" && ".join("%s.len() == %s - %s" % (al[r], B, A) for r in push), B, A, rel(lambda r: "%s[i]" % al[r], "(%s + i)" % A)))
            for r in push:
                o = "%sold_%s" % (p, r); h = self.havoc(tys[r].v()); pm = "%sperm_%s" % (p, r)
                self.emit("let ghost %s = %s;" % (o, r)); self.emit("let ghost %s = %s;" % (pm, self.havoc("Seq<int>")))
                self.emit("proof { assume(enumerates(%s, Set::range(0, %s - %s)) && %s.len() == %s - %s); %s = %s + Seq::new(%s.len(), |i: int| %s[%s[i]]); }" % (pm, B, A, pm, B, A, r, o, pm, al[r], pm))
        self.assumed.add("tbb::parallel_for: every piece of a partition of the range is run once; concurrent_vector::push_back appends each element once, in some order")
        self.hint(fix(sp.get("after"), A_=A, B_=B), "hint after parallel algorithm %d" % k)
        return self.U()
