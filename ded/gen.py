"""from a contract module to a Verus file, and from Verus' answer to verdicts"""
import importlib, json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import cxx2v
from cxx2v import *
from tr import Tr, fn_ret
REPO = os.environ.get("PARMCB_REPO", "/repo")


def clang_ast(inst, bdir, flags=()):
    cfg = os.path.join(bdir, "cfg", "parmcb"); os.makedirs(cfg, exist_ok=True)
    f = os.path.join(cfg, "config.hpp")
    if not os.path.exists(f):
        open(f, "w").write("#define PARMCB_HAVE_BOOST\n#define PARMCB_HAVE_TBB\n#define PARMCB_INVARIANTS_CHECK\n")
    cmd = ["clang++", "-std=c++14", "-I" + os.path.join(bdir, "cfg"), "-I" + os.path.join(REPO, "include"), "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=parmcb"] + list(flags) + [inst]
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    if p.returncode != 0 and not p.stdout.strip(): raise RuntimeError("clang: " + p.stderr[-2000:])
    roots = load_ast(p.stdout); annotate(roots)
    return roots, " ".join(cmd), p.stderr


def const_method(d): return bool(re.search(r"\)\s*const(\s*noexcept)?$", (d["type"].get("qualType") or "").strip()))


try: BASE = json.load(open(os.path.join(HERE, "names.json")))
except OSError: BASE = {}


def rename(c, ren):
    rx = re.compile(r"(?<![.\w])((?:p\d+_(?:all_|old_|perm_)?|X_)?)(%s)\b" % "|".join(map(re.escape, ren)))
    def sub(x):
        if isinstance(x, str): return rx.sub(lambda m: m.group(1) + ren[m.group(2)], x)
        if isinstance(x, list): return [sub(y) for y in x]
        if isinstance(x, dict): return {k: sub(y) for k, y in x.items()}
        return x
    out = {k: sub(c[k]) for k in ("requires", "ensures", "begin", "at_return", "ghost", "loops", "on", "calls", "after", "par") if k in c}
    if "on" in out: out["on"] = {ren.get(k, k): v for k, v in out["on"].items()}
    for q in (out.get("par") or {}).values():
        if "rows" in q: q["rows"] = {ren.get(k, k): v for k, v in q["rows"].items()}
    # parameters are already called by their current names
    return out


# lemma files and what they build on; each is proved by its own run of the verifier
DEPS = {"prelude.rs": [], "graph.rs": ["prelude.rs"], "bfs.rs": ["graph.rs"], "spanner.rs": ["bfs.rs"], "dijkstra.rs": ["graph.rs"], "cspace.rs": ["dijkstra.rs"], "approx.rs": ["spanner.rs", "cspace.rs"], "exact.rs": ["approx.rs"], "mcb.rs": ["cspace.rs"], "signed.rs": ["mcb.rs"], "bidi.rs": ["signed.rs"], "factor.rs": ["exact.rs", "signed.rs"], "lexd.rs": ["dijkstra.rs"], "sptree.rs": ["lexd.rs", "signed.rs"], "cands.rs": ["sptree.rs"], "treemcb.rs": ["cands.rs"], "consist.rs": ["cands.rs"]}
LEMMA = re.compile(r"^((?:#\[verifier::(?:rlimit\(\d+\)|spinoff_prover)\]\s*)*)proof fn (\w+)", re.M)


def stated(f):
    """a lemma file with its proofs left out"""
    s = open(os.path.join(HERE, f)).read()
    return LEMMA.sub(lambda m: m.group(0) if s[:m.start()].rstrip().endswith("#[verifier::external_body]") else "#[verifier::external_body] /*LEMMA*/ " + m.group(0), s)


def closure(fs):
    out = []
    def go(f):
        for d in DEPS[f]: go(d)
        if f not in out: out.append(f)
    for f in fs: go(f)
    return out


def lemma_unit(f):
    deps = closure(DEPS[f])
    return "use vstd::prelude::*;\nverus! {\n" + "\n".join(stated(x) for x in deps) + "\n" + open(os.path.join(HERE, f)).read() + "\nfn main() {}\n}\n"


class Unit:
    """one contract module"""
    def __init__(self, name, bdir):
        self.name, self.bdir = name, bdir
        self.m = importlib.import_module("contracts." + name)
        self.undecided = []; self.lines = []; self.tags = {}; self.funcs = {}; self.assumed = set(); self.dropped = set()
        self.obcount = {}

    def generate(self):
        m = self.m
        roots, self.cmd, err = clang_ast(os.path.join(HERE, m.INST), self.bdir, getattr(m, "FLAGS", ()))
        self.prog = Prog(roots); self.types = Types(self.prog)
        if hasattr(m, "setup"): m.setup(self.prog, self.types)
        cs = [dict(c) for c in m.FUNCS]
        for c in cs:
            c["err"] = None
            try: self.prepare(c)
            except (Unsupported, KeyError, IndexError, TypeError) as e: c["err"] = "%s: %r" % (c["name"], e); c["decl"] = None
        body = []
        trc = getattr(m, "TR", None) or Tr
        for c in cs:
            if c["err"] or c.get("trusted"): continue
            t = trc(self.prog, self.types, cs, c)
            try:
                self.function(c, t)
                base = BASE.get(self.name, {}).get(c["name"])
                if base and base != t.decls and len(base) == len(t.decls):
                    # locals were renamed: the contract follows them positionally
                    ren = {a: b for a, b in zip(base, t.decls) if a != b}
                    n = rename(c, ren); c.update(n); t = trc(self.prog, self.types, cs, c); self.function(c, t)
                c["lines"] = t.lines; c["tr"] = t
            except Unsupported as e: c["err"] = "%s: %s" % (c["name"], e)
            except (KeyError, IndexError, TypeError, AttributeError, RecursionError) as e:
                if os.environ.get("DED_DEBUG"): raise
                c["err"] = "%s: translator: %r" % (c["name"], e)
        self.cs = cs
        # a function that could not be translated keeps its contract as an unproved assumption of its callers
        out = self.out = []
        def add(s, tag=None):
            for q in s.split("\n"): out.append(q); 
            if tag: self.tags[len(out)] = tag
        add("use vstd::prelude::*;\nverus! {")
        # lemma files are proved once, on their own (lemma_unit); here they are only stated
        for f in ["prelude.rs"] + list(getattr(m, "PRELUDES", [])): add(stated(f))
        for t in self.types.structs.values():
            if getattr(t, "used", True) and t.name not in getattr(m, "PROVIDED", ()):
                try: add("pub struct %s { %s }" % (t.name, ", ".join("pub %s: %s" % (f, ft.v()) for f, ft in t.fs if ft.k != "opaque")))
                except Unsupported: pass
        add(getattr(m, "LEMMAS", ""))
        self.fnlines = {}
        for c in cs:
            if c["err"]: self.undecided.append(c["err"])
            if c["decl"] is None: continue
            try: self.header(c, add)
            except (Unsupported, KeyError) as e:
                if c["err"] is None: c["err"] = str(e); self.undecided.append("%s: %s" % (c["name"], e))
        add("fn main() {}\n}")
        return "\n".join(out) + "\n"

    def prepare(self, c):
        r = self.prog.find(c["find"], npar=c.get("npar"), sig=c.get("sig"))
        if c.get("pick"): r = [d for d in r if c["pick"](d)]
        if not r: raise Unsupported("function %s not found" % c["find"])
        if len(r) > 1 and c.get("nth") is None:
            # several instantiations with the same contract: take the first
            r = r[:1]
        d = r[c.get("nth") or 0]
        c["decl"] = d
        meth = d["kind"] in ("CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl")
        c["ctor"] = d["kind"] == "CXXConstructorDecl"
        cls = None
        for par_ in [self.prog.parent.get(d["id"])]: cls = par_
        if d.get("previousDecl"): cls = self.prog.parent.get(d["previousDecl"]) or cls
        static = d.get("storageClass") == "static" or (d.get("previousDecl") and (self.prog.by_id0.get(d["previousDecl"], {}).get("storageClass") == "static"))
        c["this"] = None
        if meth and not static:
            c["thisty"] = self.types.struct(self.prog.qname[cls["id"]], cls)
            c["this"] = "new" if c["ctor"] else "in" if const_method(d) or c.get("pure") else "out"
        ps = []
        for p in [x for x in kids(d) if x["kind"] == "ParmVarDecl"]:
            q = qual(p); nm = safe(p.get("name", "unnamed%d" % len(ps)))
            o = (c.get("params_override") or {}).get(p.get("name"))
            if o: ps.append(dict(name=nm, decl=p, **o)); continue
            if "insert_iterator" in q or "OutputIterator" in q:
                ps.append(dict(name=nm, decl=p, mode="outit", ty=self.outit_elem(q, c))); continue
            ty = self.types.of(p)
            if ty.k in ("opaque",) : ps.append(dict(name=nm, decl=p, mode="drop", ty=ty)); continue
            mode = "out" if (q.endswith("&") and not q.endswith("&&") and not self.constref(q)) else "in"
            ps.append(dict(name=nm, decl=p, mode=mode, ty=ty, byval=not q.endswith("&")))
        c["params"] = ps
        if c["ctor"]: c["ret"] = TUNIT
        else:
            tr = Tr(self.prog, self.types, [], c); c["ret"] = c.get("retty") or tr.ret_type(d)

    def constref(self, q):
        from tr import strip_ref_const
        return strip_ref_const(q)

    def outit_elem(self, q, c):
        m = re.search(r"insert_iterator<(.*)>", q)
        t = self.types.parse(m.group(1)) if m else None
        e = t.elem if t is not None and t.k == "set" else t.e
        return e

    def function(self, c, t):
        d = c["decl"]
        t.env = [{}]
        outs = []
        if c["this"]:
            t.active.add("this_")
            ro = c["this"] == "in"
            if c["this"] == "out": t.emit("let ghost mut this_ = old_this_;")
            if c["this"] == "new": t.emit("let ghost mut this_: %s = %s;" % (c["thisty"].v(), t.uninit_struct(c["thisty"])))
            t.bind("this", LV("this_", c["thisty"], ro=ro))
            if not ro: outs.append((c["thisty"], "this_"))
        if hasattr(self.m, "bind_params"): self.m.bind_params(t, c)
        for p in c["params"]:
            nm = p["name"]
            if p["mode"] == "drop":
                from tr import FunV
                t.bind(p["decl"]["id"], FunV(getattr(p["ty"], "what", "opaque"), t=p["ty"])); continue
            t.active.add(nm); t.decls.append(nm)
            if p["mode"] == "outit":
                from tr import OutIt
                e = p["ty"]; t.emit("let ghost mut %s: Seq<%s> = Seq::<%s>::empty();" % (nm, e.v(), e.v()))
                lv = LV(nm, Ty("seq", e=e, kind="out")); t.bind(p["decl"]["id"], OutIt(lv, "back", e)); outs.append((lv.ty, nm)); continue
            if getattr(p["ty"], "kind", "") == "vpm":
                if p["mode"] == "out": t.emit("let ghost mut %s = old_%s;" % (nm, nm)); outs.append((p["ty"], nm))
                t.bind_vpm(p["decl"]["id"], nm, p["ty"], p["mode"] != "out"); continue
            if p["mode"] == "out":
                t.emit("let ghost mut %s = old_%s;" % (nm, nm)); t.bind(p["decl"]["id"], LV(nm, p["ty"])); outs.append((p["ty"], nm)); continue
            if p.get("byval") and p["ty"].k in ("int", "bool", "real"): t.emit("let ghost mut %s = %s;" % (nm, nm))
            t.bind(p["decl"]["id"], LV(nm, p["ty"], ro=not p.get("byval")))
        c["outs"] = outs
        t.retctx = dict(inline=False, ty=c["ret"], outs=outs); t.outer_ret = t.retctx
        t.lines.append(("/*PROBE entry*/", None))
        if c.get("ghost"): t.emit(c["ghost"])
        if c.get("begin"): t.emit("proof { %s }" % c["begin"].replace("\n", " "), "hint at the beginning")
        if c["ctor"]:
            for x in kids(d):
                if x["kind"] == "CXXCtorInitializer":
                    f = (x.get("anyInit") or {}).get("name"); ft = dict(c["thisty"].fs).get(safe(f)) if f else None
                    if ft is None or ft.k == "opaque" or not kids(x): continue
                    e0 = t.init_expr(kids(x)[0], c["thisty"].decl, f)
                    if e0 is None: continue
                    v = t.ev(e0, want=ft)
                    t.set(LV("this_", c["thisty"]).at(("f", safe(f), c["thisty"].name), ft), t.conv(v, ft).s)
        bd = [x for x in kids(d) if x["kind"] == "CompoundStmt"][0]
        for s in kids(bd): t.stmt(s)
        if c["ret"].k == "unit": t.ret("()", "false")
        elif not (kids(bd) and kids(bd)[-1]["kind"] == "ReturnStmt"):
            t.oblige("false", "the end of the function is not reached without a return value")
            t.ret(t.havoc(c["ret"].v()), "false")
        want = set(c.get("loops") or {})
        if c.get("nloops") is not None and t.loopn != c["nloops"]: raise Unsupported("contract does not attach: %d loops, the contract describes %d" % (t.loopn, c["nloops"]))
        self.assumed |= t.assumed; self.dropped |= t.dropped

    def header(self, c, add):
        ps = []; req = []
        outs = [(("outs", o)) for o in []]
        rt = [c["ret"].v()]; names = ["r"]
        for nm, ty in c.get("gparams") or (): ps.append("Ghost(%s): Ghost<%s>" % (nm, ty))
        if c["this"] == "in": ps.append("Ghost(this_): Ghost<%s>" % c["thisty"].v())
        if c["this"] == "out": ps.append("Ghost(old_this_): Ghost<%s>" % c["thisty"].v())
        if c["this"] in ("out", "new"): rt.append(c["thisty"].v()); names.append("this_")
        for p in c["params"]:
            if p["mode"] == "drop": continue
            if p["mode"] == "outit": rt.append("Seq<%s>" % p["ty"].v()); names.append(p["name"]); continue
            nm = ("old_" if p["mode"] == "out" else "") + p["name"]
            ps.append("Ghost(%s): Ghost<%s>" % (nm, p["ty"].v()))
            if p["ty"].k == "int":
                lo, hi = (-(1 << (p["ty"].bits - 1)), (1 << (p["ty"].bits - 1)) - 1) if p["ty"].sg else (0, (1 << p["ty"].bits) - 1)
                req.append("%d <= %s <= %d" % (lo, nm, hi))
            if p["mode"] == "out": rt.append(p["ty"].v()); names.append(p["name"])
        if c.get("throws"): rt.append("bool"); names.append("exc")
        ens = list(c.get("ensures", []))
        if c["ret"].k == "int" and c.get("lines"):
            t = c["ret"]; lo, hi = (-(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1) if t.sg else (0, (1 << t.bits) - 1)
            if c.get("retrange"): ens.append("%d <= r <= %d" % (lo, hi))
        tup = "(" + ", ".join(rt) + ("," if len(rt) == 1 else "") + ")"
        translated = c["err"] is None and not c.get("trusted")
        start = len(self.out)
        if not translated: add("#[verifier::external_body]")
        add("#[verifier::loop_isolation(false)]\n#[verifier::exec_allows_no_decreases_clause]\n#[verifier::rlimit(%d)]" % c.get("rlimit", 40))
        add("fn %s(%s) -> (res__: Ghost<%s>)" % (c["name"], ", ".join(ps), tup))
        allreq = req + list(c.get("requires", []))
        if allreq:
            add("  requires")
            for x in allreq: add("    " + x.replace("\n", " ") + ",", (c["name"], "req", x))
        if ens:
            add("  ensures")
            lets = " ".join("let %s = res__@.%d;" % (n, i) for i, n in enumerate(names))
            for x in ens: add("    ({ %s %s })," % (lets, x.replace("\n", " ")), (c["name"], "ensures", x))
        if not translated: add("{ unimplemented!() }"); return
        add("{")
        n = 0
        for q, ob in c["lines"]:
            add(q, (c["name"], "ob", ob) if ob else None)
            if ob: n += 1
        add("}")
        rets = sum(1 for q, ob in c["lines"] if q.startswith("return Ghost"))
        n += rets * max(0, len(ens) - 1) + sum(1 for q, ob in c["lines"] if ob and "invariant" in ob)
        self.obcount[c["name"]] = n
        self.fnlines[c["name"]] = (start + 1, len(self.out))

    def probes(self, text):
        k = [0]; names = []
        L = text.split("\n"); out = []; at = {}
        for i, l in enumerate(L):
            m = re.fullmatch(r"/\*PROBE (.*)\*/", l.strip())
            if m:
                k[0] += 1; out.append("proof { assert(probe(%d)); }" % k[0]); at[i + 1] = m.group(1)
            else: out.append(l)
        for i, l in enumerate(out):
            if l.startswith("fn main()"): out[i] = "uninterp spec fn probe(k: int) -> bool; fn main() {}"
        return "\n".join(out), at


def verus(text, path, multi=100, extra=(), timeout=600):
    open(path, "w").write(text)
    t0 = time.time()
    p = subprocess.Popen(["verus", path, "--output-json", "--time", "--multiple-errors", str(multi), "--num-threads", "4"] + list(extra) + ["--", "--error-format=json"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try: o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired: p.kill(); o, e = p.communicate(); return dict(timeout=True, msgs=[], js={}, wall=time.time() - t0)
    msgs = []
    for l in (e + "\n" + o).split("\n"):
        if l.startswith('{"$message_type"'):
            d = json.loads(l)
            if d["level"] in ("error",): msgs.append(d)
    try: js = json.loads(o[o.index("{\n"):])
    except (ValueError, IndexError): js = {}
    return dict(msgs=msgs, js=js, wall=time.time() - t0, timeout=False, raw=e)


DEFINITE = ("assertion failed", "postcondition not satisfied", "precondition not satisfied", "invariant not satisfied at end of loop body", "invariant not satisfied before loop", "loop invariant not satisfied", "unable to prove assertion")


def classify(u, res):
    """-> (failed [(fn, what, text)], undecided [text], bad)"""
    failed, und = [], []
    def fn_at(l):
        for f, (a, b) in u.fnlines.items():
            if a <= l <= b: return f
        return None
    for d in res["msgs"]:
        msg = d["message"]
        if msg.startswith("aborting due to"): continue
        sp = d["spans"]; lines = [s["line_start"] for s in sp]
        f = next((fn_at(l) for l in lines if fn_at(l)), None)
        if msg.startswith(DEFINITE):
            tag = next((u.tags[l] for s in sorted(sp, key=lambda s: not s["is_primary"]) for l in [s["line_start"]] if l in u.tags), None)
            if "precondition" in msg:
                tag = next((u.tags[s["line_start"]] for s in sp if s["line_start"] in u.tags and u.tags[s["line_start"]][1] == "ob"), tag)
                r = next((u.tags[s["line_start"]] for s in sp if s["line_start"] in u.tags and u.tags[s["line_start"]][1] == "req"), None)
                what = "%s%s" % (tag[2] if tag else msg, (": " + r[2]) if r else "")
            else: what = "%s: %s" % (msg, tag[2] if tag else "")
            if f is None: und.append("lemma or helper: " + d["rendered"][:600])
            else: failed.append((f, what, d["rendered"]))
        else:
            und.append("%s: %s" % (f or u.name, d["rendered"][:800]))
    return failed, und


if __name__ == "__main__" and sys.argv[1] == "--lemmas":
    for f in sys.argv[2:] or list(DEPS):
        r = verus(lemma_unit(f), "/tmp/w/L_%s" % f, 50)
        for d in r["msgs"]:
            if not d["message"].startswith("aborting"): print(d["rendered"][:700])
        print(f, {k: v for k, v in r["js"].get("verification-results", {}).items() if k in ("success", "verified", "errors")}, "%.1fs" % r["wall"])
elif __name__ == "__main__" and sys.argv[1] == "--names":
    import tempfile, glob, shutil
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "contracts", "*.py"))):
        n = os.path.basename(f)[:-3]
        if n.startswith("_"): continue
        bd = tempfile.mkdtemp(); BASE = {}; u = Unit(n, bd); u.generate(); shutil.rmtree(bd)
        out[n] = {c["name"]: c["tr"].decls for c in u.cs if c.get("tr") and not c["err"]}
    json.dump(out, open(os.path.join(HERE, "names.json"), "w"), indent=0, sort_keys=True)
elif __name__ == "__main__":
    import tempfile
    bd = tempfile.mkdtemp(); name = sys.argv[1]
    u = Unit(name, bd)
    t0 = time.time(); text = u.generate(); print("generated %.1fs" % (time.time() - t0))
    path = "/tmp/w/%s.rs" % name
    for x in u.undecided: print("UNDECIDED", x)
    r = verus(text, path, extra=sys.argv[2:])
    f, un = classify(u, r)
    for x in f: print("FAILED", x[0], "|", x[1]); print(x[2] if len(f) < 6 else "")
    for x in un[:4]: print("UND", x)
    print({k: v for k, v in r["js"].get("verification-results", {}).items()}, "%.1fs" % r["wall"], "obligations", u.obcount)
    if "--probe" in sys.argv or not f and not un:
        t2, at = u.probes(text); r2 = verus(t2, "/tmp/w/%s_p.rs" % name)
        hit = {s["line_start"] for d in r2["msgs"] for s in d["spans"]}
        miss = [(l, at[l]) for l in at if l not in hit]
        print("probes", len(at), "vacuous:", miss, "%.1fs" % r2["wall"])
    import shutil; shutil.rmtree(bd)
