"""Deductive half of a check: extracts the functions under contract from /repo's current headers
(ded/gen.py), has Verus discharge every obligation, and probes the contracts for vacuity."""
import os, sys, re, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); DED = os.path.join(os.path.dirname(HERE), "ded")
sys.path.insert(0, DED)
from .claims import CLAIMS

EXTRACTION = ("extraction (every run, from clang's AST of the current headers): C++ objects become ghost values - integers mathematical with the C++ range/overflow/wrap rules as obligations, double an exact real, "
              "containers Seq/Set/Map, iterators positions; dropped: allocation, object identity other than what a contract names, iterator invalidation, exceptions thrown by the library itself (bad_alloc), stream output, termination")


SAFETY = re.compile(r"division by zero|signed overflow|iterator incremented past|iterator is in range|iterator range is valid|subscript in range|pointer is not null|is not end\(\)|non-empty sequence|heap is not empty|existing vertex|handle refers|pushed once|pushed at most once|updated vertex is in the heap|strict weak order|asymmetric|every key changed|update\(\) only follows")


def owned(claim, m, f, what):
    """owned: None (everything), "safety", or a list of (module, regex on the obligation[, regex on the function])"""
    o = claim.get("owned")
    if o is None: return True
    if o == "safety": return bool(SAFETY.search(what)) and "precondition of" not in what
    return any(m == x[0] and re.search(x[1], what) and (len(x) < 3 or re.fullmatch(x[2], f)) for x in o)


class Run:
    def __init__(self, pid, bdir, tier):
        self.pid, self.tier = pid, tier
        self.mods = CLAIMS.get(pid, {}).get("modules", [])
        self.bdir = os.path.join(bdir, "ded"); os.makedirs(self.bdir, exist_ok=True)
        self.res = {}; self.th = threading.Thread(target=self.go); self.th.start()

    def go(self):
        if not self.mods: return
        import gen, importlib
        self.lem = {}
        fs = gen.closure([f for m in self.mods for f in getattr(importlib.import_module("contracts." + m), "PRELUDES", [])] + ["prelude.rs"])
        with ThreadPoolExecutor(4) as ex:
            ls = {f: ex.submit(gen.verus, gen.lemma_unit(f), os.path.join(self.bdir, "lemmas_" + f)) for f in fs}
            for m, r in zip(self.mods, ex.map(self.one, self.mods)): self.res[m] = r
            for f, r in ls.items(): self.lem[f] = r.result()

    def one(self, m):
        try:
            import gen
            bd = os.path.join(self.bdir, m); os.makedirs(bd, exist_ok=True)
            u = gen.Unit(m, bd); t0 = time.time(); text = u.generate(); gt = time.time() - t0
            p2, at = u.probes(text)
            with ThreadPoolExecutor(2) as ex:
                a = ex.submit(gen.verus, text, os.path.join(bd, m + ".rs"))
                b = ex.submit(gen.verus, p2, os.path.join(bd, m + "_probe.rs"), 400)
                r, pr = a.result(), b.result()
            failed, und = gen.classify(u, r)
            und = list(u.undecided) + und
            if r["timeout"]: und.append("%s: verifier time limit" % m)
            ok = not failed and not und and r["js"].get("verification-results", {}).get("success")
            if not failed and not und and not ok: und.append("%s: verifier gave no verdict: %s" % (m, (r.get("raw") or "")[-500:]))
            vac = []
            if not pr["timeout"]:
                hit = {s["line_start"] for d in pr["msgs"] for s in d["spans"]}
                dead = {(f["name"], "loop %d" % k) for f in u.cs for k in (f.get("dead") or ())}
                for l, w in at.items():
                    fn = next((f for f, (x, y) in u.fnlines.items() if x <= l <= y), None)
                    if l not in hit and (fn, w) not in dead and not any(f == fn for f, _, _ in failed): vac.append("%s %s" % (fn, w))
            if vac and not failed and not und: und.append("%s: vacuous contract (the probe `false` is provable): %s" % (m, vac))
            return dict(u=u, failed=failed, und=und, gt=gt, wall=r["wall"], js=r["js"], probes=len(at), vac=vac, text=text)
        except Exception as e:
            return dict(u=None, failed=[], und=["%s: %s" % (m, "".join(traceback.format_exception_only(type(e), e)))], gt=0, wall=0, js={}, probes=0, vac=[], text="")

    def finish(self):
        self.th.join()
        failed, und, fns, obl, dis, asm, names, smt, trusted = [], [], [], 0, 0, [], [], 0.0, []
        cmds = []; nlem = 0
        for f, r in (self.lem.items() if self.mods else ()):
            v = r["js"].get("verification-results", {})
            if v.get("success"): nlem += v.get("verified", 0)
            else: und.append("lemmas of %s not proved: %s" % (f, "; ".join(d["rendered"][:300] for d in r["msgs"][:2]) or (r.get("raw") or "time limit")[-300:]))
        proved = {}
        for m in self.mods:
            u = self.res[m]["u"]
            if u is None or self.res[m]["failed"] or self.res[m]["und"]: continue
            for c in u.cs:
                if c["name"] in u.obcount:
                    for k in {c["name"], u.prog.qname.get(c["decl"]["id"], "?")}: proved.setdefault(k, []).append((m, c))
        def cite(c, q):
            # a contract cited from a module of this run: it must be the same text, or a weaker one
            for m, d in proved.get(c["name"], []) + proved.get(q, []):
                if set(c.get("ensures", ())) <= set(d.get("ensures", ())) and set(d.get("requires", ())) <= set(c.get("requires", ())): return "cited; proved in module %s of this run" % m
            return "assumed (not proved in this run)"
        for m in self.mods:
            r = self.res[m]; und += r["und"]
            for f, what, text in r["failed"]:
                # only obligations that state this property are its violations; the others leave its proof incomplete
                if owned(CLAIMS.get(self.pid, {}), m, f, what): failed.append((f, what, text))
                else: und.append("%s: not discharged (supporting obligation, not by itself a violation of %s): %s" % (f, self.pid, what))
            u = r["u"]
            if u is None: continue
            badf = {f for f, _, _ in r["failed"]} | {x.split(":")[0] for x in r["und"]}
            whole = any(x.split(":")[0] not in u.obcount for x in r["und"])
            for c in u.cs:
                n = u.obcount.get(c["name"], 0)
                if c["decl"] is None: continue
                if c["name"] not in u.obcount: trusted.append("%s/%s (%s): contract %s" % (m, c["name"], u.prog.qname.get(c["decl"]["id"], "?"), cite(c, u.prog.qname.get(c["decl"]["id"], "?")))); continue
                obl += n
                if c["name"] not in badf and not whole: dis += n
                fns.append("%s [%s]" % (u.prog.qname.get(c["decl"]["id"], c["name"]), c["name"]))
            # every assumption, found by scanning the generated text
            L = r["text"].split("\n")
            for i, l in enumerate(L):
                if "/*LEMMA*/" in l: continue
                if "external_body" in l and i + 1 < len(L):
                    j = i + 1
                    while L[j].startswith("#["): j += 1
                    mm = re.search(r"fn (\w+)", L[j])
                    if mm and mm.group(1) not in u.obcount and mm.group(1) not in [c["name"] for c in u.cs]: trusted.append("%s: axiom/stub %s" % (m, mm.group(1)))
                elif l.startswith("proof { assume("): names.append(re.sub(r"h__\d+", "_", l[8:-2])[:160])
                elif "admit()" in l: trusted.append("%s: admit in line %d" % (m, i))
            asm += sorted(u.assumed); asm += ["dropped by the extraction: " + x for x in sorted(u.dropped)]
            t = r["js"].get("times-ms", {}); smt += t.get("smt", {}).get("total", 0) / 1000.0 if isinstance(t.get("smt"), dict) else 0
            cmds.append(u.cmd)
        full = self.mods and not failed and not und
        claim = CLAIMS.get(self.pid, {})
        cov = {}
        if self.mods:
            cov = dict(obligations=obl, discharged=dis, functions_under_contract=fns, backend="Verus (Z3)", solver_time_s=round(smt, 2), verifier_wall_s=round(sum(self.res[m]["wall"] for m in self.mods), 2),
                       extraction_s=round(sum(self.res[m]["gt"] for m in self.mods), 2), lemmas_proved=nlem, vacuity_probes=sum(self.res[m]["probes"] for m in self.mods), undecided_obligations=und,
                       checker_cmd="verus <module>.rs --output-json --time (module text extracted by ded/gen.py from: %s)" % (cmds[0] if cmds else ""), trusted_base=sorted(set(trusted)), values_assumed=sorted(set(names))[:40],
                       not_under_contract=claim.get("outside", ""))
        lvl = claim.get("level", "exploration")
        return dict(failed=failed, undecided=und, coverage=cov, assumptions=([EXTRACTION] if self.mods else []) + sorted(set(asm)) + sorted(set(trusted)), level=lvl if full or lvl != "proof" else "exploration")


def start(pid, bdir, tier): return Run(pid, bdir, tier)
