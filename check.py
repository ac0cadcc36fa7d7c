#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current working tree."""
import json, os, shutil, sys, time, tempfile, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import runtime, jobs as J
VERIF = runtime.VERIF


def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                out.append(l[len("finding: "):])
    except OSError:
        pass
    return out


def write_replay(pid, body):
    d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.txt" % (pid, os.getpid()))
    open(p, "w").write(body); return p


def main():
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--thorough" in sys.argv: tier = "thorough"
    budget = float(os.environ.get("VERIF_BUDGET", "240" if tier == "thorough" else "35"))
    t0 = time.time()
    bdir = os.path.join(VERIF, ".build", "%s-%d" % (pid, os.getpid())); shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir)
    try:
        rc = decide(pid, tier, seed, budget, bdir, t0)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)


def decide(pid, tier, seed, budget, bdir, t0):
    from vlib import deduct
    ded = deduct.start(pid, bdir, tier)          # runs while the harnesses compile
    res = runtime.run_jobs(J.jobs(pid, tier), bdir, seed, budget)
    if pid == "C11":
        from vlib import c11
        r2 = c11.run(bdir, seed, budget)
        for k in ("evaluations", "distinct"): res[k] += r2[k]
        for k in ("samples", "fails", "undecided", "cmds"): res[k] += r2[k]
        res["per_job"].update(r2["per_job"]); res["mpi"] = r2.get("mpi")
    d = ded.finish()
    viol = []
    for f in res["fails"]:
        viol.append(("runtime", "property %s fails on the real code\nharness: %s\nwhat: %s\nRT-INPUT %s\nargs: %s\n\nTo replay: VRT harness /verif/rt with --replay on this file (graph harnesses) or the same --seed.\n\n%s" % (pid, f["job"], f["what"], f["input"], " ".join(map(str, f["args"])), f["stderr"]), f["what"]))
    failed = d["failed"]                          # [(function, obligation text, verifier output)]
    cov = dict(evaluations=res["evaluations"], distinct_nontrivial=res["distinct"], rule=J.RULE.get(pid, J.DEFAULT_RULE), samples=res["samples"], bounded_part=dict(note="bounded stand-in, never counted as proved: it exercises the real code on the inputs described in 'rule'", per_harness=res["per_job"], budget_s=budget, build_cmds=res["cmds"][:3]))
    if res.get("mpi"): cov["mpi"] = res["mpi"]
    level = d["level"]
    cov.update(d["coverage"])
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=d["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(viol) + (1 if failed and not viol else 0))
    if res["undecided"]: cov["undecided_runtime"] = res["undecided"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for k in known_findings(pid): print("KNOWN-FINDING: " + k)
    print("%s: obligations %s/%s discharged, functions under contract: %s; bounded: %d runs (%d distinct non-trivial); %.0f s" % (pid, cov.get("discharged", 0), cov.get("obligations", 0), len(cov.get("functions_under_contract", [])), res["evaluations"], res["distinct"], time.time() - t0))
    for u in d["undecided"]: print("UNDECIDED (deductive): " + u)
    for u in res["undecided"]: print("UNDECIDED (bounded): " + u[:3000])
    if viol:
        body = "\n\n".join(v[1] for v in viol)
        if failed: body += "\n\nFailed proof obligations:\n" + "\n".join("%s: %s\n%s" % x for x in failed)
        p = write_replay(pid, body); print(viol[0][2]); print("VIOLATION property=%s replay=%s" % (pid, p)); return 1
    if failed:
        p = write_replay(pid, "Obligations of property %s that the verifier does not discharge any more:\n\n" % pid + "\n\n".join("%s: %s\n%s" % x for x in failed))
        for x in failed: print("failed obligation: %s: %s" % (x[0], x[1]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p)); return 1
    if res["undecided"] and not res["evaluations"]: return 2
    return 0


if __name__ == "__main__":
    main()
