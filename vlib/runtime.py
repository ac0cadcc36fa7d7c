"""Runtime half: builds the harnesses of /verif/rt against /repo's current headers and runs them.
Used (a) to replay / search a concrete input when an obligation fails, (b) as the *bounded*
stand-in for functions outside the verifier's reach.  Never counted as proof."""
import os, re, subprocess, time, struct, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PARMCB_REPO", "/repo")
RT = os.path.join(VERIF, "rt")
NPROC = max(2, min(8, os.cpu_count() or 2))
SAN = ["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-DVRT_NOFAIL", "-fno-omit-frame-pointer"]
FAKE = ["-I" + RT + "/faketbb"]
FMPI = ["-I" + RT + "/fakempi"]
SHUF = ["-DVRT_SHUFFLE_NEW"]


def config(bdir, invariants=True, tbb=True, mpi=True):
    """our own configured config.hpp, from /repo's template"""
    d = os.path.join(bdir, "cfg" + ("" if invariants else "n") + ("" if tbb else "s"), "parmcb")
    os.makedirs(d, exist_ok=True)
    t = open(os.path.join(REPO, "include/parmcb/config.hpp.in")).read()
    def sub(m):
        n = m.group(1)
        on = {"PARMCB_HAVE_BOOST": True, "PARMCB_HAVE_TBB": tbb, "PARMCB_HAVE_MPI": mpi, "PARMCB_INVARIANTS_CHECK": invariants}.get(n, False)
        return "#define " + n if on else "/* #undef %s */" % n
    t = re.sub(r"#cmakedefine\s+(\w+)", sub, t)
    open(os.path.join(d, "config.hpp"), "w").write(t)
    return os.path.dirname(d)


class Job:
    """one harness binary; alternatives are tried in order when a build fails"""
    def __init__(self, name, src, flags, libs, args, procs=None, env=None, cxx="g++", exh_first=True, alt=None, weight=1, timeout=None, wrap=None):
        self.name, self.src, self.flags, self.libs, self.args = name, src, flags, libs, args
        self.procs, self.env, self.cxx, self.exh_first, self.alt = procs, env or {}, cxx, exh_first, alt
        self.weight, self.timeout, self.wrap = weight, timeout, wrap


def build(job, bdir):
    cfg = config(bdir)
    exe = os.path.join(bdir, job.name)
    logs = []
    for fl, lb in [(job.flags, job.libs)] + ([job.alt] if job.alt else []):
        cmd = [job.cxx, "-std=c++14", "-w"] + (["-O1"] if not any(f.startswith("-O") for f in fl) else []) + fl + ["-I" + REPO + "/include", "-I" + cfg, os.path.join(RT, job.src), "-o", exe] + lb + ["-pthread"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return exe, " ".join(cmd), None
        logs.append("$ " + " ".join(cmd) + "\n" + p.stdout[:6000])
    return None, "", "\n".join(logs)


def run_one(exe, args, env, timeout, wrap):
    e = dict(os.environ); e.update(env)
    e.setdefault("ASAN_OPTIONS", "detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=1")
    e.setdefault("UBSAN_OPTIONS", "print_stacktrace=1")
    e.setdefault("TSAN_OPTIONS", "exitcode=66:halt_on_error=1:history_size=4")
    t0 = time.time()
    p = subprocess.Popen((wrap or []) + [exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); out, err = p.communicate(); to = True
    return dict(rc=p.returncode, out=out.decode("utf8", "replace"), err=err.decode("utf8", "replace"), timeout=to, wall=time.time() - t0)


def run_jobs(jobs, bdir, seed, budget):
    """returns dict(evaluations, distinct, samples, fails=[...], undecided=[...], cmds=[...])"""
    res = dict(evaluations=0, distinct=0, samples=[], fails=[], undecided=[], cmds=[], per_job={})
    with ThreadPoolExecutor(NPROC) as ex:
        built = list(ex.map(lambda j: build(j, bdir), jobs))
    runs = []
    total_w = sum(j.weight for j in jobs)
    for j, (exe, cmd, log) in zip(jobs, built):
        if exe is None:
            res["undecided"].append("harness %s does not compile against the current tree:\n%s" % (j.name, log)); continue
        res["cmds"].append(cmd)
        n = j.procs or max(1, round(NPROC * j.weight / total_w))
        for i in range(n):
            a = ["--seed", str(seed * 1000 + i + 1), "--budget", str(budget)] + list(j.args)
            if j.exh_first and i > 0:
                a += ["--nex", "0"]
            h = os.path.join(bdir, "%s.%d.hash" % (j.name, i))
            env = dict(j.env); env["VRT_HASHES"] = h
            runs.append((j, exe, a, env, h))
    with ThreadPoolExecutor(NPROC) as ex:
        outs = list(ex.map(lambda r: run_one(r[1], r[2], r[3], r[0].timeout or budget * 3 + 240, r[0].wrap), runs))
    seen = set()
    for (j, exe, a, env, h), o in zip(runs, outs):
        m = re.search(r"^RT-OK evaluations=(\d+) nontrivial=(\d+)", o["out"], re.M)
        f = re.search(r"^RT-FAIL what=(.*)$", o["out"], re.M)
        pj = res["per_job"].setdefault(j.name, dict(evaluations=0, distinct_nontrivial=0, processes=0))
        if o["rc"] == 0 and m and not f:
            pj["evaluations"] += int(m.group(1)); pj["distinct_nontrivial"] += int(m.group(2)); pj["processes"] += 1
            res["evaluations"] += int(m.group(1))
            try:
                b = open(h, "rb").read(); seen.update((j.name, x) for x in struct.unpack("<%dQ" % (len(b) // 8), b))
            except OSError:
                pass
            for s in re.findall(r"^RT-SAMPLE (.*)$", o["out"], re.M)[:2]:
                if len(res["samples"]) < 8: res["samples"].append(j.name + ": " + s[:400])
        elif f or o["rc"] not in (0,):
            if o["timeout"] and not f:
                res["undecided"].append("%s: watchdog of the harness itself expired" % j.name); continue
            if o["rc"] in (-9, 137) and not f:
                res["undecided"].append("%s: killed (out of memory?)" % j.name); continue
            what = f.group(1) if f else "exit status %s" % o["rc"]
            inp = re.search(r"^RT-INPUT (.*)$", o["out"], re.M)
            res["fails"].append(dict(job=j.name, what=what, input=inp.group(1) if inp else "(see seed)", args=a, stderr=o["err"][-6000:], src=j.src, flags=j.flags, libs=j.libs, cxx=j.cxx))
        else:
            res["undecided"].append("%s: no verdict line" % j.name)
    res["distinct"] = len(seen)
    return res
