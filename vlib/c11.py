"""C11 on the real demo binaries: built from /repo/src, run on generated DIMACS files."""
import os, random, re, subprocess, shutil, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
import heapq
from . import runtime
REPO = runtime.REPO
MPIINC = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]


def mcb_opt(n, E):
    """de Pina with Fractions, all vertices, two-level graph; independent of the library"""
    par = list(range(n))
    def f(x):
        while par[x] != x: par[x] = par[par[x]]; x = par[x]
        return x
    S = []
    for i, (u, v, w) in enumerate(E):
        a, b = f(u), f(v)
        if a == b: S.append(1 << i)
        else: par[a] = b
    adj = [[] for _ in range(n)]
    for i, (u, v, w) in enumerate(E):
        adj[u].append((v, i)); adj[v].append((u, i))
    tot = Fraction(0)
    for k in range(len(S)):
        best, bc = None, 0
        for s in range(n):
            d = {s: Fraction(0)}; pr = {}; q = [(Fraction(0), s)]
            while q:
                dd, x = heapq.heappop(q)
                if dd != d[x]: continue
                if best is not None and dd >= best: break
                if x == s + n:
                    best = dd; c = 0; y = x
                    while y != s:
                        y, i = pr[y]; c ^= 1 << i
                    bc = c; break
                for v, i in adj[x % n]:
                    lv = (x // n) ^ (S[k] >> i & 1); y = v + lv * n; nd = dd + E[i][2]
                    if y not in d or nd < d[y]:
                        d[y] = nd; pr[y] = (x, i); heapq.heappush(q, (nd, y))
        tot += best
        for l in range(k + 1, len(S)):
            if bin(S[l] & bc).count("1") & 1: S[l] ^= S[k]
    return tot


def gen(r):
    n = r.randint(1, 9); p = r.choice([0.2, 0.5, 0.8]); mode = r.randint(0, 3); E = []
    for i in range(n):
        for j in range(i + 1, n):
            if r.random() < p:
                w = [Fraction(1), Fraction(r.randint(1, 3)), Fraction(r.randint(1, 9)), Fraction(r.randint(1, 40), 8)][mode]
                E.append((i, j, w) if r.random() < .5 else (j, i, w))
    r.shuffle(E); bad = r.choice([0, 0, 0, 1, 2, 3, 4, 5]); kinds = []
    if bad in (1, 4): u = r.randrange(n); E.insert(r.randint(0, len(E)), (u, u, Fraction(r.randint(1, 3)))); kinds.append("loop")
    if bad in (2, 4, 5) and [e for e in E if e[0] != e[1]]:
        u, v, w = r.choice([e for e in E if e[0] != e[1]]); E.insert(r.randint(0, len(E)), (v, u, Fraction(r.randint(1, 4))) if r.random() < .5 else (u, v, w)); kinds.append("multi")
    if bad in (3, 5) and E:
        i = r.randrange(len(E)); E[i] = (E[i][0], E[i][1], Fraction(-r.randint(0, 2), 2)); kinds.append("nonpositive")
    return n, E, kinds


def text(n, E, r):
    o = []
    if r.random() < .5: o.append("c generated")
    o.append("p edge %d %d" % (n, len(E)))
    for u, v, w in E:
        if w == 1 and r.random() < .3: o.append("%s %d %d" % (r.choice("ea"), u + 1, v + 1))
        else: o.append("%s %d %d %s" % (r.choice("ea"), u + 1, v + 1, repr(float(w)) if w.denominator != 1 else str(w.numerator)))
    return "\n".join(o) + ("\n" if r.random() < .7 else "")


def launch(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout); return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return None, "", ""


def judge(prog, opts, kinds, opt, k, rc, out, err):
    if rc is None: return "does not terminate within the time limit"
    if kinds:
        if rc == 0: return "exit status 0 on a file with %s" % "/".join(kinds)
        if rc < 0: return "killed by signal %d on a file with %s" % (-rc, "/".join(kinds))
        if not (out + err).strip() or not re.search(r"loop|multipl|parallel|weight|invalid|negative|zero|abort", out + err, re.I): return "no diagnostic for a file with %s" % "/".join(kinds)
        if "MCB weight" in out or re.search(r"^Using (PAR_|APPROX_)?MCB", out, re.M) or "cycles:" in out: return "an algorithm ran on a file with %s" % "/".join(kinds)
        return None
    if rc != 0: return "exit status %s on a valid file" % rc
    if prog == "collection-stats-dimacs": return None
    m = re.search(r"MCB weight = (\S+)", out)
    if not m: return "no 'MCB weight' line on a valid file"
    got = float(m.group(1))
    if prog == "approx-mcb-dimacs":
        if got < float(opt) * (1 - 1e-5) or got > float(opt) * (2 * k - 1) * (1 + 1e-5): return "approximate weight %s outside [%s, (2k-1) * %s] for k=%d" % (m.group(1), float(opt), float(opt), k)
    elif m.group(1) != "%g" % float(opt) and abs(got - float(opt)) > 1e-5 * max(1, abs(float(opt))): return "prints weight %s, the minimum is %g" % (m.group(1), float(opt))
    return None


def run(bdir, seed, budget):
    res = dict(evaluations=0, distinct=0, samples=[], fails=[], undecided=[], cmds=[], per_job={})
    cfg = runtime.config(bdir)
    progs = ["mcb-dimacs", "approx-mcb-dimacs", "collection-stats-dimacs"]
    cmds = {p: ["g++", "-std=c++14", "-w", "-O1", "-I" + REPO + "/include", "-I" + cfg, REPO + "/src/%s.cpp" % p, "-o", os.path.join(bdir, p), "-lboost_timer", "-lboost_program_options", "-lboost_thread", "-lboost_system", "-ltbb", "-pthread"] for p in progs}
    cmds["mcb-dimacs-mpi"] = ["mpicxx", "-std=c++14", "-w", "-O1", "-I" + REPO + "/include", "-I" + cfg, REPO + "/src/mcb-dimacs-mpi.cpp", "-o", os.path.join(bdir, "mcb-dimacs-mpi"), "-lboost_mpi", "-lboost_serialization", "-lboost_timer", "-lboost_program_options", "-lboost_thread", "-lboost_system", "-ltbb", "-pthread"]
    hello = os.path.join(bdir, "mpiprobe"); open(hello + ".c", "w").write("#include <mpi.h>\nint main(int c,char**v){int p;MPI_Init_thread(&c,&v,MPI_THREAD_MULTIPLE,&p);int r=0,s=0;MPI_Comm_rank(MPI_COMM_WORLD,&r);MPI_Allreduce(&r,&s,1,MPI_INT,MPI_SUM,MPI_COMM_WORLD);MPI_Finalize();return p==MPI_THREAD_MULTIPLE?0:9;}\n")
    def b(p):
        q = subprocess.run(cmds[p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True); return p, q.returncode, q.stdout
    with ThreadPoolExecutor(5) as ex:
        hb = ex.submit(lambda: subprocess.run(["mpicc", hello + ".c", "-o", hello], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        for p, rc, o in ex.map(b, list(cmds)):
            if rc != 0: res["undecided"].append("%s does not compile:\n%s" % (p, o[:4000]))
            else: res["cmds"].append(" ".join(cmds[p]))
        hb.result()
    if res["undecided"]: return res
    os.environ["OMPI_MCA_btl_vader_single_copy_mechanism"] = "none"
    mpix = ["mpiexec", "--allow-run-as-root", "--oversubscribe", "-n"]
    mpi_ok = launch(mpix + ["2", hello], 60)[0] == 0
    res["mpi"] = "mpiexec" if mpi_ok else "mpiexec does not work in this environment: the MPI demo ran only on the in-process stand-in"
    tmp = tempfile.mkdtemp(prefix="c11"); t0 = time.time(); lock = threading.Lock(); seen = set(); stop = []
    def worker(wid):
        r = random.Random(seed * 1000 + wid)
        while time.time() - t0 < budget and not stop:
            n, E, kinds = gen(r); opt = None if kinds else mcb_opt(n, E); path = os.path.join(tmp, "g%d" % wid); tx = text(n, E, r); open(path, "w").write(tx)
            todo = []
            if wid < 2 and mpi_ok:
                a = r.choice([[], ["--signed=1"], ["--signed=0", "--fvstrees=1"], ["--signed=0", "--isotrees=1"]])
                todo.append(("mcb-dimacs-mpi", mpix + [str(r.choice([1, 2, 2, 3, 4, 5])), os.path.join(bdir, "mcb-dimacs-mpi")] + a + [path], 0))
            else:
                for prog in progs:
                    if prog == "collection-stats-dimacs":
                        todo.append((prog, [os.path.join(bdir, prog), path], 0)); continue
                    for _ in range(2):
                        a = list(r.choice([[], ["--signed=1"], ["--signed=0", "--fvstrees=1"], ["--signed=0", "--isotrees=1"], ["--signed=0"]])); k = 2
                        a += r.choice([[], ["--parallel=0"], ["--parallel=1"], ["-p0"]]); a += r.choice([[], [], ["--cores=2"], ["--cores=1"], ["--verbose=1"], ["--printcycles=1"]])
                        if prog == "approx-mcb-dimacs" and r.random() < .7: k = r.randint(2, 4); a += ["--k=%d" % k]
                        todo.append((prog, [os.path.join(bdir, prog)] + a + [path], k))
            for prog, cmd, k in todo:
                rc, out, err = launch(cmd, 60)
                bad = judge(prog, cmd, kinds, opt, k, rc, out, err)
                if bad and rc is None:   # confirm a hang once more before believing it
                    rc, out, err = launch(cmd, 90); bad = judge(prog, cmd, kinds, opt, k, rc, out, err)
                with lock:
                    pj = res["per_job"].setdefault(prog, dict(evaluations=0)); pj["evaluations"] += 1
                    res["evaluations"] += 1; seen.add((prog, tuple(cmd[:-1]), tx))
                    if len(res["samples"]) < 6 and r.random() < .05: res["samples"].append("%s on %r" % (" ".join([prog] + cmd[1:-1][-6:]), tx[:160]))
                    if bad and not stop:
                        stop.append(1); res["fails"].append(dict(job=prog, what="%s: %s" % (prog, bad), input="command: %s\nfile:\n%s" % (" ".join(cmd), tx), args=cmd, stderr=(out + err)[-4000:]))
    ths = [threading.Thread(target=worker, args=(i,)) for i in range(8)]
    [t.start() for t in ths]; [t.join() for t in ths]
    shutil.rmtree(tmp, ignore_errors=True); res["distinct"] = len(seen)
    return res
