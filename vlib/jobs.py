"""which runtime harness serves which property"""
from .runtime import Job, SAN, FAKE, FMPI, SHUF, REPO
T = ["-lboost_timer"]
TB = ["-lboost_timer", "-ltbb"]
MS = ["-lboost_timer", "-lboost_serialization"]
PO = ["-lboost_timer", "-lboost_program_options", "-lboost_thread", "-lboost_system"]


def demo(name, approx=False):
    return ["-DVRT_DEMO=\"%s/src/%s.cpp\"" % (REPO, name)] + (["-DVRT_APPROX"] if approx else [])


def jobs(pid, tier):
    th = tier == "thorough"
    nex = ["--nex", "5" if th else "4"]
    mx = lambda q, t: ["--maxn", str(t if th else q)]
    if pid in ("C01", "C02"):
        return [Job("h_exact", "h_exact.cpp", SHUF + FAKE, T, ["--mode", pid] + nex + mx(13, 22), alt=(SHUF, TB))]
    if pid == "C08":
        return [Job("h_exact", "h_exact.cpp", SHUF + FAKE, T, ["--mode", pid, "--nex", "3"] + mx(14, 24), alt=(SHUF, TB))]
    if pid in ("C05", "C06", "C15"):
        return [Job("h_approx", "h_approx.cpp", SHUF + FAKE, T, ["--mode", pid] + nex + mx(13, 20), alt=(SHUF, TB))]
    if pid in ("C17", "C18"):
        return [Job("h_alg", "h_alg.cpp", [], T, ["--mode", pid])]
    if pid in ("C10", "C12", "C13", "C14", "C16"):
        return [Job("h_graph", "h_graph.cpp", SHUF + FAKE, T, ["--mode", pid] + nex + mx(14, 24), alt=(SHUF, TB))]
    if pid == "C03":
        return [Job("h_par", "h_par.cpp", SHUF + FAKE, T, ["--mode", "C03", "--nex", "3"] + mx(10, 16), weight=5),
                Job("h_par_tsan", "h_par.cpp", ["-g", "-O1", "-fsanitize=thread", "-DVRT_THREADS"] + FAKE, T, ["--mode", "C03T", "--nex", "2"] + mx(9, 12), weight=2, wrap=["setarch", "x86_64", "-R"])]
    if pid == "C04":
        return [Job("h_mpi", "h_mpi.cpp", SHUF + FAKE + FMPI, MS, ["--nex", "3"] + mx(10, 16))]
    if pid == "C20":
        return [Job("h_conc_fake", "h_conc.cpp", FAKE, T, [], procs=1), Job("h_conc_tbb", "h_conc.cpp", [], TB, [], procs=1),
                Job("h_demo_mcb", "h_demo.cpp", FAKE + demo("mcb-dimacs"), PO, [], procs=2), Job("h_demo_approx", "h_demo.cpp", FAKE + demo("approx-mcb-dimacs", True), PO, [], procs=2)]
    if pid == "C11":
        return [Job("h_demompi", "h_demompi.cpp", SHUF + FAKE + FMPI + demo("mcb-dimacs-mpi"), MS[:] + PO[1:], [], procs=2)]
    if pid == "C07":
        s = lambda n, src, mode, extra=[], libs=T: Job(n, src, SAN + FAKE + extra, libs, mode, procs=1)
        return [s("a_exact", "h_exact.cpp", ["--mode", "C07", "--nex", "3"]), s("a_approx", "h_approx.cpp", ["--mode", "C07", "--nex", "3"]),
                s("a_graph10", "h_graph.cpp", ["--mode", "C10"]), s("a_graph14", "h_graph.cpp", ["--mode", "C14", "--nex", "3"]), s("a_alg17", "h_alg.cpp", ["--mode", "C17"]), s("a_alg18", "h_alg.cpp", ["--mode", "C18"]),
                s("a_par", "h_par.cpp", ["--mode", "C07", "--nex", "3"]), s("a_conc", "h_conc.cpp", []),
                Job("v_exact", "h_exact.cpp", ["-g", "-O1", "-DVRT_NOFAIL", "-D_GLIBCXX_ASSERTIONS"] + FAKE, T, ["--mode", "C07", "--nex", "2", "--maxn", "8"], procs=1, wrap=VALG),
                Job("v_approx", "h_approx.cpp", ["-g", "-O1", "-DVRT_NOFAIL", "-D_GLIBCXX_ASSERTIONS"] + FAKE, T, ["--mode", "C07", "--nex", "2", "--maxn", "8"], procs=1, wrap=VALG),
                Job("v_graph14", "h_graph.cpp", ["-g", "-O1", "-DVRT_NOFAIL"] + FAKE, T, ["--mode", "C14", "--nex", "2", "--maxn", "8"], procs=1, wrap=VALG),
                Job("v_graph10", "h_graph.cpp", ["-g", "-O1", "-DVRT_NOFAIL"] + FAKE, T, ["--mode", "C10"], procs=1, wrap=VALG)]
    raise SystemExit("unknown property " + pid)


VALG = ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--leak-check=no"]
RULE = {
 "C01": "every labelled graph on <=4 vertices (5 thorough) with unit and random weights, then random graphs from 14 families (dense, sparse, grids, hypercubes, wheels, theta, cactus, forests, disjoint unions; heavy ties; dyadic/int weights; shuffled heap layout); non-trivial: cycle space dimension > 0; distinct: by graph text",
}
DEFAULT_RULE = RULE["C01"]
RULE["C17"] = "random operation sequences and all pairs of subsets of {0..5}; non-trivial: both operands non-zero; distinct: by operand pair"
RULE["C18"] = "all small pairs, boundary values of every integer type, random values, random SpVecFP operation sequences; non-trivial: gcd > 1 / coprime / prime / vector with more than one coordinate; distinct: by input text"
RULE["C10"] = "generated DIMACS texts (comments, a/e lines, omitted weights, long lines, with/without final newline, undeclared vertices) and random multigraphs; non-trivial: at least one edge; distinct: by text"
RULE["C20"] = "random sequences of set_global_tbb_concurrency calls interleaved with parallel library calls, random demo command lines; non-trivial: a limit was set / a parallel algorithm ran; distinct: by log"
RULE["C11"] = "random DIMACS files (valid or violating one or several preconditions) x random command lines; distinct: by (program, options, file text); in-process MPI ranks 1..9"
