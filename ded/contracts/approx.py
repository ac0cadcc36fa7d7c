"""the approximation algorithms (C05): run() and the entry points; the exact algorithms by their contract"""
from trg import TrG as TR
from contracts._bfs_c import BFS
from contracts._spanner_c import SP_OK, spanner_funcs
from contracts import closing, mainloop, trees
from contracts._exact_c import cited
INST = "inst_approx.cpp"
PRELUDES = ["graph.rs", "bfs.rs", "spanner.rs", "dijkstra.rs", "cspace.rs", "approx.rs", "exact.rs", "mcb.rs", "signed.rs", "factor.rs"]
TYS = ["BaseApproxSpannerAlgorithm", "BaseApproxSpannerAlgorithm_"]
LEMMAS = closing.LEMMAS[:closing.LEMMAS.index("proof fn")] + SP_OK + SP_OK.replace("sp_ok", "sp_ok_").replace(TYS[0], TYS[1]) + r'''
proof fn l_gpre(g: G, wm: Seq<real>) requires gpre(g, wm) ensures wf(g), no_loops(g), wm.len() == g.ends.len(), pos(wm) { reveal(gpre); }
proof fn l_cut(a: Seq<Seq<Edge>>) ensures forall|b: Seq<Seq<Edge>>| ({ let c = #[trigger] (a + b); c.subrange(a.len() as int, c.len() as int) == b }) { assert forall|b: Seq<Seq<Edge>>| ({ let c = #[trigger] (a + b); c.subrange(a.len() as int, c.len() as int) == b }) by { let c = a + b; assert(c.subrange(a.len() as int, c.len() as int) =~= b); } }
'''
X = "parmcb::mcb_sva_%s"
R = r"parmcb::detail::BaseApproxSpannerAlgorithm<.*mcb_sva_%s<.*>::"
S = "old_this_._g, old_this_._weight_map, old_this_._spanner, old_this_._edge_spanner_to_g, old_this_._non_spanner_edges"
MP = "this_._edge_spanner_to_g"
FR = "this_ == (%s { _weight: this_._weight, ..old_this_ })"
_M = cited(mainloop, "mcb_signed")[0]
# the contract the exact algorithms are cited by: proved for mcb_sva_signed (mainloop), mcb_sva_signed_tbb (tbb) and mcb_sva_fvs_trees[_tbb] (trees), assumed for the isometric variants
def exact(k): return dict(name="mcb_sva_" + k, find=X % k, trusted=True, requires=list(_M["requires"]), ensures=list(_M["ensures"]))
for t in cited(trees, "mcb_sva_fvs_trees", "mcb_sva_fvs_trees_tbb"): assert set(_M["ensures"]) <= set(t["ensures"]) and set(t["requires"]) <= set(_M["requires"])
NSC = dict([f for f in closing.FUNCS if f["name"] == "nsc"][0], trusted=True)
def ens(g, wm, k): return ["exc == (%s < 1)" % k, "exc ==> out.len() == 0", "!exc ==> basis(%s, out) && r == tot(%s, out)" % (g, wm), "!exc ==> afac(%s, %s, %s, r)" % (g, wm, k), "!exc && %s == 1 ==> minimum(%s, %s, r)" % (k, g, wm)]
def algo(k, j, TYS=TYS):
    ok = "sp_ok" + "_" * j; fr = FR % TYS[j]
    return [
     dict(name="run_" + k, find=R % k + "run", nloops=3, throws=True, requires=["gpre(old_this_._g, old_this_._weight_map)", "old_this_._k >= 1 ==> %s(old_this_, old_this_._g, old_this_._weight_map, old_this_._k)" % ok],
       ensures=ens("old_this_._g", "old_this_._weight_map", "old_this_._k"),
       begin="l_gpre(old_this_._g, old_this_._weight_map); if old_this_._k >= 1 { l_any(old_this_._g, old_this_._weight_map, old_this_._k, old_this_._spanner, old_this_._edge_spanner_to_g, old_this_._non_spanner_edges); l_epre(%s); }" % S,
       ghost="let ghost mut cs: Seq<Seq<Edge>> = Seq::empty(); let ghost mut o1: Seq<Seq<Edge>> = Seq::empty();",
       loops={0: dict(inv=["this_ == old_this_", "out.len() == 0", "0 <= ei <= ei_c.len()", "ei_end == ei_c.len()", "ei_c == g_edges(this_._g)"], begin="assert(eid(this_._g, ei));"),
         1: dict(before="cs = spanner_cycles;", inv=[fr, "basis(this_._spanner, cs)", "pina(this_._spanner, this_._spanner.w, cs)", "out == trs(%s, cs, spanner_cycle_i)" % MP, "this_._weight == tot(this_._spanner.w, cs)"], gbegin="let ghost o0 = out; let ghost i0 = spanner_cycle_i;",
            begin="assert(cycle_of(this_._spanner, cs[spanner_cycle_i]));",
            end="assert(cycle_edgelist =~= trc(%s, cs[i0])); assert(out =~= trs(%s, cs, i0 + 1));" % (MP, MP), after="o1 = out; l_cut(o1);"),
         2: dict(inv=[fr, "cycle_edgelist =~= trc(%s, spanner_cycle).take(spanner_e_i)" % MP, "edges_ok(this_._spanner, spanner_cycle)"], begin="assert(edge_ok(this_._spanner, spanner_cycle[spanner_e_i])); assert(eid(this_._spanner, spanner_cycle[spanner_e_i].id)); l_spx(%s, spanner_cycle[spanner_e_i].id);" % S)},
       at_return="if old_this_._k >= 1 { let ds = out.subrange(o1.len() as int, out.len() as int); assert(out =~= both(%s, cs, ds)); l_run(old_this_._g, old_this_._weight_map, old_this_._k, old_this_._spanner, old_this_._edge_spanner_to_g, old_this_._non_spanner_edges, cs, ds); }" % MP),
     dict(name="approx_" + k, find="parmcb::approx_mcb_sva_" + k, throws=True, requires=["gpre(g, weight)"], ensures=ens("g", "weight", "k"), begin="l_gpre(g, weight);"),
    ] + spanner_funcs(R % k, TYS[j], ok, "_" + k)
def iso(s=""): return [
 dict(name="approx_iso_trees" + s, find="parmcb::approx_mcb_sva_iso_trees" + s, throws=True, requires=["gpre(g, weight)"], ensures=ens("g", "weight", "k"), begin="l_gpre(g, weight);")]
FUNCS = [dict(BFS, trusted=True)] + [exact("signed"), exact("fvs_trees"), dict(NSC)] + algo("signed", 0) + algo("fvs_trees", 1) + iso()
