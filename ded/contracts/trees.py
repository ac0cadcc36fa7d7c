"""the exact algorithms on shortest-path trees from a feedback vertex set, sequential and parallel (C01, C02, C03)"""
from trt import TrT as TR
from contracts._exact_c import LEM0, LEMMAS as EXACT, CONVERT, CITED, cited
from contracts import treeloop
from contracts.treeloop import INST, PRELUDES, PROVIDED, setup
LEMMAS = LEM0 + EXACT + r'''
proof fn l_sorted_any(c: Seq<CandidateCycle>) ensures (forall|i: int, j: int| 0 <= i < j < c.len() ==> !((#[trigger] c[j])._weight < (#[trigger] c[i])._weight)) ==> sortedc(c) { reveal(sortedc); }
proof fn l_resort(trees: Seq<SPTree>, g: G, wm: Seq<real>, a: Seq<CandidateCycle>) requires tready(trees, a, g, wm)
  ensures forall|b: Seq<CandidateCycle>, pi: Seq<int>| #[trigger] perm_by(b, a, pi) ==> tready(trees, b, g, wm)
{ assert forall|b: Seq<CandidateCycle>, pi: Seq<int>| #[trigger] perm_by(b, a, pi) implies tready(trees, b, g, wm) by { l_cyok_perm(trees, a, b, pi, trees.len() as int); } }
'''
MST = "mst(g, weight_map, nfs(forest_index), sups(forest_index, support), out, pi)"
TR_ = "tready(trees, cycles, g, weight_map)"
def targ(d, v): return [c.get("value") for c in d.get("inner", []) if c["kind"] == "TemplateArgument" and "value" in c] == [v]
def main(name, v, look): return dict(name=name, find="parmcb::_mcb_sva_trees", pick=lambda d: targ(d, v), nloops=3, requires=["epre(g, weight_map)"], ensures=["basis(g, out)", "r == tot(weight_map, out)", "minimum(g, weight_map, r)", "pina(g, weight_map, out)"],
  calls={look: "l_mst_odd(g, weight_map, fs, nfs(forest_index), sups(forest_index, support), out, pi);"},
  after={"fvs_build": "l_resort(trees, g, weight_map, cycles);",
         "convert_sp": "l_conv_sp(forest_index, support[k].ones, R_.1, Set::<int>::empty().union(ids(R_.1))); l_under(g, forest_index, support[k].ones);",
         look: "SK = sset(forest_index, support[k].ones); T = R_.0; l_mo_under(g, weight_map, SK, T.0, T.1);",
         "convert_cyc": "l_conv_cyc(g, forest_index, T.0, R_.1, Set::<int>::empty().union(seq_set(R_.1)));"},
  loops={
   0: dict(before="l_fi(g, forest_index);", inv=["0 <= k <= csd", "csd == fcsd(forest_index)", "csd <= g.ends.len()", "support.len() == k", "forall|i: int| 0 <= i < support.len() ==> (#[trigger] support[i]).ones == seq![i]"], after="l_units(g, forest_index, support);"),
   1: dict(before="l_sorted_any(cycles);", ghost="let ghost mut pi: Seq<int> = nfs(forest_index); let ghost mut fs: Seq<Edge> = Seq::empty(); proof { fs = l_frm(g, forest_index); l_mst0(g, weight_map, pi); }",
      inv=["0 <= k <= csd", "csd == fcsd(forest_index)", "support.len() == csd", "out.len() == k", "okvs(support, csd)", "frm(g, fs, nfs(forest_index))", "nfs(forest_index).len() == csd", TR_, "sorted_cycles ==> sortedc(cycles)", MST, "mcb_weight == tot(weight_map, out)"],
      gbegin="let ghost S0 = support; let ghost out0 = out; let ghost k0 = k; let ghost mut SK: Set<int> = Set::empty(); let ghost mut T: (Set<int>, real, bool) = (Set::empty(), 0real, false); proof { l_fi(g, forest_index); assert(okv(support[k].ones, csd)); }",
      end="l_emit_any(g, weight_map, SK, T.0, T.1); assert(out =~= out0.push(cyclek_edgelist)); l_mst_step(g, weight_map, nfs(forest_index), sups(forest_index, S0), out0, pi, sups(forest_index, support), cyclek_edgelist); assert(out.drop_last() =~= out0);",
      after="l_mst_end(g, weight_map, fs, nfs(forest_index), sups(forest_index, support), out, pi);"),
   2: dict(inv=["k < l <= csd", "support.len() == csd", "okvs(S0, csd)", "okvs(support, csd)", "forall|i: int| 0 <= i < csd && (i <= k || i >= l) ==> #[trigger] support[i] == S0[i]", "posns(forest_index, T.0, cyclek)", "under(T.0, me(g))", "updated(g, sups(forest_index, S0), sups(forest_index, support), T.0, k, l)"],
     gbegin="let ghost P = support; let ghost l0 = l;", begin="assert(okv(support[l].ones, csd) && okv(support[k].ones, csd)); l_okv(support[l].ones, csd); l_okv(support[k].ones, csd);", end="l_upd(g, forest_index, S0, P, support, T.0, cyclek, k, l0);"),
  })
_T = {f["name"]: f for f in cited(treeloop, "look", "look_tbb", "fvs_build")}
def entry(name, cxx, by): return dict(name=name, find="parmcb::" + cxx, requires=_M[by]["requires"], ensures=_M[by]["ensures"])
_M = {f["name"]: f for f in (main("mcb_fvs", 0, "look"), main("mcb_fvs_tbb", 1, "look_tbb"))}
FUNCS = CONVERT + CITED + list(_T.values()) + list(_M.values()) + [entry("mcb_sva_fvs_trees", "mcb_sva_fvs_trees", "mcb_fvs"), entry("mcb_sva_fvs_trees_tbb", "mcb_sva_fvs_trees_tbb", "mcb_fvs_tbb")]
