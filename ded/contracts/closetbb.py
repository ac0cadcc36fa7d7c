"""the closing cycles built by parallel tasks (C03, C05)"""
from trp import TrP as TR
from contracts import closing
from contracts._dijkstra_c import DIJ
from contracts.closing import B, BK, BA, BL
INST = "inst_atbb.cpp"
PRELUDES = ["graph.rs", "bfs.rs", "spanner.rs", "dijkstra.rs", "cspace.rs", "approx.rs", "mcb.rs"]
LEMMAS = closing.LEMMAS + r'''
pub open spec fn viac(cs: Seq<Seq<Edge>>, q: Seq<int>) -> Seq<Seq<Edge>> { Seq::new(q.len(), |i: int| cs[q[i]]) }
proof fn l_orders(q: Seq<int>, n: int) requires enumerates(q, Set::range(0, n)), q.len() == n ensures orders(q, n)
{ assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] q[i] < n by { assert(q.contains(q[i])); assert(Set::range(0, n).contains(q[i])); } assert forall|x: int| 0 <= x < n implies #[trigger] q.contains(x) by { assert(Set::range(0, n).contains(x)); } }
proof fn l_sumr(wm: Seq<real>, cs: Seq<Seq<Edge>>, w: Seq<real>, k: int) requires 0 <= k <= cs.len(), w.len() == cs.len(), forall|i: int| 0 <= i < cs.len() ==> #[trigger] w[i] == wt(wm, cs[i]) ensures sumr(w, k) == tot(wm, cs.take(k)) decreases k
{ if k > 0 { l_sumr(wm, cs, w, k - 1); assert(cs.take(k).drop_last() =~= cs.take(k - 1)); assert(w[k - 1] == wt(wm, cs[k - 1])); } }
// cycles and weights appended in two different orders
proof fn l_appended(wm: Seq<real>, ac: Seq<Seq<Edge>>, aw: Seq<real>, q1: Seq<int>, q2: Seq<int>, n: int)
  requires n == ac.len(), n == aw.len(), orders(q1, n), orders(q2, n), forall|i: int| 0 <= i < n ==> #[trigger] aw[i] == wt(wm, ac[i]) ensures sumr(Seq::new(n as nat, |i: int| aw[q2[i]]), n) == tot(wm, viac(ac, q1))
{ let w = Seq::new(n as nat, |i: int| aw[q2[i]]); let c1 = viac(ac, q1); let c2 = viac(ac, q2); assert forall|i: int| 0 <= i < n implies #[trigger] w[i] == wt(wm, c2[i]) by { assert(aw[q2[i]] == wt(wm, ac[q2[i]])); }
  l_sumr(wm, c2, w, n); assert(c2.take(n) =~= c2); assert(placed(ac, c1, q1)); assert(placed(ac, c2, q2)); l_tot_perm(wm, ac, c1, q1); l_tot_perm(wm, ac, c2, q2); }
proof fn l_all_tbb(T: NonSpannerEdgesCycleBuilder, ac: Seq<Seq<Edge>>, aw: Seq<real>, q1: Seq<int>, q2: Seq<int>, cs: Seq<Seq<Edge>>, ws: Seq<real>)
  requires ({ let n = T._non_spanner_edges.len() as int; n == ac.len() && n == aw.len() && enumerates(q1, Set::range(0, n)) && enumerates(q2, Set::range(0, n)) && q1.len() == n && q2.len() == n
    && (forall|i: int| 0 <= i < n ==> closing(T._g, T._weight_map, T._spanner, T._edge_spanner_to_g, T._non_spanner_edges[i], #[trigger] ac[i]) && aw[i] == wt(T._weight_map, ac[i]))
    && cs =~= viac(ac, q1) && ws =~= Seq::new(n as nat, |i: int| aw[q2[i]]) })
  ensures closed_all(T._g, T._weight_map, T._spanner, T._edge_spanner_to_g, T._non_spanner_edges, cs), sumr(ws, ws.len() as int) == tot(T._weight_map, cs), sumr(ws, 0) == 0real
{ let n = T._non_spanner_edges.len() as int; l_orders(q1, n); l_orders(q2, n); assert forall|i: int| 0 <= i < n implies #[trigger] aw[i] == wt(T._weight_map, ac[i]) by { assert(ac[i] == ac[i]); } l_appended(T._weight_map, ac, aw, q1, q2, n);
  let m = viae(T._non_spanner_edges, q1); assert forall|y: int| 0 <= y < cs.len() implies closing(T._g, T._weight_map, T._spanner, T._edge_spanner_to_g, m[y], #[trigger] cs[y]) by { assert(cs[y] == ac[q1[y]]); }
  assert(closed_by(T._g, T._weight_map, T._spanner, T._edge_spanner_to_g, T._non_spanner_edges, cs, q1)); }
'''
C = closing.FUNCS[0]
E_ = "closing(%s, this_._non_spanner_edges[p0_lo + j], #[trigger] p0_cycles[j]) && p0_cycles_weights[j] == wt(this_._weight_map, p0_cycles[j])" % B
IN = dict(C["loops"][1]); IN = {k: (v.replace("edges, it,", "edges, i,") if isinstance(v, str) else v) for k, v in IN.items()}
FUNCS = [
 dict(name="nsc", find=r"parmcb::detail::NonSpannerEdgesCycleBuilder<.*>::construct_cycles_for_non_spanner_edges", nloops=2, requires=C["requires"], ensures=["this_ == old_this_", "closed_all(%s, this_._non_spanner_edges, out)" % B, "r == tot(this_._weight_map, out)"],
  ghost=C["ghost"],
  par={0: dict(push=["cycles", "cycles_weights"], each="closing(%s, this_._non_spanner_edges[I_], #[trigger] X_cycles) && X_cycles_weights == wt(this_._weight_map, X_cycles)" % B,
          after="assert(p0_old_cycles =~= Seq::empty()); assert(p0_old_cycles_weights =~= Seq::empty()); l_all_tbb(this_, p0_all_cycles, p0_all_cycles_weights, p0_perm_cycles, p0_perm_cycles_weights, cycles, cycles_weights);"),
       1: dict(R="V_ == sumr(cycles_weights, HI_) - sumr(cycles_weights, LO_)")},
  loops={0: dict(inv=["this_ == old_this_", "p0_lo <= i <= p0_hi", "p0_cycles.len() == i - p0_lo", "p0_cycles_weights.len() == i - p0_lo", "forall|j: int| 0 <= j < i - p0_lo ==> %s" % E_],
      begin="l_nb(this_, i);", gbegin="let ghost i0 = i;"), 1: IN},
  at_return="assert(out =~= cycles);"),
 dict(DIJ, trusted=True),
]
