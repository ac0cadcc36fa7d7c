"""the cycles that close the edges outside the spanner (C05)"""
from trg import TrG as TR
from contracts._dijkstra_c import DIJ


INST = "inst_spanner.cpp"
PRELUDES = ["graph.rs", "bfs.rs", "spanner.rs", "dijkstra.rs", "cspace.rs", "approx.rs"]
B = "this_._g, this_._weight_map, this_._spanner, this_._edge_spanner_to_g"
LEMMAS = r'''
pub open spec fn nb_ok(T: NonSpannerEdgesCycleBuilder) -> bool {
  gpre(T._g, T._weight_map) && sp_any(T._g, T._weight_map, T._spanner, T._edge_spanner_to_g, T._non_spanner_edges) && T._spanner_weight_map == T._spanner.w
  && T._vertex_g_to_spanner.len() == T._g.n && forall|v: int| 0 <= v < T._g.n ==> #[trigger] T._vertex_g_to_spanner[v] == v }
proof fn l_nb(T: NonSpannerEdgesCycleBuilder, y: int) requires nb_ok(T), 0 <= y < T._non_spanner_edges.len()
  ensures dpre(T._spanner, T._spanner_weight_map), T._spanner.n == T._g.n, ({ let e = T._non_spanner_edges[y]; vid(T._g, e.s) && vid(T._g, e.t) && eid(T._g, e.id) && T._vertex_g_to_spanner[e.s] == e.s && T._vertex_g_to_spanner[e.t] == e.t })
{ l_spy(T._g, T._weight_map, T._spanner, T._edge_spanner_to_g, T._non_spanner_edges, y); l_sub_wmax(T._g, T._weight_map, T._spanner, T._edge_spanner_to_g, T._non_spanner_edges); }
'''
BK = B + ", this_._non_spanner_edges, e.s, e.t, dist, pred"
BA = B + ", e.s, e.t, dist, pred, vs, es, cycle_edgelist, spanner_w, weight"
BL = B + ", this_._non_spanner_edges, e.s, e.t, dist, pred, vs, es, cycle_edgelist, spanner_w, weight"
FUNCS = [
 dict(name="nsc", find=r"parmcb::detail::NonSpannerEdgesCycleBuilder<.*>::construct_cycles_for_non_spanner_edges", nloops=2, requires=["nb_ok(old_this_)"],
   ensures=["this_ == old_this_", "closed_all(%s, this_._non_spanner_edges, out)" % B, "r == tot(this_._weight_map, out)"],
   ghost="let ghost mut vs: Seq<int> = Seq::empty(); let ghost mut es: Seq<int> = Seq::empty();",
   loops={0: dict(inv=["this_ == old_this_", "nb_ok(this_)", "0 <= it <= this_._non_spanner_edges.len()", "out.len() == it", "closings(%s, this_._non_spanner_edges, out)" % B, "total_weight == tot(this_._weight_map, out)"],
        begin="l_nb(this_, it);", gbegin="let ghost out0 = out; let ghost it0 = it;",
        end="assert(out =~= out0.push(cycle_edgelist)); l_tot_push(this_._weight_map, out0, cycle_edgelist);",
        after="l_in_order(%s, this_._non_spanner_edges, out);" % B),
      1: dict(before="l_back0(%s, this_._non_spanner_edges, it, dist, pred); vs = seq![e.t]; es = Seq::empty();" % B,
        always=["bk_pre(%s)" % BK, "back(%s)" % BA], brk=["!pred[spanner_w].0"],
        begin="l_back_b(%s);" % BL, gbegin="let ghost x0 = spanner_w; let ghost c0 = cycle_edgelist; let ghost w0 = weight;",
        end="if pred[x0].0 { let e8 = pred[x0].1; l_back(%s, this_._non_spanner_edges, e.s, e.t, dist, pred, vs, es, c0, x0, w0, spanner_w); vs = vs.push(spanner_w); es = es.push(e8.id); assert(cycle_edgelist =~= c0.push(this_._edge_spanner_to_g[e8.id])); }" % B,
        after="l_back_end(%s, this_._non_spanner_edges, it, dist, pred, vs, es, cycle_edgelist, spanner_w, weight);" % B)}),
 dict(DIJ, trusted=True),
]
