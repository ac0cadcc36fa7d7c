SP_OK = r'''
// what the constructor leaves behind, for the rest of the algorithm
pub open spec fn sp_ok(T: BaseApproxSpannerAlgorithm, g: G, wm: Seq<real>, k: int) -> bool {
  T._g == g && T._weight_map == wm && T._k == k && T._weight == 0real && spanner_post(g, wm, k, T._spanner, T._edge_spanner_to_g, T._non_spanner_edges)
  && T._vertex_g_to_spanner_vec.len() == g.n && forall|v: int| 0 <= v < g.n ==> #[trigger] T._vertex_g_to_spanner_vec[v] == v }
'''
def spanner_funcs(CLS, TY, ok, tag=""):
    """the constructor and construct_spanner of one instantiation; ok: the predicate of its objects"""
    ST = "this_._g, this_._weight_map, max_hops, sorted_edges, %s, this_._spanner, this_._edge_spanner_to_g, this_._non_spanner_edges, loc"
    FR0 = "this_ == (%s { _spanner: this_._spanner, _vertex_g_to_spanner_vec: this_._vertex_g_to_spanner_vec, ..old_this_ })" % TY
    FR1 = "this_ == (%s { _spanner: this_._spanner, _edge_spanner_to_g: this_._edge_spanner_to_g, _non_spanner_edges: this_._non_spanner_edges, ..this1 })" % TY
    O = "T0._g, T0._weight_map, max_hops, sorted_edges, e0, T0._spanner, T0._edge_spanner_to_g, T0._non_spanner_edges, L0"
    return [
 dict(name="construct_spanner" + tag, find=CLS + "construct_spanner", nloops=2,
  requires=["wf(old_this_._g)", "no_loops(old_this_._g)", "old_this_._weight_map.len() == old_this_._g.ends.len()", "0 <= old_this_._k <= 18446744073709551615",
     "old_this_._spanner == g_empty()", "old_this_._non_spanner_edges.len() == 0", "old_this_._edge_spanner_to_g == Map::<int, Edge>::empty()", "old_this_._weight == 0real",
     "old_this_._vertex_g_to_spanner_vec.len() == old_this_._g.n"],
  ensures=["this_._k == old_this_._k", "this_._g == old_this_._g", "this_._weight_map == old_this_._weight_map", "this_._k >= 1 ==> " + ok + "(this_, old_this_._g, old_this_._weight_map, old_this_._k)"],
  ghost="let ghost mut loc: Seq<(int, int)> = Seq::new(old_this_._g.ends.len(), |i: int| (0int, 0int)); let ghost mut this1 = old_this_;",
  loops={
   0: dict(inv=[FR0, "this_._spanner.n == vi", "0 <= vi <= this_._g.n", "vi_end == this_._g.n", "wf(this_._spanner)", "this_._spanner.ends.len() == 0", "this_._vertex_g_to_spanner_vec.len() == this_._g.n",
        "forall|v: int| 0 <= v < vi ==> #[trigger] this_._vertex_g_to_spanner_vec[v] == v", "sorted0(this_._g, this_._weight_map, sorted_edges)"],
     before="assert(unsorted__1 =~= g_edges(this_._g)); l_sorted0(this_._g, this_._weight_map, sorted_edges, perm__5);",
     begin="l_wf_add_vertex(this_._spanner);"),
   1: dict(before="this1 = this_; assert(max_hops == hop_limit(this_._k)); l_sp0(%s);" % (ST % "0"),
     inv=[FR1, "spi(%s)" % (ST % "ei"), "sorted0(this_._g, this_._weight_map, sorted_edges)", "0 <= ei <= sorted_edges.len()"],
     begin="l_sp_bounds(%s);" % (ST % "ei"), gbegin="let ghost T0 = this_; let ghost L0 = loc; let ghost e0 = ei;",
     end="let e9 = sorted_edges[e0]; if !within(T0._spanner, e9.s, e9.t, max_hops) { let n9 = T0._spanner.ends.len() as int; l_keep(%s); assert(this_._edge_spanner_to_g =~= T0._edge_spanner_to_g.insert(n9, e9)); loc = loc.update(e9.id, (1int, n9)); assert(this_._spanner == sp_add(T0._spanner, e9, T0._weight_map[e9.id])); } else { l_drop(%s); loc = loc.update(e9.id, (2int, T0._non_spanner_edges.len() as int)); }" % (O, O),
     after="if this_._k >= 1 { l_sp_end(%s, this_._k); }" % (ST % "ei")),
  }),
 dict(name="ctor" + tag, find=CLS + "BaseApproxSpannerAlgorithm", npar=4, requires=["wf(g)", "no_loops(g)", "weight_map.len() == g.ends.len()"],
  ensures=["this_._k == k", "this_._g == g", "this_._weight_map == weight_map", "k >= 1 ==> " + ok + "(this_, g, weight_map, k)"]),]
