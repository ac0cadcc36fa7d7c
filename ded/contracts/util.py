"""the input predicates of util.hpp (C10)"""
from trg import TrG as TR
INST = "inst_graph.cpp"
PRELUDES = ["graph.rs"]
LEMMAS = r'''
pub open spec fn is_loop(g: G, e: int) -> bool { eid(g, e) && g.ends[e].0 == g.ends[e].1 }
pub open spec fn parallel(g: G, e: int, f: int) -> bool { eid(g, e) && eid(g, f) && e != f && joins(g, f, g.ends[e].0, g.ends[e].1) }
// two different edges in the incidence list of v lead to the same vertex
pub open spec fn dup(g: G, v: int, i: int, j: int) -> bool { g.adj[v][i] != g.adj[v][j] && oth(g, g.adj[v][i], v) == oth(g, g.adj[v][j], v) }
pub open spec fn at(g: G, v: int, k: int, x: int) -> bool { exists|i: int| 0 <= i < k && #[trigger] oth(g, g.adj[v][i], v) == x }
pub open spec fn lat(g: G, v: int, k: int, x: int) -> bool { exists|i: int| 0 <= i < k && oth(g, g.adj[v][i], v) == v && #[trigger] g.adj[v][i] == x }
#[verifier::opaque]
pub open spec fn seen(g: G, v: int, k: int, nb: Set<int>, lp: Set<int>) -> bool {
  (forall|i: int, j: int| 0 <= i < k && 0 <= j < k ==> !#[trigger] dup(g, v, i, j)) && (forall|x: int| #[trigger] nb.contains(x) <==> x != v && at(g, v, k, x))
  && (forall|x: int| #[trigger] lp.contains(x) <==> lat(g, v, k, x)) }
#[verifier::opaque]
pub open spec fn clean(g: G, m: int) -> bool { forall|v: int, i: int, j: int| 0 <= v < m && 0 <= i < g.adj[v].len() && 0 <= j < g.adj[v].len() ==> !#[trigger] dup(g, v, i, j) }
proof fn l_seen0(g: G, v: int) ensures seen(g, v, 0, Set::empty(), Set::empty()) { reveal(seen); }
proof fn l_par(g: G, v: int, i: int, j: int) requires wf(g), vid(g, v), 0 <= i < g.adj[v].len(), 0 <= j < g.adj[v].len(), dup(g, v, i, j) ensures exists|e: int, f: int| #[trigger] parallel(g, e, f)
{ l_adj(g, v); let e = g.adj[v][i]; let f = g.adj[v][j]; assert(joins(g, e, v, oth(g, e, v)) && joins(g, f, v, oth(g, f, v))); assert(parallel(g, e, f)); }
proof fn l_two(s: Set<int>, x: int) requires s.contains(x), s.len() > 1 ensures exists|y: int| y != x && #[trigger] s.contains(y) { if forall|y: int| y != x ==> !#[trigger] s.contains(y) { assert(s =~= Set::<int>::empty().insert(x)); } }
proof fn l_one(s: Set<int>, x: int, y: int) requires s.contains(x), s.contains(y), s.len() <= 1 ensures x == y { if x != y { let t = s.remove(x); assert(t.contains(y)); assert(t.len() == 0); assert(t =~= Set::<int>::empty()); } }
// a self-loop: the second different one at v is a repetition
proof fn l_loop(g: G, v: int, k: int, nb: Set<int>, lp: Set<int>)
  requires wf(g), vid(g, v), seen(g, v, k, nb, lp), 0 <= k < g.adj[v].len(), oth(g, g.adj[v][k], v) == v
  ensures lp.insert(g.adj[v][k]).len() > 1 ==> exists|e: int, f: int| #[trigger] parallel(g, e, f), lp.insert(g.adj[v][k]).len() <= 1 ==> seen(g, v, k + 1, nb, lp.insert(g.adj[v][k]))
{ reveal(seen); let x = g.adj[v][k]; let l2 = lp.insert(x);
  assert forall|y: int| #[trigger] l2.contains(y) <==> lat(g, v, k + 1, y) by { if y == x { assert(lat(g, v, k + 1, x)); } if lat(g, v, k, y) { let i = choose|i: int| 0 <= i < k && oth(g, g.adj[v][i], v) == v && #[trigger] g.adj[v][i] == y; assert(g.adj[v][i] == y); assert(lat(g, v, k + 1, y)); }
    if lat(g, v, k + 1, y) && y != x { let i = choose|i: int| 0 <= i < k + 1 && oth(g, g.adj[v][i], v) == v && #[trigger] g.adj[v][i] == y; assert(lat(g, v, k, y)); } }
  if l2.len() > 1 { l_two(l2, x); let y = choose|y: int| y != x && #[trigger] l2.contains(y); assert(lat(g, v, k + 1, y)); let i = choose|i: int| 0 <= i < k + 1 && oth(g, g.adj[v][i], v) == v && #[trigger] g.adj[v][i] == y; assert(dup(g, v, i, k)); l_par(g, v, i, k); }
  else {
    assert forall|y: int| #[trigger] nb.contains(y) <==> y != v && at(g, v, k + 1, y) by { l_at(g, v, k, y); }
    assert forall|i: int, j: int| 0 <= i < k + 1 && 0 <= j < k + 1 implies !#[trigger] dup(g, v, i, j) by {
      if dup(g, v, i, j) { if i < k && j < k {} else { assert(oth(g, g.adj[v][i], v) == v && oth(g, g.adj[v][j], v) == v); assert(lat(g, v, k + 1, g.adj[v][i])); assert(lat(g, v, k + 1, g.adj[v][j])); l_one(l2, g.adj[v][i], g.adj[v][j]); } } } } }
proof fn l_at(g: G, v: int, k: int, y: int) requires 0 <= k ensures at(g, v, k + 1, y) <==> at(g, v, k, y) || oth(g, g.adj[v][k], v) == y
{ if at(g, v, k, y) { let i = choose|i: int| 0 <= i < k && #[trigger] oth(g, g.adj[v][i], v) == y; assert(oth(g, g.adj[v][i], v) == y); } if oth(g, g.adj[v][k], v) == y { assert(at(g, v, k + 1, y)); } }
proof fn l_edge(g: G, v: int, k: int, nb: Set<int>, lp: Set<int>)
  requires wf(g), vid(g, v), seen(g, v, k, nb, lp), 0 <= k < g.adj[v].len(), oth(g, g.adj[v][k], v) != v
  ensures nb.contains(oth(g, g.adj[v][k], v)) ==> exists|e: int, f: int| #[trigger] parallel(g, e, f), !nb.contains(oth(g, g.adj[v][k], v)) ==> seen(g, v, k + 1, nb.insert(oth(g, g.adj[v][k], v)), lp)
{ reveal(seen); l_adj(g, v); let u = oth(g, g.adj[v][k], v); let e = g.adj[v][k]; assert(joins(g, e, v, u)); assert(eid(g, e));
  if nb.contains(u) { let i = choose|i: int| 0 <= i < k && #[trigger] oth(g, g.adj[v][i], v) == u; if g.adj[v][i] == g.adj[v][k] { assert(g.ends[e].0 == g.ends[e].1); } assert(dup(g, v, i, k)); l_par(g, v, i, k); }
  else { let n2 = nb.insert(u);
    assert forall|y: int| #[trigger] n2.contains(y) <==> y != v && at(g, v, k + 1, y) by { l_at(g, v, k, y); }
    assert forall|y: int| #[trigger] lp.contains(y) <==> lat(g, v, k + 1, y) by { if lat(g, v, k, y) { let i = choose|i: int| 0 <= i < k && oth(g, g.adj[v][i], v) == v && #[trigger] g.adj[v][i] == y; assert(g.adj[v][i] == y); }
      if lat(g, v, k + 1, y) { let i = choose|i: int| 0 <= i < k + 1 && oth(g, g.adj[v][i], v) == v && #[trigger] g.adj[v][i] == y; assert(i < k); assert(lat(g, v, k, y)); } }
    assert forall|i: int, j: int| 0 <= i < k + 1 && 0 <= j < k + 1 implies !#[trigger] dup(g, v, i, j) by {
      if dup(g, v, i, j) { if i < k && j < k {} else { let o = if i == k { j } else { i }; assert(o < k); assert(oth(g, g.adj[v][o], v) == u); assert(at(g, v, k, u)); } } } } }
proof fn l_clean(g: G, v: int, nb: Set<int>, lp: Set<int>) requires clean(g, v), seen(g, v, g.adj[v].len() as int, nb, lp) ensures clean(g, v + 1) { reveal(clean); reveal(seen); }
proof fn l_clean0(g: G) ensures clean(g, 0) { reveal(clean); }
proof fn l_final(g: G) requires wf(g), clean(g, g.n) ensures !exists|e: int, f: int| #[trigger] parallel(g, e, f)
{ reveal(clean); assert forall|e: int, f: int| !#[trigger] parallel(g, e, f) by { if parallel(g, e, f) { let v = g.ends[e].0; assert(vid(g, v)); l_adj(g, v); assert(inc(g, e, v) && inc(g, f, v)); assert(g.adj[v].contains(e) && g.adj[v].contains(f));
    let i = choose|i: int| 0 <= i < g.adj[v].len() && g.adj[v][i] == e; let j = choose|j: int| 0 <= j < g.adj[v].len() && g.adj[v][j] == f; assert(dup(g, v, i, j)); } } }
'''
FUNCS = [
 dict(name="has_loops", find=r"parmcb::has_loops", nloops=1, requires=["wf(g)"], ensures=["r <==> exists|e: int| #[trigger] is_loop(g, e)"],
  loops={0: dict(inv=["forall|e: int| 0 <= e < eit ==> !#[trigger] is_loop(g, e)", "0 <= eit <= g.ends.len()"], begin="assert(is_loop(g, eit) <==> g.ends[eit].0 == g.ends[eit].1);")}),
 dict(name="has_non_positive_weights", find=r"parmcb::has_non_positive_weights", nloops=1, requires=["wf(g)", "weight_map.len() == g.ends.len()"],
  ensures=["r <==> exists|e: int| eid(g, e) && #[trigger] weight_map[e] <= 0real"],
  loops={0: dict(inv=["forall|e: int| 0 <= e < eit ==> #[trigger] weight_map[e] > 0real", "0 <= eit <= g.ends.len()"])}),
 dict(name="has_multiple_edges", find=r"parmcb::has_multiple_edges", nloops=2, requires=["wf(g)"], ensures=["r <==> exists|e: int, f: int| #[trigger] parallel(g, e, f)"],
  at_return="if !r { l_final(g); }",
  loops={0: dict(before="l_clean0(g);", inv=["0 <= vit <= g.n", "clean(g, vit)"]),
    1: dict(before="l_seen0(g, v);", inv=["0 <= eit <= g.adj[v].len()", "seen(g, v, eit, neighbors, loops)"],
      begin="l_adj(g, v); assert(eit_c[eit] == out_edge(g, v, eit)); assert(g_opp(eit_c[eit], v) == oth(g, g.adj[v][eit], v)); if oth(g, g.adj[v][eit], v) == v { l_loop(g, v, eit, neighbors, loops); } else { l_edge(g, v, eit, neighbors, loops); }",
      after="l_clean(g, v, neighbors, loops);")}),
]
