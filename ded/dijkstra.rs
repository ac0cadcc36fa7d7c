// ---- weighted walks and Dijkstra's algorithm
pub open spec fn wsum(wm: Seq<real>, es: Seq<int>) -> real decreases es.len() { if es.len() == 0 { 0real } else { wsum(wm, es.drop_last()) + wm[es.last()] } }
pub open spec fn wmax(wm: Seq<real>) -> real decreases wm.len() { if wm.len() == 0 { 0real } else { let a = wmax(wm.drop_last()); if a < wm.last() { wm.last() } else { a } } }
// k times the largest weight
#[verifier::opaque]
pub open spec fn hops(wm: Seq<real>, k: int) -> real { k as real * wmax(wm) }
proof fn l_hops(wm: Seq<real>, k: int, l: int) requires 0 <= k <= l ensures 0real <= hops(wm, k) <= hops(wm, l) { reveal(hops); l_wmax0(wm); let M = wmax(wm); let a = k as real; let b = l as real; assert(0real <= a * M <= b * M) by (nonlinear_arith) requires 0real <= a <= b, M >= 0real; }
proof fn l_hops1(wm: Seq<real>, k: int) ensures hops(wm, k + 1) == hops(wm, k) + wmax(wm), hops(wm, 1) == wmax(wm) { reveal(hops); let M = wmax(wm); let a = k as real; let b = (k + 1) as real; assert(b * M == a * M + M) by (nonlinear_arith) requires b == a + 1real; assert(1real * M == M) by (nonlinear_arith); }
pub open spec fn pos(wm: Seq<real>) -> bool { forall|e: int| 0 <= e < wm.len() ==> #[trigger] wm[e] > 0real }
pub open spec fn ww(g: G, vs: Seq<int>, es: Seq<int>, s: int, t: int) -> bool {
  vs.len() == es.len() + 1 && vs[0] == s && vs.last() == t && vid(g, s) && forall|i: int| 0 <= i < es.len() ==> joins(g, #[trigger] es[i], vs[i], vs[i + 1]) && vid(g, vs[i + 1]) }
pub open spec fn reach_by(g: G, wm: Seq<real>, vs: Seq<int>, es: Seq<int>, s: int, t: int, W: real) -> bool { ww(g, vs, es, s, t) && wsum(wm, es) == W }
// W is the weight of some walk from s to t
pub open spec fn reach(g: G, wm: Seq<real>, s: int, t: int, W: real) -> bool { exists|vs: Seq<int>, es: Seq<int>| #[trigger] reach_by(g, wm, vs, es, s, t, W) }
pub open spec fn conned(g: G, s: int, t: int) -> bool { exists|vs: Seq<int>, es: Seq<int>| #[trigger] ww(g, vs, es, s, t) }
// W is the distance from s to t
pub open spec fn dist_is(g: G, wm: Seq<real>, s: int, t: int, W: real) -> bool { reach(g, wm, s, t, W) && forall|vs: Seq<int>, es: Seq<int>| #[trigger] ww(g, vs, es, s, t) ==> W <= wsum(wm, es) }
proof fn l_wsum_push(wm: Seq<real>, es: Seq<int>, e: int) ensures wsum(wm, es.push(e)) == wsum(wm, es) + wm[e] { assert(es.push(e).drop_last() =~= es); }
proof fn l_wmax(wm: Seq<real>, e: int) requires 0 <= e < wm.len() ensures wm[e] <= wmax(wm), wmax(wm) >= 0real decreases wm.len() { l_wmax0(wm); if e < wm.len() - 1 { l_wmax(wm.drop_last(), e); assert(wm.drop_last()[e] == wm[e]); } }
proof fn l_wmax0(wm: Seq<real>) ensures wmax(wm) >= 0real decreases wm.len() { if wm.len() > 0 { l_wmax0(wm.drop_last()); } }
proof fn l_wmax_in(wm: Seq<real>) -> (e: int) requires wmax(wm) > 0real ensures 0 <= e < wm.len(), wm[e] == wmax(wm) decreases wm.len()
{ if wm.len() == 0 { 0 } else if wmax(wm.drop_last()) < wm.last() { wm.len() - 1 } else { let e = l_wmax_in(wm.drop_last()); assert(wm.drop_last()[e] == wm[e]); e } }
proof fn l_reach0(g: G, wm: Seq<real>, s: int) requires vid(g, s) ensures reach(g, wm, s, s, 0real) { assert(reach_by(g, wm, seq![s], Seq::<int>::empty(), s, s, 0real)); }
proof fn l_reach1(g: G, wm: Seq<real>, s: int, v: int, W: real, e: int, w: int) requires reach(g, wm, s, v, W), joins(g, e, v, w), vid(g, w) ensures reach(g, wm, s, w, W + wm[e])
{ let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] reach_by(g, wm, vs, es, s, v, W); let us = vs.push(w); let fs = es.push(e); l_wsum_push(wm, es, e);
  assert forall|i: int| 0 <= i < fs.len() implies joins(g, #[trigger] fs[i], us[i], us[i + 1]) && vid(g, us[i + 1]) by { if i < es.len() { assert(fs[i] == es[i] && us[i] == vs[i] && us[i + 1] == vs[i + 1]); } else { assert(us[i] == v); } }
  assert(reach_by(g, wm, us, fs, s, w, W + wm[e])); }
pub open spec fn dvis(s: int, pred: Seq<(bool, Edge)>, v: int) -> bool { v == s || pred[v].0 }
pub open spec fn dpred(g: G, wm: Seq<real>, s: int, dist: Seq<real>, pred: Seq<(bool, Edge)>, v: int) -> bool {
  let e = pred[v].1; let u = oth(g, e.id, v); pred[v].0 ==> edge_ok(g, e) && joins(g, e.id, u, v) && u != v && vid(g, u) && dvis(s, pred, u) && dist[v] == dist[u] + wm[e.id] }
pub open spec fn drel(g: G, wm: Seq<real>, s: int, dist: Seq<real>, pred: Seq<(bool, Edge)>, v: int, j: int) -> bool { let e = g.adj[v][j]; let w = oth(g, e, v); dvis(s, pred, w) && dist[w] <= dist[v] + wm[e] }
pub open spec fn dnode(g: G, wm: Seq<real>, s: int, dist: Seq<real>, pred: Seq<(bool, Edge)>, h: Map<int, real>, V: Set<int>, d: real, v: int) -> bool {
  dvis(s, pred, v) ==> reach(g, wm, s, v, dist[v]) && 0real <= dist[v] <= hops(wm, V.len() as int) && dpred(g, wm, s, dist, pred, v)
    && (pred[v].0 ==> V.contains(oth(g, pred[v].1.id, v))) && (h.contains_key(v) <==> !V.contains(v)) && (h.contains_key(v) ==> dist[v] >= d) && (V.contains(v) ==> dist[v] <= d) }
// h: heap; V: vertices taken from it; u: the vertex being scanned (-1: none), its first k edges are done; d: distance of the last vertex taken
#[verifier::opaque]
pub open spec fn dst(g: G, wm: Seq<real>, s: int, dist: Seq<real>, pred: Seq<(bool, Edge)>, h: Map<int, real>, V: Set<int>, u: int, k: int, d: real) -> bool {
  dist.len() == g.n && pred.len() == g.n && vid(g, s) && !pred[s].0 && dist[s] == 0real && d >= 0real && V.len() <= g.n
  && (forall|v: int| #[trigger] vid(g, v) ==> dnode(g, wm, s, dist, pred, h, V, d, v))
  && (forall|v: int| #[trigger] h.contains_key(v) ==> vid(g, v) && dvis(s, pred, v) && h[v] == dist[v])
  && (forall|v: int| #[trigger] V.contains(v) ==> vid(g, v) && dvis(s, pred, v))
  && (u >= 0 ==> V.contains(u) && dist[u] == d && d <= hops(wm, V.len() - 1) && forall|j: int| 0 <= j < k ==> #[trigger] drel(g, wm, s, dist, pred, u, j))
  && (forall|v: int, j: int| #[trigger] V.contains(v) && v != u && 0 <= j < g.adj[v].len() ==> #[trigger] drel(g, wm, s, dist, pred, v, j)) }
pub open spec fn dpre(g: G, wm: Seq<real>) -> bool { wf(g) && wm.len() == g.ends.len() && pos(wm) && hops(wm, g.n) < dmax() }
// what the search leaves behind: exact distances and a tree of tight edges
pub open spec fn dij_node(g: G, wm: Seq<real>, s: int, dist: Seq<real>, pred: Seq<(bool, Edge)>, v: int) -> bool {
  (dvis(s, pred, v) <==> conned(g, s, v)) && (dvis(s, pred, v) ==> dist_is(g, wm, s, v, dist[v]) && dpred(g, wm, s, dist, pred, v)) }
pub open spec fn dij_post(g: G, wm: Seq<real>, s: int, dist: Seq<real>, pred: Seq<(bool, Edge)>) -> bool {
  dist.len() == g.n && pred.len() == g.n && !pred[s].0 && dist[s] == 0real && forall|v: int| #[trigger] vid(g, v) ==> dij_node(g, wm, s, dist, pred, v) }
proof fn l_dij0(g: G, wm: Seq<real>, s: int, dist: Seq<real>, pred: Seq<(bool, Edge)>, h: Map<int, real>)
  requires dpre(g, wm), vid(g, s), dist.len() == g.n, pred.len() == g.n, dist[s] == 0real, forall|v: int| 0 <= v < g.n ==> !(#[trigger] pred[v]).0, h =~= Map::<int, real>::empty().insert(s, 0real)
  ensures dst(g, wm, s, dist, pred, h, Set::empty(), -1, 0, 0real)
{ reveal(dst); l_reach0(g, wm, s); l_hops(wm, 0, 0); assert forall|v: int| #[trigger] vid(g, v) implies dnode(g, wm, s, dist, pred, h, Set::empty(), 0real, v) by { assert(!pred[v].0); } 
  assert forall|v: int| #[trigger] h.contains_key(v) implies v == s by {} }
proof fn l_dij_pop(g: G, wm: Seq<real>, s: int, dist: Seq<real>, pred: Seq<(bool, Edge)>, h: Map<int, real>, V: Set<int>, d: real, t: int)
  requires dpre(g, wm), dst(g, wm, s, dist, pred, h, V, -1, 0, d), h.contains_key(t), forall|y: int| #[trigger] h.contains_key(y) ==> !(h[y] < h[t])
  ensures vid(g, t), dst(g, wm, s, dist, pred, h.remove(t), V.insert(t), t, 0, dist[t])
{ reveal(dst); let r = h.remove(t); let W = V.insert(t); assert(vid(g, t)); assert(dnode(g, wm, s, dist, pred, h, V, d, t)); assert(!V.contains(t)); assert(W.len() == V.len() + 1); l_hops(wm, V.len() as int, W.len() as int);
  l_range(g.n); assert(W.subset_of(Set::range(0, g.n))) by { assert forall|x: int| W.contains(x) implies Set::range(0, g.n).contains(x) by { assert(vid(g, x)); } } vstd::set_lib::lemma_len_subset(W, Set::range(0, g.n));
  assert forall|v: int| #[trigger] vid(g, v) implies dnode(g, wm, s, dist, pred, r, W, dist[t], v) by { assert(dnode(g, wm, s, dist, pred, h, V, d, v)); if dvis(s, pred, v) { if r.contains_key(v) { assert(h.contains_key(v)); assert(!(h[v] < h[t])); } } }
  assert forall|v: int, j: int| #[trigger] W.contains(v) && v != t && 0 <= j < g.adj[v].len() implies #[trigger] drel(g, wm, s, dist, pred, v, j) by { assert(V.contains(v)); } }
proof fn l_dij_b(g: G, wm: Seq<real>, s: int, dist: Seq<real>, pred: Seq<(bool, Edge)>, h: Map<int, real>, V: Set<int>, u: int, k: int, d: real, w: int)
  requires dpre(g, wm), dst(g, wm, s, dist, pred, h, V, u, k, d), vid(g, u), 0 <= k < g.adj[u].len(), w == oth(g, g.adj[u][k], u)
  ensures vid(g, w), joins(g, g.adj[u][k], u, w), eid(g, g.adj[u][k]), wm[g.adj[u][k]] > 0real, wm[g.adj[u][k]] < dmax(), 0real <= d < dmax(), d == dist[u], dvis(s, pred, u), dist.len() == g.n, pred.len() == g.n,
    pred[w].0 && d + wm[g.adj[u][k]] < dist[w] ==> h.contains_key(w) && h[w] == dist[w], pred[w].0 || w == s || !h.contains_key(w)
{ reveal(dst); l_adj(g, u); let e = g.adj[u][k]; assert(joins(g, e, u, w) && vid(g, w)); assert(eid(g, e)); assert(wm[e] > 0real); l_wmax(wm, e); let M = wmax(wm); assert(V.contains(u)); assert(V.len() > 0) by { if V.len() == 0 { assert(V =~= Set::empty()); } }
  l_hops(wm, V.len() - 1, g.n); l_hops(wm, 1, g.n); l_hops1(wm, 0);
  assert(dnode(g, wm, s, dist, pred, h, V, d, w)); assert(dnode(g, wm, s, dist, pred, h, V, d, u)); }
proof fn l_dij_old(g: G, wm: Seq<real>, s: int, dist: Seq<real>, pred: Seq<(bool, Edge)>, h: Map<int, real>, V: Set<int>, u: int, k: int, d: real)
  requires dpre(g, wm), dst(g, wm, s, dist, pred, h, V, u, k, d), vid(g, u), 0 <= k < g.adj[u].len(), ({ let w = oth(g, g.adj[u][k], u); w == u || w == s || (pred[w].0 && !(d + wm[g.adj[u][k]] < dist[w])) })
  ensures dst(g, wm, s, dist, pred, h, V, u, k + 1, d)
{ let w = oth(g, g.adj[u][k], u); l_dij_b(g, wm, s, dist, pred, h, V, u, k, d, w); reveal(dst); assert(drel(g, wm, s, dist, pred, u, k)); }
proof fn l_dij_new(g: G, wm: Seq<real>, s: int, dist: Seq<real>, pred: Seq<(bool, Edge)>, h: Map<int, real>, V: Set<int>, u: int, k: int, d: real)
  requires dpre(g, wm), dst(g, wm, s, dist, pred, h, V, u, k, d), vid(g, u), 0 <= k < g.adj[u].len(), ({ let w = oth(g, g.adj[u][k], u); w != s && w != u && (!pred[w].0 || d + wm[g.adj[u][k]] <= dist[w]) })
  ensures ({ let e = g.adj[u][k]; let w = oth(g, e, u); let c = d + wm[e]; dst(g, wm, s, dist.update(w, c), pred.update(w, (true, out_edge(g, u, k))), h.insert(w, c), V, u, k + 1, d) })
{ let e = g.adj[u][k]; let w = oth(g, e, u); l_dij_b(g, wm, s, dist, pred, h, V, u, k, d, w); reveal(dst); let c = d + wm[e]; let D = dist.update(w, c); let P = pred.update(w, (true, out_edge(g, u, k))); let H = h.insert(w, c);
  assert(dnode(g, wm, s, dist, pred, h, V, d, w)); assert(dnode(g, wm, s, dist, pred, h, V, d, u)); l_reach1(g, wm, s, u, d, e, w); let M = wmax(wm); l_wmax(wm, e); assert(V.contains(u)); assert(V.len() > 0) by { if V.len() == 0 { assert(V =~= Set::empty()); } }
  l_hops1(wm, V.len() - 1);
  assert(!V.contains(w));
  assert forall|v: int| #[trigger] vid(g, v) implies dnode(g, wm, s, D, P, H, V, d, v) by { assert(dnode(g, wm, s, dist, pred, h, V, d, v));
    if v == w { let q = out_edge(g, u, k); assert(q.id == e && edge_ok(g, q)); assert(oth(g, e, w) == u); }
    else if dvis(s, P, v) { assert(dvis(s, pred, v)); if pred[v].0 { assert(oth(g, pred[v].1.id, v) != w); } } }
  assert forall|v: int| #[trigger] H.contains_key(v) implies vid(g, v) && dvis(s, P, v) && H[v] == D[v] by { if v != w { assert(h.contains_key(v)); } }
  assert forall|v: int, j: int| #[trigger] V.contains(v) && (v != u || j < k + 1) && 0 <= j < g.adj[v].len() implies #[trigger] drel(g, wm, s, D, P, v, j) by { l_adj(g, v); let x = oth(g, g.adj[v][j], v); assert(joins(g, g.adj[v][j], v, x) && vid(g, x)); if v != u || j < k { assert(drel(g, wm, s, dist, pred, v, j)); } } }
proof fn l_dij_scanned(g: G, wm: Seq<real>, s: int, dist: Seq<real>, pred: Seq<(bool, Edge)>, h: Map<int, real>, V: Set<int>, u: int, d: real)
  requires dst(g, wm, s, dist, pred, h, V, u, g.adj[u].len() as int, d), vid(g, u) ensures dst(g, wm, s, dist, pred, h, V, -1, 0, d)
{ reveal(dst); }
// along a walk whose vertices are all done distances grow by at most the weight of each edge
proof fn l_dij_walk(g: G, wm: Seq<real>, s: int, dist: Seq<real>, pred: Seq<(bool, Edge)>, vs: Seq<int>, es: Seq<int>, t: int)
  requires wf(g), ww(g, vs, es, s, t), dist[s] == 0real, forall|v: int, j: int| #[trigger] vid(g, v) && dvis(s, pred, v) && 0 <= j < g.adj[v].len() ==> #[trigger] drel(g, wm, s, dist, pred, v, j)
  ensures dvis(s, pred, t), dist[t] <= wsum(wm, es), vid(g, t) decreases es.len()
{ if es.len() > 0 { let k = es.len() - 1; let v = vs[k]; let e = es[k]; let us = vs.drop_last(); let fs = es.drop_last(); assert(joins(g, es[k], vs[k], vs[k + 1]));
    assert forall|i: int| 0 <= i < fs.len() implies joins(g, #[trigger] fs[i], us[i], us[i + 1]) && vid(g, us[i + 1]) by { assert(fs[i] == es[i]); }
    l_dij_walk(g, wm, s, dist, pred, us, fs, v); l_adj(g, v); assert(inc(g, e, v)); assert(g.adj[v].contains(e)); let j = choose|j: int| 0 <= j < g.adj[v].len() && g.adj[v][j] == e; assert(drel(g, wm, s, dist, pred, v, j)); assert(oth(g, e, v) == t); } }
proof fn l_dij_end(g: G, wm: Seq<real>, s: int, dist: Seq<real>, pred: Seq<(bool, Edge)>, h: Map<int, real>, V: Set<int>, d: real)
  requires dpre(g, wm), dst(g, wm, s, dist, pred, h, V, -1, 0, d), h.len() == 0 ensures dij_post(g, wm, s, dist, pred)
{ reveal(dst); assert(h.dom() =~= Set::empty()) by { assert(h.dom().len() == 0); }
  assert forall|v: int| #[trigger] vid(g, v) && dvis(s, pred, v) implies V.contains(v) by { assert(dnode(g, wm, s, dist, pred, h, V, d, v)); assert(!h.dom().contains(v)); }
  assert forall|v: int| #[trigger] vid(g, v) implies dij_node(g, wm, s, dist, pred, v) by { assert(dnode(g, wm, s, dist, pred, h, V, d, v));
    assert forall|vs: Seq<int>, es: Seq<int>| #[trigger] ww(g, vs, es, s, v) implies dvis(s, pred, v) && dist[v] <= wsum(wm, es) by { l_dij_walk(g, wm, s, dist, pred, vs, es, v); }
    if dvis(s, pred, v) { let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] reach_by(g, wm, vs, es, s, v, dist[v]); assert(ww(g, vs, es, s, v)); } } }
proof fn l_dij_keys(g: G, wm: Seq<real>, s: int, dist: Seq<real>, pred: Seq<(bool, Edge)>, h: Map<int, real>, V: Set<int>, d: real)
  requires dst(g, wm, s, dist, pred, h, V, -1, 0, d) ensures forall|x: int| #[trigger] h.contains_key(x) ==> vid(g, x) && h[x] == dist[x] { reveal(dst); }
// ---- what the exact algorithms are asked for: a simple graph with positive weights
pub open spec fn simple(g: G) -> bool { no_loops(g) && forall|e: int, f: int, u: int, v: int| #[trigger] joins(g, e, u, v) && #[trigger] joins(g, f, u, v) ==> e == f }
pub open spec fn epre(g: G, wm: Seq<real>) -> bool { simple(g) && dpre(g, wm) && hops(wm, 4 * g.n) < dmax() }
