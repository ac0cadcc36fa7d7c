// ---- breadth-first search with a hop limit
pub open spec fn within_by(g: G, p: Seq<int>, s: int, t: int, h: int) -> bool { walk_uv(g, all_edges(g), p, s, t) && p.len() <= h + 1 }
// t is at most h edges away from s
pub open spec fn within(g: G, s: int, t: int, h: int) -> bool { exists|p: Seq<int>| #[trigger] within_by(g, p, s, t, h) }
pub open spec fn vis(s: int, pred: Seq<(bool, Edge)>, v: int) -> bool { v == s || pred[v].0 }
pub open spec fn bnb(g: G, s: int, dist: Seq<int>, pred: Seq<(bool, Edge)>, v: int, j: int) -> bool { let w = oth(g, g.adj[v][j], v); vis(s, pred, w) && dist[w] <= dist[v] + 1 }
pub open spec fn bdone(g: G, s: int, t: int, dist: Seq<int>, pred: Seq<(bool, Edge)>, v: int) -> bool { v != t && forall|j: int| 0 <= j < g.adj[v].len() ==> #[trigger] bnb(g, s, dist, pred, v, j) }
// V: visited vertices; u: the vertex being scanned (-1: none), its first k edges are done; d: distance of the last vertex taken from the queue
#[verifier::opaque]
pub open spec fn bst(g: G, s: int, t: int, dist: Seq<int>, pred: Seq<(bool, Edge)>, q: Seq<int>, V: Set<int>, u: int, k: int, d: int) -> bool {
  dist.len() == g.n && pred.len() == g.n && vid(g, s) && 0 <= d && dist[s] == 0 && V.contains(s)
  && (forall|v: int| #[trigger] vid(g, v) && vis(s, pred, v) ==> V.contains(v) && 0 <= dist[v] < V.len() && dist[v] <= d + 1 && within(g, s, v, dist[v]))
  && (forall|v: int| #[trigger] V.contains(v) ==> vid(g, v) && vis(s, pred, v)) && V.len() <= g.n
  && (forall|i: int| 0 <= i < q.len() ==> vid(g, #[trigger] q[i]) && vis(s, pred, q[i]) && d <= dist[q[i]] <= d + 1)
  && (forall|i: int, j: int| 0 <= i < j < q.len() ==> #[trigger] dist[q[i]] <= #[trigger] dist[q[j]])
  && (u >= 0 ==> vid(g, u) && vis(s, pred, u) && dist[u] == d && u != t && forall|j: int| 0 <= j < k ==> #[trigger] bnb(g, s, dist, pred, u, j))
  && (forall|v: int| #[trigger] vid(g, v) && vis(s, pred, v) ==> bdone(g, s, t, dist, pred, v) || q.contains(v) || v == u) }
proof fn l_within0(g: G, s: int, h: int) requires vid(g, s), h >= 0 ensures within(g, s, s, h) { let p = seq![s]; assert(within_by(g, p, s, s, h)); }
proof fn l_within1(g: G, s: int, v: int, w: int, e: int, h: int) requires within(g, s, v, h), joins(g, e, v, w), vid(g, w) ensures within(g, s, w, h + 1)
{ let p = choose|p: Seq<int>| #[trigger] within_by(g, p, s, v, h); let r = p.push(w); let a = all_edges(g);
  assert forall|i: int| 0 <= i < r.len() - 1 implies step(g, a, #[trigger] r[i], r[i + 1]) by { if i < p.len() - 1 { assert(r[i] == p[i] && r[i + 1] == p[i + 1]); } else { assert(r[i] == v); assert(a.contains(e)); } }
  assert forall|i: int| 0 <= i < r.len() implies 0 <= #[trigger] r[i] < g.n by { if i < p.len() { assert(r[i] == p[i]); } }
  assert(within_by(g, r, s, w, h + 1)); }
proof fn l_bfs0(g: G, s: int, t: int, dist: Seq<int>, pred: Seq<(bool, Edge)>, q: Seq<int>)
  requires vid(g, s), dist.len() == g.n, pred.len() == g.n, dist[s] == 0, forall|v: int| 0 <= v < g.n ==> !(#[trigger] pred[v]).0, q =~= seq![s]
  ensures bst(g, s, t, dist, pred, q, Set::empty().insert(s), -1, 0, 0)
{ reveal(bst); let V = Set::<int>::empty().insert(s); assert(V.len() == 1); l_within0(g, s, 0); assert(q[0] == s);
  assert forall|v: int| #[trigger] vid(g, v) && vis(s, pred, v) implies v == s by { assert(!pred[v].0); } }
proof fn l_bfs_pop(g: G, s: int, t: int, dist: Seq<int>, pred: Seq<(bool, Edge)>, q: Seq<int>, V: Set<int>, d: int)
  requires bst(g, s, t, dist, pred, q, V, -1, 0, d), q.len() > 0
  ensures vid(g, q[0]), q[0] != t ==> bst(g, s, t, dist, pred, q.drop_first(), V, q[0], 0, dist[q[0]]), 0 <= dist[q[0]] < V.len() <= g.n, bpop(g, s, t, dist, pred, q.drop_first(), V, q[0], dist[q[0]])
{ reveal(bst); reveal(bpop); let r = q.drop_first(); let u = q[0]; assert(vid(g, q[0]));
  assert forall|i: int| 0 <= i < r.len() implies vid(g, #[trigger] r[i]) && vis(s, pred, r[i]) && dist[u] <= dist[r[i]] <= dist[u] + 1 by { assert(r[i] == q[i + 1]); assert(vid(g, q[i + 1])); assert(dist[q[0]] <= dist[q[i + 1]]); }
  assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] dist[r[i]] <= #[trigger] dist[r[j]] by { assert(dist[q[i + 1]] <= dist[q[j + 1]]); }
  assert forall|v: int| #[trigger] vid(g, v) && vis(s, pred, v) implies bdone(g, s, t, dist, pred, v) || r.contains(v) || v == u by { if q.contains(v) && v != u { let i = choose|i: int| 0 <= i < q.len() && q[i] == v; assert(r[i - 1] == v); } } }
// the state just after the vertex u left the queue
#[verifier::opaque]
pub open spec fn bpop(g: G, s: int, t: int, dist: Seq<int>, pred: Seq<(bool, Edge)>, q: Seq<int>, V: Set<int>, u: int, d: int) -> bool {
  dist.len() == g.n && pred.len() == g.n && vid(g, s) && 0 <= d && dist[s] == 0 && vid(g, u) && vis(s, pred, u) && dist[u] == d
  && (forall|v: int| #[trigger] vid(g, v) && vis(s, pred, v) ==> within(g, s, v, dist[v]))
  && (forall|i: int| 0 <= i < q.len() ==> vid(g, #[trigger] q[i]) && d <= dist[q[i]])
  && (forall|v: int| #[trigger] vid(g, v) && vis(s, pred, v) ==> bdone(g, s, t, dist, pred, v) || q.contains(v) || v == u) }
proof fn l_bfs_hit(g: G, s: int, t: int, dist: Seq<int>, pred: Seq<(bool, Edge)>, q: Seq<int>, V: Set<int>, u: int, d: int, h: int)
  requires bpop(g, s, t, dist, pred, q, V, u, d), d <= h, u == t ensures within(g, s, t, h)
{ reveal(bpop); assert(vid(g, u)); let p = choose|p: Seq<int>| #[trigger] within_by(g, p, s, u, dist[u]); assert(within_by(g, p, s, t, h)); }
// along a walk whose vertices are all done, distances grow by at most one per edge
proof fn l_bfs_walk(g: G, s: int, t: int, dist: Seq<int>, pred: Seq<(bool, Edge)>, p: Seq<int>, k: int)
  requires wf(g), dist.len() == g.n, vid(g, s), dist[s] == 0, walk(g, all_edges(g), p), p[0] == s, 0 <= k < p.len(),
    forall|v: int| #[trigger] vid(g, v) && vis(s, pred, v) && dist[v] < p.len() ==> bdone(g, s, t, dist, pred, v)
  ensures vis(s, pred, p[k]), dist[p[k]] <= k, p[k] != t decreases k
{ if k == 0 { assert(vid(g, s)); } else { l_bfs_walk(g, s, t, dist, pred, p, k - 1); let v = p[k - 1]; let w = p[k]; assert(0 <= p[k] < g.n && 0 <= p[k - 1] < g.n); assert(vid(g, v)); assert(vid(g, w)); assert(bdone(g, s, t, dist, pred, v));
    assert(step(g, all_edges(g), p[k - 1], p[k - 1 + 1])); let e = choose|e: int| all_edges(g).contains(e) && #[trigger] joins(g, e, v, w); l_adj(g, v); assert(inc(g, e, v)); assert(g.adj[v].contains(e));
    let j = choose|j: int| 0 <= j < g.adj[v].len() && g.adj[v][j] == e; assert(bnb(g, s, dist, pred, v, j)); assert(oth(g, e, v) == w); } }
proof fn l_bfs_none(g: G, s: int, t: int, dist: Seq<int>, pred: Seq<(bool, Edge)>, h: int)
  requires wf(g), dist.len() == g.n, vid(g, s), dist[s] == 0, forall|v: int| #[trigger] vid(g, v) && vis(s, pred, v) && dist[v] <= h ==> bdone(g, s, t, dist, pred, v)
  ensures !within(g, s, t, h)
{ if within(g, s, t, h) { let p = choose|p: Seq<int>| #[trigger] within_by(g, p, s, t, h); l_bfs_walk(g, s, t, dist, pred, p, p.len() - 1); } }
proof fn l_bfs_far(g: G, s: int, t: int, dist: Seq<int>, pred: Seq<(bool, Edge)>, q: Seq<int>, V: Set<int>, u: int, d: int, h: int)
  requires wf(g), bpop(g, s, t, dist, pred, q, V, u, d), d > h ensures !within(g, s, t, h)
{ reveal(bpop);
  assert forall|v: int| #[trigger] vid(g, v) && vis(s, pred, v) && dist[v] <= h implies bdone(g, s, t, dist, pred, v) by { if q.contains(v) { let i = choose|i: int| 0 <= i < q.len() && q[i] == v; assert(vid(g, q[i])); } }
  l_bfs_none(g, s, t, dist, pred, h); }
proof fn l_bfs_end(g: G, s: int, t: int, dist: Seq<int>, pred: Seq<(bool, Edge)>, q: Seq<int>, V: Set<int>, d: int, h: int)
  requires wf(g), bst(g, s, t, dist, pred, q, V, -1, 0, d), q.len() == 0 ensures !within(g, s, t, h)
{ reveal(bst); l_bfs_none(g, s, t, dist, pred, h); }
proof fn l_bfs_st(g: G, s: int, t: int, dist: Seq<int>, pred: Seq<(bool, Edge)>, q: Seq<int>, V: Set<int>, u: int, k: int, d: int, w: int)
  requires bst(g, s, t, dist, pred, q, V, u, k, d), u >= 0 ensures 0 <= d, V.len() <= g.n, vis(s, pred, u) { reveal(bst); }
proof fn l_bfs_old(g: G, s: int, t: int, dist: Seq<int>, pred: Seq<(bool, Edge)>, q: Seq<int>, V: Set<int>, u: int, k: int, d: int)
  requires wf(g), bst(g, s, t, dist, pred, q, V, u, k, d), vid(g, u), 0 <= k < g.adj[u].len(), vis(s, pred, oth(g, g.adj[u][k], u))
  ensures bst(g, s, t, dist, pred, q, V, u, k + 1, d)
{ reveal(bst); l_adj(g, u); let w = oth(g, g.adj[u][k], u); let e = g.adj[u][k]; assert(joins(g, e, u, w) && vid(g, w));
  assert(bnb(g, s, dist, pred, u, k)); }
proof fn l_bfs_new(g: G, s: int, t: int, dist: Seq<int>, pred: Seq<(bool, Edge)>, q: Seq<int>, V: Set<int>, u: int, k: int, d: int)
  requires wf(g), bst(g, s, t, dist, pred, q, V, u, k, d), vid(g, u), 0 <= k < g.adj[u].len(), !vis(s, pred, oth(g, g.adj[u][k], u))
  ensures ({ let w = oth(g, g.adj[u][k], u); bst(g, s, t, dist.update(w, d + 1), pred.update(w, (true, out_edge(g, u, k))), q.push(w), V.insert(w), u, k + 1, d) && V.insert(w).len() == V.len() + 1 && V.insert(w).len() <= g.n })
{ reveal(bst); l_adj(g, u); let e = g.adj[u][k]; let w = oth(g, e, u); assert(joins(g, e, u, w) && vid(g, w));
  let D = dist.update(w, d + 1); let P = pred.update(w, (true, out_edge(g, u, k))); let Q = q.push(w); let W = V.insert(w);
  assert(!V.contains(w)); assert(V.contains(u));
  assert(W.len() <= g.n) by { l_range(g.n); assert(W.subset_of(Set::range(0, g.n))) by { assert forall|x: int| W.contains(x) implies Set::range(0, g.n).contains(x) by { assert(vid(g, x)); } } vstd::set_lib::lemma_len_subset(W, Set::range(0, g.n)); }
  l_within1(g, s, u, w, e, d);
  assert forall|v: int| #[trigger] vid(g, v) && vis(s, P, v) implies W.contains(v) && 0 <= D[v] < W.len() && D[v] <= d + 1 && within(g, s, v, D[v]) by { if v != w { assert(vis(s, pred, v)); } else { assert(vis(s, pred, u)); assert(0 <= dist[u] < V.len()); } }
  assert forall|i: int| 0 <= i < Q.len() implies vid(g, #[trigger] Q[i]) && vis(s, P, Q[i]) && d <= D[Q[i]] <= d + 1 by { if i < q.len() { assert(Q[i] == q[i]); assert(vid(g, q[i])); } }
  assert forall|i: int, j: int| 0 <= i < j < Q.len() implies #[trigger] D[Q[i]] <= #[trigger] D[Q[j]] by { assert(Q[i] == q[i]); assert(vid(g, q[i])); assert(q[i] != w); if j < q.len() { assert(Q[j] == q[j]); assert(vid(g, q[j])); assert(dist[q[i]] <= dist[q[j]]); } else { assert(dist[q[i]] <= d + 1); } }
  assert forall|j: int| 0 <= j < k + 1 implies #[trigger] bnb(g, s, D, P, u, j) by { if j < k { assert(bnb(g, s, dist, pred, u, j)); } }
  assert forall|v: int| #[trigger] vid(g, v) && vis(s, P, v) implies bdone(g, s, t, D, P, v) || Q.contains(v) || v == u by {
    if v == w { assert(Q[q.len() as int] == w); } else { assert(vis(s, pred, v)); if q.contains(v) { let i = choose|i: int| 0 <= i < q.len() && q[i] == v; assert(Q[i] == v); }
      else if v != u { assert(bdone(g, s, t, dist, pred, v)); assert forall|j: int| 0 <= j < g.adj[v].len() implies #[trigger] bnb(g, s, D, P, v, j) by { assert(bnb(g, s, dist, pred, v, j)); assert(oth(g, g.adj[v][j], v) != w); } } } } }
proof fn l_bfs_scanned(g: G, s: int, t: int, dist: Seq<int>, pred: Seq<(bool, Edge)>, q: Seq<int>, V: Set<int>, u: int, d: int)
  requires bst(g, s, t, dist, pred, q, V, u, g.adj[u].len() as int, d), vid(g, u) ensures bst(g, s, t, dist, pred, q, V, -1, 0, d)
{ reveal(bst); assert forall|v: int| #[trigger] vid(g, v) && vis(s, pred, v) implies bdone(g, s, t, dist, pred, v) || q.contains(v) by { if v == u { assert(bdone(g, s, t, dist, pred, u)); } } }
