// ---- shortest paths with lexicographic labels (distance, number of edges, set of vertices)
pub struct LexDistance { pub distance: real, pub edge_count: int, pub vertex_indices: Set<int> }
// x is the smallest number that is in one of the sets only, and it is in A
pub open spec fn fdiff(a: Set<int>, b: Set<int>, x: int) -> bool { a.contains(x) && !b.contains(x) && forall|y: int| y < x ==> (#[trigger] a.contains(y) <==> b.contains(y)) }
pub open spec fn setlt(a: Set<int>, b: Set<int>) -> bool { a != b && (a.subset_of(b) || (!b.subset_of(a) && exists|x: int| #[trigger] fdiff(a, b, x))) }
pub open spec fn lexlt(a: LexDistance, b: LexDistance) -> bool {
  a.distance < b.distance || (a.distance == b.distance && (a.edge_count < b.edge_count || (a.edge_count == b.edge_count && setlt(a.vertex_indices, b.vertex_indices)))) }
// the labels of simple paths
pub open spec fn lok(l: LexDistance) -> bool { l.vertex_indices.len() == l.edge_count + 1 }
proof fn l_fd_min(a: Set<int>, b: Set<int>) -> (x: int) requires a.difference(b).len() > 0, b.difference(a).len() > 0
  ensures set_sorted(a.difference(b)).len() > 0, set_sorted(b.difference(a)).len() > 0,
    set_sorted(a.difference(b))[0] < set_sorted(b.difference(a))[0] ==> fdiff(a, b, set_sorted(a.difference(b))[0]),
    set_sorted(a.difference(b))[0] > set_sorted(b.difference(a))[0] ==> fdiff(b, a, set_sorted(b.difference(a))[0]),
    set_sorted(a.difference(b))[0] != set_sorted(b.difference(a))[0]
{ let p = a.difference(b); let q = b.difference(a); ax_set_sorted(p); ax_set_sorted(q); let u = set_sorted(p); let v = set_sorted(q); assert(u.contains(u[0]) && v.contains(v[0])); assert(p.contains(u[0]) && q.contains(v[0]));
  assert forall|y: int| y < u[0] implies !p.contains(y) by { if p.contains(y) { let i = choose|i: int| 0 <= i < u.len() && u[i] == y; assert(i == 0 || u[0] < u[i]); } }
  assert forall|y: int| y < v[0] implies !q.contains(y) by { if q.contains(y) { let i = choose|i: int| 0 <= i < v.len() && v[i] == y; assert(i == 0 || v[0] < v[i]); } }
  assert forall|y: int| y < u[0] && y < v[0] implies (#[trigger] a.contains(y) <==> b.contains(y)) by { assert(!p.contains(y) && !q.contains(y)); }
  if u[0] < v[0] { assert(fdiff(a, b, u[0])); } else { assert(u[0] != v[0]); assert(fdiff(b, a, v[0])); } u[0] }
proof fn l_fd_asym(a: Set<int>, b: Set<int>, x: int, y: int) requires fdiff(a, b, x), fdiff(b, a, y) ensures false { if x < y { assert(b.contains(x) <==> a.contains(x)); } else if y < x { assert(a.contains(y) <==> b.contains(y)); } }
// the comparison made by the code
proof fn l_setcmp(a: Set<int>, b: Set<int>)
  ensures a.difference(b).len() == 0 <==> a.subset_of(b), b.difference(a).len() == 0 <==> b.subset_of(a), a.subset_of(b) && b.subset_of(a) ==> a == b,
    a.difference(b).len() > 0 && b.difference(a).len() > 0 ==> set_sorted(a.difference(b)).len() > 0 && set_sorted(b.difference(a)).len() > 0 && (setlt(a, b) <==> set_sorted(a.difference(b))[0] < set_sorted(b.difference(a))[0])
{ let p = a.difference(b); let q = b.difference(a);
  if p.len() == 0 { assert forall|x: int| a.contains(x) implies b.contains(x) by { if !b.contains(x) { assert(p.contains(x)); assert(p =~= Set::empty()); } } } else if a.subset_of(b) { assert(p =~= Set::empty()); }
  if q.len() == 0 { assert forall|x: int| b.contains(x) implies a.contains(x) by { if !a.contains(x) { assert(q.contains(x)); assert(q =~= Set::empty()); } } } else if b.subset_of(a) { assert(q =~= Set::empty()); }
  if a.subset_of(b) && b.subset_of(a) { assert(a =~= b); }
  if p.len() > 0 && q.len() > 0 { let x = l_fd_min(a, b); let u = set_sorted(p); let v = set_sorted(q);
    if u[0] < v[0] { assert(fdiff(a, b, u[0])); } else if setlt(a, b) { let z = choose|z: int| #[trigger] fdiff(a, b, z); l_fd_asym(a, b, z, v[0]); } } }
// sets of the same size: a strict total order
proof fn l_set_sub(a: Set<int>, b: Set<int>) requires a.subset_of(b), a.len() == b.len() ensures a == b { vstd::set_lib::lemma_subset_equality(a, b); }
proof fn l_setlt_ex(a: Set<int>, b: Set<int>) requires a.len() == b.len() ensures setlt(a, b) <==> exists|x: int| #[trigger] fdiff(a, b, x)
{ if a.subset_of(b) { l_set_sub(a, b); } if b.subset_of(a) { l_set_sub(b, a); } if exists|x: int| #[trigger] fdiff(a, b, x) { let x = choose|x: int| #[trigger] fdiff(a, b, x); assert(a != b); } }
proof fn l_setlt_total(a: Set<int>, b: Set<int>) requires a.len() == b.len() ensures a == b || setlt(a, b) || setlt(b, a), !(setlt(a, b) && setlt(b, a)), a == b ==> !setlt(a, b)
{ l_setlt_ex(a, b); l_setlt_ex(b, a); l_setcmp(a, b); if a.subset_of(b) { l_set_sub(a, b); } else if b.subset_of(a) { l_set_sub(b, a); } else { let x = l_fd_min(a, b); }
  if setlt(a, b) && setlt(b, a) { let x = choose|x: int| #[trigger] fdiff(a, b, x); let y = choose|y: int| #[trigger] fdiff(b, a, y); l_fd_asym(a, b, x, y); } }
proof fn l_setlt_trans(a: Set<int>, b: Set<int>, c: Set<int>) requires a.len() == b.len(), b.len() == c.len(), setlt(a, b), setlt(b, c) ensures setlt(a, c)
{ l_setlt_ex(a, b); l_setlt_ex(b, c); l_setlt_ex(a, c); let x = choose|x: int| #[trigger] fdiff(a, b, x); let y = choose|y: int| #[trigger] fdiff(b, c, y);
  let z = if x < y { x } else { y };
  assert(b.contains(z) <==> (if x < y { c.contains(z) } else { true }));
  assert(fdiff(a, c, z)) by { if x < y { assert(b.contains(x) <==> c.contains(x)); } else if y < x { assert(a.contains(y) <==> b.contains(y)); }
    assert forall|t: int| t < z implies (#[trigger] a.contains(t) <==> c.contains(t)) by { assert(a.contains(t) <==> b.contains(t)); assert(b.contains(t) <==> c.contains(t)); } } }
proof fn l_lex_total(a: LexDistance, b: LexDistance) requires lok(a), lok(b) ensures a == b || lexlt(a, b) || lexlt(b, a), !(lexlt(a, b) && lexlt(b, a)), a == b ==> !lexlt(a, b)
{ if a.edge_count == b.edge_count { l_setlt_total(a.vertex_indices, b.vertex_indices); } }
proof fn l_lex_trans(a: LexDistance, b: LexDistance, c: LexDistance) requires lok(a), lok(b), lok(c), lexlt(a, b), lexlt(b, c) ensures lexlt(a, c)
{ if a.edge_count == b.edge_count && b.edge_count == c.edge_count && a.distance == b.distance && b.distance == c.distance { l_setlt_trans(a.vertex_indices, b.vertex_indices, c.vertex_indices); } }
proof fn l_lex_ntrans(a: LexDistance, b: LexDistance, c: LexDistance) requires lok(a), lok(b), lok(c), !lexlt(a, b), !lexlt(b, c) ensures !lexlt(a, c)
{ if lexlt(a, c) { l_lex_total(a, b); l_lex_total(b, c); l_lex_total(a, c); if a != b && b != c { l_lex_trans(a, c, b); } } }
proof fn l_lex_heap(h: Map<int, LexDistance>) requires forall|x: int| #[trigger] h.contains_key(x) ==> lok(h[x])
  ensures forall|i: int, j: int| #![trigger h[i], h[j]] h.contains_key(i) && h.contains_key(j) ==> !(lexlt(h[i], h[j]) && lexlt(h[j], h[i])),
    forall|i: int, j: int, k: int| #![trigger h[i], h[j], h[k]] h.contains_key(i) && h.contains_key(j) && h.contains_key(k) && !lexlt(h[i], h[j]) && !lexlt(h[j], h[k]) ==> !lexlt(h[i], h[k])
{ assert forall|i: int, j: int| #![trigger h[i], h[j]] h.contains_key(i) && h.contains_key(j) implies !(lexlt(h[i], h[j]) && lexlt(h[j], h[i])) by { l_lex_total(h[i], h[j]); }
  assert forall|i: int, j: int, k: int| #![trigger h[i], h[j], h[k]] h.contains_key(i) && h.contains_key(j) && h.contains_key(k) && !lexlt(h[i], h[j]) && !lexlt(h[j], h[k]) implies !lexlt(h[i], h[k]) by { l_lex_ntrans(h[i], h[j], h[k]); } }
// ---- the search
pub open spec fn lexd(l: Seq<LexDistance>) -> Seq<real> { Seq::new(l.len(), |i: int| l[i].distance) }
pub open spec fn hpd(h: Map<int, LexDistance>) -> Map<int, real> { h.map_values(|l: LexDistance| l.distance) }
pub open spec fn lcomb(l: LexDistance, w: real, v: int) -> LexDistance { LexDistance { distance: l.distance + w, edge_count: l.edge_count + 1, vertex_indices: l.vertex_indices.insert(v) } }
pub open spec fn lab0(s: int) -> LexDistance { LexDistance { distance: 0real, edge_count: 0, vertex_indices: Set::<int>::empty().insert(s) } }
pub open spec fn lrel(g: G, wm: Seq<real>, s: int, lex: Seq<LexDistance>, v: int, j: int) -> bool { let e = g.adj[v][j]; let w = oth(g, e, v); w == s || w == v || !lexlt(lcomb(lex[v], wm[e], w), lex[w]) }
pub open spec fn lin(g: G, s: int, lex: Seq<LexDistance>, pred: Seq<(bool, Edge)>, V: Set<int>, v: int, x: int) -> bool { vid(g, x) && dvis(s, pred, x) && lex[x].distance <= lex[v].distance && (x != v ==> V.contains(x)) }
pub open spec fn lnode(g: G, wm: Seq<real>, s: int, lex: Seq<LexDistance>, pred: Seq<(bool, Edge)>, V: Set<int>, v: int) -> bool {
  let e = pred[v].1.id; let u = oth(g, e, v);
  lok(lex[v]) && lex[v].vertex_indices.contains(v) && (forall|x: int| #[trigger] lex[v].vertex_indices.contains(x) ==> lin(g, s, lex, pred, V, v, x))
  && (pred[v].0 ==> lex[v] == lcomb(lex[u], wm[e], v)) }
#[verifier::opaque]
pub open spec fn lst(g: G, wm: Seq<real>, s: int, lex: Seq<LexDistance>, pred: Seq<(bool, Edge)>, h: Map<int, LexDistance>, V: Set<int>, u: int, k: int) -> bool {
  lex.len() == g.n && pred.len() == g.n && lex[s] == lab0(s)
  && (forall|v: int| #[trigger] vid(g, v) && dvis(s, pred, v) ==> lnode(g, wm, s, lex, pred, V, v))
  && (forall|v: int| #[trigger] h.contains_key(v) ==> vid(g, v) && dvis(s, pred, v) && h[v] == lex[v])
  && (u >= 0 ==> forall|j: int| 0 <= j < k ==> #[trigger] lrel(g, wm, s, lex, u, j))
  && (forall|v: int, j: int| #[trigger] V.contains(v) && v != u && 0 <= j < g.adj[v].len() ==> #[trigger] lrel(g, wm, s, lex, v, j)) }
pub open spec fn ldst(g: G, wm: Seq<real>, s: int, lex: Seq<LexDistance>, pred: Seq<(bool, Edge)>, h: Map<int, LexDistance>, V: Set<int>, u: int, k: int, d: real) -> bool {
  dst(g, wm, s, lexd(lex), pred, hpd(h), V, u, k, d) && lst(g, wm, s, lex, pred, h, V, u, k) }
proof fn l_hpd(h: Map<int, LexDistance>, k: int, v: LexDistance) ensures hpd(h.insert(k, v)) =~= hpd(h).insert(k, v.distance), hpd(h.remove(k)) =~= hpd(h).remove(k), hpd(h).len() == h.len(), forall|x: int| #[trigger] hpd(h).contains_key(x) <==> h.contains_key(x), forall|x: int| #[trigger] h.contains_key(x) ==> hpd(h)[x] == h[x].distance
{ assert(hpd(h).dom() =~= h.dom()); }
proof fn l_lex0(g: G, wm: Seq<real>, s: int, lex: Seq<LexDistance>, pred: Seq<(bool, Edge)>, h: Map<int, LexDistance>)
  requires dpre(g, wm), vid(g, s), lex.len() == g.n, pred.len() == g.n, lex[s] == lab0(s), forall|v: int| 0 <= v < g.n ==> !(#[trigger] pred[v]).0, h =~= Map::<int, LexDistance>::empty().insert(s, lab0(s))
  ensures ldst(g, wm, s, lex, pred, h, Set::empty(), -1, 0, 0real)
{ reveal(lst); l_hpd(Map::<int, LexDistance>::empty(), s, lab0(s)); assert(hpd(Map::<int, LexDistance>::empty()) =~= Map::<int, real>::empty()); assert(hpd(h) =~= Map::<int, real>::empty().insert(s, 0real)); l_dij0(g, wm, s, lexd(lex), pred, hpd(h));
  assert forall|v: int| #[trigger] vid(g, v) && dvis(s, pred, v) implies lnode(g, wm, s, lex, pred, Set::empty(), v) by { assert(!pred[v].0); assert(v == s); assert forall|x: int| #[trigger] lex[v].vertex_indices.contains(x) implies lin(g, s, lex, pred, Set::empty(), v, x) by { assert(x == s); } } }
proof fn l_lex_keys(g: G, wm: Seq<real>, s: int, lex: Seq<LexDistance>, pred: Seq<(bool, Edge)>, h: Map<int, LexDistance>, V: Set<int>, d: real)
  requires ldst(g, wm, s, lex, pred, h, V, -1, 0, d)
  ensures forall|x: int| #[trigger] h.contains_key(x) ==> vid(g, x) && h[x] == lex[x] && lok(h[x]), forall|i: int, j: int| #![trigger h[i], h[j]] h.contains_key(i) && h.contains_key(j) ==> !(lexlt(h[i], h[j]) && lexlt(h[j], h[i])),
    forall|i: int, j: int, k: int| #![trigger h[i], h[j], h[k]] h.contains_key(i) && h.contains_key(j) && h.contains_key(k) && !lexlt(h[i], h[j]) && !lexlt(h[j], h[k]) ==> !lexlt(h[i], h[k])
{ reveal(lst); assert forall|x: int| #[trigger] h.contains_key(x) implies vid(g, x) && h[x] == lex[x] && lok(h[x]) by { assert(vid(g, x) && dvis(s, pred, x)); assert(lnode(g, wm, s, lex, pred, V, x)); } l_lex_heap(h); }
proof fn l_lex_pop(g: G, wm: Seq<real>, s: int, lex: Seq<LexDistance>, pred: Seq<(bool, Edge)>, h: Map<int, LexDistance>, V: Set<int>, d: real, t: int)
  requires dpre(g, wm), ldst(g, wm, s, lex, pred, h, V, -1, 0, d), h.contains_key(t), forall|y: int| #[trigger] h.contains_key(y) ==> !lexlt(h[y], h[t])
  ensures vid(g, t), ldst(g, wm, s, lex, pred, h.remove(t), V.insert(t), t, 0, lex[t].distance)
{ l_hpd(h, t, h[t]); assert forall|y: int| #[trigger] hpd(h).contains_key(y) implies !(hpd(h)[y] < hpd(h)[t]) by { assert(h.contains_key(y)); }
  l_dij_pop(g, wm, s, lexd(lex), pred, hpd(h), V, d, t); reveal(lst); let W = V.insert(t); assert(vid(g, t));
  assert forall|v: int| #[trigger] vid(g, v) && dvis(s, pred, v) implies lnode(g, wm, s, lex, pred, W, v) by { assert(lnode(g, wm, s, lex, pred, V, v)); assert forall|x: int| #[trigger] lex[v].vertex_indices.contains(x) implies lin(g, s, lex, pred, W, v, x) by { assert(lin(g, s, lex, pred, V, v, x)); } }
  assert forall|v: int, j: int| #[trigger] W.contains(v) && v != t && 0 <= j < g.adj[v].len() implies #[trigger] lrel(g, wm, s, lex, v, j) by { assert(V.contains(v)); assert(vid(g, v)) by { reveal(dst); } } }
// the label of a neighbour is only replaced while the neighbour is in the heap
proof fn l_lex_b(g: G, wm: Seq<real>, s: int, lex: Seq<LexDistance>, pred: Seq<(bool, Edge)>, h: Map<int, LexDistance>, V: Set<int>, u: int, k: int, d: real, w: int)
  requires dpre(g, wm), ldst(g, wm, s, lex, pred, h, V, u, k, d), vid(g, u), 0 <= k < g.adj[u].len(), w == oth(g, g.adj[u][k], u)
  ensures vid(g, w), joins(g, g.adj[u][k], u, w), eid(g, g.adj[u][k]), wm[g.adj[u][k]] > 0real, wm[g.adj[u][k]] < dmax(), 0real <= d < dmax(), d == lex[u].distance, dvis(s, pred, u), lex.len() == g.n, pred.len() == g.n, lok(lex[u]), lex[u].vertex_indices.contains(u), 0 <= lex[u].edge_count < g.n, V.contains(u),
    pred[w].0 || w == s ==> lok(lex[w]),
    ({ let c = lcomb(lex[u], wm[g.adj[u][k]], w);
      (pred[w].0 && lexlt(c, lex[w]) ==> h.contains_key(w) && h[w] == lex[w] && lok(c) && !lexlt(lex[w], c) && c.distance <= lex[w].distance) && (!pred[w].0 && w != s ==> !h.contains_key(w) && lok(c)) && (pred[w].0 || w == s || !h.contains_key(w))
      && (w != s && w != u && (!pred[w].0 || lexlt(c, lex[w])) ==> !V.contains(w) && !lex[u].vertex_indices.contains(w)) })
{ let e = g.adj[u][k]; l_hpd(h, u, h[u]); l_dij_b(g, wm, s, lexd(lex), pred, hpd(h), V, u, k, d, w); reveal(lst); reveal(dst); assert(V.contains(u)); assert(lnode(g, wm, s, lex, pred, V, u)); let c = lcomb(lex[u], wm[e], w); let S = lex[u].vertex_indices;
  l_range(g.n); assert(S.subset_of(Set::range(0, g.n))) by { assert forall|x: int| S.contains(x) implies Set::range(0, g.n).contains(x) by { assert(lin(g, s, lex, pred, V, u, x)); } } vstd::set_lib::lemma_len_subset(S, Set::range(0, g.n));
  assert(dnode(g, wm, s, lexd(lex), pred, hpd(h), V, d, w));
  if pred[w].0 || w == s { assert(lnode(g, wm, s, lex, pred, V, w)); }
  if w != s && w != u && (!pred[w].0 || lexlt(c, lex[w])) {
    if V.contains(w) { assert(dvis(s, pred, w)); assert(lexd(lex)[w] <= d); assert(false); }
    if S.contains(w) { assert(lin(g, s, lex, pred, V, u, w)); assert(false); }
    assert(c.vertex_indices.len() == S.len() + 1);
    if pred[w].0 { assert(lok(lex[w])); l_lex_total(c, lex[w]); assert(hpd(h).contains_key(w)); assert(h.contains_key(w)); } }
  if w == u && pred[w].0 && lexlt(c, lex[w]) { assert(c.distance > lex[w].distance); }
  if w == s && pred[w].0 { } }
proof fn l_lex_old(g: G, wm: Seq<real>, s: int, lex: Seq<LexDistance>, pred: Seq<(bool, Edge)>, h: Map<int, LexDistance>, V: Set<int>, u: int, k: int, d: real)
  requires dpre(g, wm), ldst(g, wm, s, lex, pred, h, V, u, k, d), vid(g, u), 0 <= k < g.adj[u].len(), ({ let w = oth(g, g.adj[u][k], u); w == u || w == s || (pred[w].0 && !lexlt(lcomb(lex[u], wm[g.adj[u][k]], w), lex[w])) })
  ensures ldst(g, wm, s, lex, pred, h, V, u, k + 1, d)
{ let w = oth(g, g.adj[u][k], u); l_lex_b(g, wm, s, lex, pred, h, V, u, k, d, w); l_dij_old(g, wm, s, lexd(lex), pred, hpd(h), V, u, k, d); reveal(lst); assert(lrel(g, wm, s, lex, u, k)); }
proof fn l_lex_new(g: G, wm: Seq<real>, s: int, lex: Seq<LexDistance>, pred: Seq<(bool, Edge)>, h: Map<int, LexDistance>, V: Set<int>, u: int, k: int, d: real)
  requires dpre(g, wm), ldst(g, wm, s, lex, pred, h, V, u, k, d), vid(g, u), 0 <= k < g.adj[u].len(), ({ let w = oth(g, g.adj[u][k], u); w != s && w != u && (!pred[w].0 || lexlt(lcomb(lex[u], wm[g.adj[u][k]], w), lex[w])) })
  ensures ({ let e = g.adj[u][k]; let w = oth(g, e, u); let c = lcomb(lex[u], wm[e], w); ldst(g, wm, s, lex.update(w, c), pred.update(w, (true, out_edge(g, u, k))), h.insert(w, c), V, u, k + 1, d) })
{ let e = g.adj[u][k]; let w = oth(g, e, u); let c = lcomb(lex[u], wm[e], w); l_lex_b(g, wm, s, lex, pred, h, V, u, k, d, w); l_hpd(h, w, c);
  l_dij_new(g, wm, s, lexd(lex), pred, hpd(h), V, u, k, d); let L = lex.update(w, c); let P = pred.update(w, (true, out_edge(g, u, k))); let H = h.insert(w, c); assert(lexd(L) =~= lexd(lex).update(w, c.distance)); reveal(lst);
  assert(lnode(g, wm, s, lex, pred, V, u)); assert(oth(g, e, w) == u); let q = out_edge(g, u, k); assert(q.id == e);
  assert forall|v: int| #[trigger] vid(g, v) && dvis(s, P, v) implies lnode(g, wm, s, L, P, V, v) by {
    if v == w { assert(c.vertex_indices.contains(v)); assert forall|x: int| #[trigger] L[v].vertex_indices.contains(x) implies lin(g, s, L, P, V, v, x) by { if x != w { assert(lex[u].vertex_indices.contains(x)); assert(lin(g, s, lex, pred, V, u, x)); } } }
    else { assert(dvis(s, pred, v)); assert(lnode(g, wm, s, lex, pred, V, v)); assert forall|x: int| #[trigger] L[v].vertex_indices.contains(x) implies lin(g, s, L, P, V, v, x) by { assert(lin(g, s, lex, pred, V, v, x)); assert(x != w); }
      if pred[v].0 { reveal(dst); assert(dnode(g, wm, s, lexd(lex), pred, hpd(h), V, d, v)); assert(V.contains(oth(g, pred[v].1.id, v))); } } }
  assert forall|v: int, j: int| #[trigger] V.contains(v) && (v != u || j < k + 1) && 0 <= j < g.adj[v].len() implies #[trigger] lrel(g, wm, s, L, v, j) by {
    let f = g.adj[v][j]; let x = oth(g, f, v); assert(v != w);
    if v == u && j == k { l_lex_total(c, c); }
    else { assert(lrel(g, wm, s, lex, v, j)); if x == w && pred[w].0 { let a = lcomb(lex[v], wm[f], w); reveal(dst); assert(vid(g, v) && dvis(s, pred, v)); assert(lnode(g, wm, s, lex, pred, V, v)); if lexlt(a, c) {
          if lex[v].vertex_indices.contains(w) { assert(lin(g, s, lex, pred, V, v, w)); assert(false); } assert(lok(a)); l_lex_trans(a, c, lex[w]); } }
      else if x == w { reveal(dst); assert(drel(g, wm, s, lexd(lex), pred, v, j)); assert(false); } } }
  assert forall|j: int| 0 <= j < k + 1 implies #[trigger] lrel(g, wm, s, L, u, j) by { assert(V.contains(u)); } }
proof fn l_lex_scanned(g: G, wm: Seq<real>, s: int, lex: Seq<LexDistance>, pred: Seq<(bool, Edge)>, h: Map<int, LexDistance>, V: Set<int>, u: int, d: real)
  requires ldst(g, wm, s, lex, pred, h, V, u, g.adj[u].len() as int, d), vid(g, u) ensures ldst(g, wm, s, lex, pred, h, V, -1, 0, d)
{ l_dij_scanned(g, wm, s, lexd(lex), pred, hpd(h), V, u, d); reveal(lst); }
// ---- what the search leaves behind: labels that no edge can improve, and a tree of edges along which they are attained
pub open spec fn lfin(g: G, wm: Seq<real>, s: int, lex: Seq<LexDistance>, pred: Seq<(bool, Edge)>) -> bool {
  dij_post(g, wm, s, lexd(lex), pred) && exists|V: Set<int>| #[trigger] lfin_by(g, wm, s, lex, pred, V) }
pub open spec fn lfin_by(g: G, wm: Seq<real>, s: int, lex: Seq<LexDistance>, pred: Seq<(bool, Edge)>, V: Set<int>) -> bool {
  lst(g, wm, s, lex, pred, Map::empty(), V, -1, 0) && forall|v: int| #[trigger] vid(g, v) && dvis(s, pred, v) ==> V.contains(v) }
pub open spec fn ldij_post(g: G, wm: Seq<real>, s: int, dist: Seq<real>, pred: Seq<(bool, Edge)>) -> bool {
  dist.len() == g.n && dij_post(g, wm, s, dist.update(s, 0real), pred) && exists|lex: Seq<LexDistance>| #[trigger] lfin(g, wm, s, lex, pred) }
proof fn l_dij_post_ext(g: G, wm: Seq<real>, s: int, d1: Seq<real>, d2: Seq<real>, pred: Seq<(bool, Edge)>)
  requires dij_post(g, wm, s, d1, pred), d2.len() == g.n, vid(g, s), wf(g), forall|v: int| #[trigger] vid(g, v) && dvis(s, pred, v) ==> d2[v] == d1[v] ensures dij_post(g, wm, s, d2, pred)
{ assert(dvis(s, pred, s)); assert forall|v: int| #[trigger] vid(g, v) implies dij_node(g, wm, s, d2, pred, v) by { assert(dij_node(g, wm, s, d1, pred, v)); if dvis(s, pred, v) && pred[v].0 { let u = oth(g, pred[v].1.id, v); assert(vid(g, u) && dvis(s, pred, u)); } } }
proof fn l_lex_end(g: G, wm: Seq<real>, s: int, lex: Seq<LexDistance>, dist: Seq<real>, pred: Seq<(bool, Edge)>, h: Map<int, LexDistance>, V: Set<int>, d: real)
  requires dpre(g, wm), vid(g, s), ldst(g, wm, s, lex, pred, h, V, -1, 0, d), h.len() == 0, dist.len() == g.n, forall|v: int| #[trigger] vid(g, v) && pred[v].0 ==> dist[v] == lex[v].distance
  ensures ldij_post(g, wm, s, dist, pred)
{ l_hpd(h, s, lex[s]); l_dij_end(g, wm, s, lexd(lex), pred, hpd(h), V, d); reveal(lst); assert(h.dom() =~= Set::empty()) by { assert(h.dom().len() == 0); } assert(h =~= Map::empty());
  assert(lfin_by(g, wm, s, lex, pred, V)) by { reveal(dst); assert forall|v: int| #[trigger] vid(g, v) && dvis(s, pred, v) implies V.contains(v) by { assert(dnode(g, wm, s, lexd(lex), pred, hpd(h), V, d, v)); assert(!h.dom().contains(v)); } }
  assert(lfin(g, wm, s, lex, pred)); l_dij_post_ext(g, wm, s, lexd(lex), dist.update(s, 0real), pred); }
