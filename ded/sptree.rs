// ---- shortest-path trees: nodes live in a heap of their own (hp), pointers are indices into it, -1 is null
pub struct SPNode { pub _vertex: int, pub _parity: bool, pub _weight: real, pub _pred: Edge, pub _has_pred: bool, pub _children: Seq<int> }
pub struct SPTree { pub _id: int, pub _g: G, pub _weight_map: Seq<real>, pub _source: int, pub _root: int, pub _tree_node_map: Seq<int>, pub _first_in_path: Seq<int>, pub hp: Seq<SPNode> }
pub struct CandidateCycle { pub _tree: int, pub _e: Edge, pub _weight: real }
pub struct SPSubtree { pub info: int, pub root: int }
pub struct SPSubtree_ { pub info: bool, pub root: int }
pub open spec fn nod(t: SPTree, v: int) -> int { t._tree_node_map[v] }
pub open spec fn parent(t: SPTree, c: int) -> int { oth(t._g, t.hp[c]._pred.id, t.hp[c]._vertex) }
pub open spec fn tdist(t: SPTree) -> Seq<real> { Seq::new(t._g.n as nat, |v: int| if nod(t, v) != -1 { t.hp[nod(t, v)]._weight } else { 0real }) }
pub open spec fn tpred(t: SPTree) -> Seq<(bool, Edge)> { Seq::new(t._g.n as nat, |v: int| if nod(t, v) != -1 { (t.hp[nod(t, v)]._has_pred, t.hp[nod(t, v)]._pred) } else { (false, edge0()) }) }
pub open spec fn nodes_v(t: SPTree, v: int) -> bool { nod(t, v) == -1 || (0 <= nod(t, v) < t.hp.len() && t.hp[nod(t, v)]._vertex == v) }
pub open spec fn nodes_i(t: SPTree, i: int) -> bool { vid(t._g, t.hp[i]._vertex) && nod(t, t.hp[i]._vertex) == i }
pub open spec fn kid(t: SPTree, i: int, j: int) -> bool { let c = t.hp[i]._children[j]; 0 <= c < t.hp.len() && t.hp[c]._has_pred && vid(t._g, parent(t, c)) && nod(t, parent(t, c)) == i }
pub open spec fn linked(t: SPTree, c: int) -> bool { t.hp[c]._has_pred ==> vid(t._g, parent(t, c)) && 0 <= nod(t, parent(t, c)) < t.hp.len() && t.hp[nod(t, parent(t, c))]._children.contains(c) }
// the nodes and the links between them
pub open spec fn tnodes(t: SPTree) -> bool {
  t._tree_node_map.len() == t._g.n && (forall|v: int| #[trigger] vid(t._g, v) ==> nodes_v(t, v)) && (forall|i: int| 0 <= i < t.hp.len() ==> #[trigger] nodes_i(t, i)) }
#[verifier::opaque]
pub open spec fn tsk(t: SPTree) -> bool {
  wf(t._g) && vid(t._g, t._source) && t._first_in_path.len() == t._g.n && tnodes(t) && t._root == nod(t, t._source) && t._root != -1
  && (forall|i: int, j: int| 0 <= i < t.hp.len() && 0 <= j < t.hp[i]._children.len() ==> #[trigger] kid(t, i, j))
  && (forall|c: int| 0 <= c < t.hp.len() ==> #[trigger] linked(t, c))
  && dpre(t._g, t._weight_map) && dij_post(t._g, t._weight_map, t._source, tdist(t), tpred(t))
  && (forall|v: int| #[trigger] vid(t._g, v) ==> (nod(t, v) != -1 <==> conned(t._g, t._source, v)))
  && exists|lex: Seq<LexDistance>| #[trigger] lfin(t._g, t._weight_map, t._source, lex, tpred(t)) }
// what a node says of its vertex
pub open spec fn nodef(t: SPTree, c: int) -> bool { let p = parent(t, c);
  vid(t._g, t.hp[c]._vertex) && nod(t, t.hp[c]._vertex) == c && (!t.hp[c]._has_pred <==> t.hp[c]._vertex == t._source) && (t.hp[c]._vertex == t._source ==> c == t._root && t.hp[c]._weight == 0real)
  && t.hp[c]._weight >= 0real
  && (t.hp[c]._has_pred ==> vid(t._g, p) && 0 <= nod(t, p) < t.hp.len() && t.hp[nod(t, p)]._vertex == p && nod(t, p) != c && edge_ok(t._g, t.hp[c]._pred) && joins(t._g, t.hp[c]._pred.id, p, t.hp[c]._vertex)
    && t._weight_map[t.hp[c]._pred.id] > 0real && t.hp[c]._weight == t.hp[nod(t, p)]._weight + t._weight_map[t.hp[c]._pred.id] && g_opp(t.hp[c]._pred, t.hp[c]._vertex) == p) }
proof fn l_nodef(t: SPTree, c: int) requires tsk(t), 0 <= c < t.hp.len() ensures nodef(t, c)
{ reveal(tsk); assert(nodes_i(t, c)); let v = t.hp[c]._vertex; assert(linked(t, c)); let g = t._g; let s = t._source; let P = tpred(t); let D = tdist(t); assert(vid(g, v)); assert(dij_node(g, t._weight_map, s, D, P, v)); assert(dvis(s, P, v));
  assert(nodes_v(t, s)); assert(!P[s].0); assert(D[v] >= 0real) by { let W = D[v]; let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] reach_by(g, t._weight_map, vs, es, s, v, W); l_wsum_nn(g, t._weight_map, vs, es, s, v); }
  if t.hp[c]._has_pred { let p = parent(t, c); assert(P[v].0); assert(vid(g, p)); assert(nodes_v(t, p)); } }
proof fn l_wsum_nn(g: G, wm: Seq<real>, vs: Seq<int>, es: Seq<int>, s: int, t: int) requires pos(wm), wm.len() == g.ends.len(), ww(g, vs, es, s, t) ensures wsum(wm, es) >= 0real decreases es.len()
{ if es.len() > 0 { let us = vs.drop_last(); let fs = es.drop_last(); assert(joins(g, es[es.len() - 1], vs[es.len() - 1], vs[es.len() as int])); assert(eid(g, es.last()));
    assert(ww(g, us, fs, s, vs[es.len() - 1])) by { assert forall|i: int| 0 <= i < fs.len() implies joins(g, #[trigger] fs[i], us[i], us[i + 1]) && vid(g, us[i + 1]) by { assert(fs[i] == es[i]); } }
    l_wsum_nn(g, wm, us, fs, s, vs[es.len() - 1]); } }
proof fn l_troot(t: SPTree) requires tsk(t) ensures 0 <= t._root < t.hp.len(), t.hp[t._root]._vertex == t._source, !t.hp[t._root]._has_pred, vid(t._g, t._source), t._root == nod(t, t._source), t._tree_node_map.len() == t._g.n, t._first_in_path.len() == t._g.n, wf(t._g), dpre(t._g, t._weight_map)
{ reveal(tsk); assert(nodes_v(t, t._source)); l_nodef(t, t._root); }
proof fn l_tv(t: SPTree, v: int) requires tsk(t), vid(t._g, v) ensures nod(t, v) == -1 || (0 <= nod(t, v) < t.hp.len() && t.hp[nod(t, v)]._vertex == v), nod(t, v) != -1 <==> conned(t._g, t._source, v), nod(t, v) != -1 ==> dist_is(t._g, t._weight_map, t._source, v, t.hp[nod(t, v)]._weight)
{ reveal(tsk); assert(nodes_v(t, v)); assert(dij_node(t._g, t._weight_map, t._source, tdist(t), tpred(t), v)); }
proof fn l_kid(t: SPTree, i: int, j: int) requires tsk(t), 0 <= i < t.hp.len(), 0 <= j < t.hp[i]._children.len() ensures kid(t, i, j), nodef(t, t.hp[i]._children[j]) { reveal(tsk); assert(kid(t, i, j)); l_nodef(t, t.hp[i]._children[j]); }
// ---- walking the tree with a stack. D: vertices done; st: nodes on the stack; u: the node whose children are being pushed (-1: none), k of them are
pub open spec fn met(t: SPTree, D: Set<int>, st: Seq<int>, c: int) -> bool { st.contains(c) || D.contains(t.hp[c]._vertex) }
pub open spec fn onst(t: SPTree, D: Set<int>, c: int) -> bool { 0 <= c < t.hp.len() && (t.hp[c]._has_pred ==> D.contains(parent(t, c))) }
#[verifier::opaque]
pub open spec fn cover(t: SPTree, D: Set<int>, st: Seq<int>, u: int, k: int) -> bool {
  tsk(t) && (forall|x: int| #[trigger] D.contains(x) ==> vid(t._g, x) && nod(t, x) != -1 && (t.hp[nod(t, x)]._has_pred ==> D.contains(parent(t, nod(t, x))))) && met(t, D, st, t._root)
  && (forall|i: int| 0 <= i < st.len() ==> onst(t, D, #[trigger] st[i]))
  && (forall|c: int| 0 <= c < t.hp.len() && t.hp[c]._has_pred && D.contains(parent(t, c)) && nod(t, parent(t, c)) != u ==> #[trigger] met(t, D, st, c))
  && (u != -1 ==> 0 <= u < t.hp.len() && D.contains(t.hp[u]._vertex) && 0 <= k <= t.hp[u]._children.len() && forall|j: int| 0 <= j < k ==> met(t, D, st, #[trigger] t.hp[u]._children[j])) }
proof fn l_cov0(t: SPTree, st: Seq<int>) requires tsk(t), st =~= seq![t._root] ensures cover(t, Set::empty(), st, -1, 0) { reveal(cover); l_troot(t); assert(st[0] == t._root); assert(st.contains(t._root)); }
proof fn l_cov_pop(t: SPTree, D: Set<int>, st: Seq<int>) requires cover(t, D, st, -1, 0), st.len() > 0
  ensures tsk(t), 0 <= st.last() < t.hp.len(), onst(t, D, st.last()), cover(t, D.insert(t.hp[st.last()]._vertex), st.drop_last(), st.last(), 0)
{ reveal(cover); let c = st.last(); assert(onst(t, D, st[st.len() - 1])); l_nodef(t, c); let v = t.hp[c]._vertex; let E = D.insert(v); let r = st.drop_last();
  assert forall|x: int| met(t, D, st, x) && 0 <= x < t.hp.len() implies met(t, E, r, x) by { if st.contains(x) { let i = choose|i: int| 0 <= i < st.len() && st[i] == x; if i < r.len() { assert(r[i] == x); assert(r.contains(x)); } else { assert(x == c); } } }
  l_troot(t);
  assert forall|i: int| 0 <= i < r.len() implies onst(t, E, #[trigger] r[i]) by { assert(onst(t, D, st[i])); }
  assert forall|x: int| 0 <= x < t.hp.len() && t.hp[x]._has_pred && E.contains(parent(t, x)) && nod(t, parent(t, x)) != c implies #[trigger] met(t, E, r, x) by { if parent(t, x) == v { assert(false); } assert(met(t, D, st, x)); } }
proof fn l_cov_push(t: SPTree, D: Set<int>, st: Seq<int>, u: int, k: int) requires cover(t, D, st, u, k), u >= 0, k < t.hp[u]._children.len() ensures 0 <= u < t.hp.len(), k >= 0, onst(t, D, t.hp[u]._children[k]), cover(t, D, st.push(t.hp[u]._children[k]), u, k + 1)
{ reveal(cover); l_kid(t, u, k); l_nodef(t, u); let c = t.hp[u]._children[k]; let q = st.push(c);
  assert(parent(t, c) == t.hp[u]._vertex);
  assert forall|x: int| st.contains(x) implies q.contains(x) by { let i = choose|i: int| 0 <= i < st.len() && st[i] == x; assert(q[i] == x); }
  assert(q[st.len() as int] == c); assert(q.contains(c));
  assert forall|i: int| 0 <= i < q.len() implies onst(t, D, #[trigger] q[i]) by { if i < st.len() { assert(onst(t, D, st[i])); } }
  assert forall|x: int| 0 <= x < t.hp.len() && t.hp[x]._has_pred && D.contains(parent(t, x)) && nod(t, parent(t, x)) != u implies #[trigger] met(t, D, q, x) by { assert(met(t, D, st, x)); }
  assert forall|j: int| 0 <= j < k + 1 implies met(t, D, q, #[trigger] t.hp[u]._children[j]) by { if j < k { assert(met(t, D, st, t.hp[u]._children[j])); } }
  assert(met(t, D, st, t._root)); }
proof fn l_cov_done(t: SPTree, D: Set<int>, st: Seq<int>, u: int) requires cover(t, D, st, u, t.hp[u]._children.len() as int) ensures cover(t, D, st, -1, 0)
{ reveal(cover); if u != -1 { assert forall|c: int| 0 <= c < t.hp.len() && t.hp[c]._has_pred && D.contains(parent(t, c)) && nod(t, parent(t, c)) != -1 implies #[trigger] met(t, D, st, c) by {
    if nod(t, parent(t, c)) == u { assert(linked(t, c)) by { reveal(tsk); } let K = t.hp[u]._children; assert(K.contains(c)); let j = choose|j: int| 0 <= j < K.len() && K[j] == c; assert(met(t, D, st, K[j])); } } } }
// the vertex with the smallest key among those with P
proof fn l_minv(d: Seq<real>, P: spec_fn(int) -> bool, n: int, w: int) -> (v: int) requires 0 <= w < n <= d.len(), P(w) ensures 0 <= v < n, P(v), forall|x: int| 0 <= x < n && #[trigger] P(x) ==> d[v] <= d[x] decreases n
{ if n == 1 { return w; }
  if !P(n - 1) { let v = l_minv(d, P, n - 1, w); assert forall|x: int| 0 <= x < n && #[trigger] P(x) implies d[v] <= d[x] by {} return v; }
  if w == n - 1 && !(exists|x: int| 0 <= x < n - 1 && #[trigger] P(x)) { return w; }
  let w2 = if w < n - 1 { w } else { choose|x: int| 0 <= x < n - 1 && #[trigger] P(x) }; let v = l_minv(d, P, n - 1, w2);
  if d[v] <= d[n - 1] { v } else { n - 1 } }
// a set of vertices that has the root and with every node its children has every vertex with a node
proof fn l_tree_ind(t: SPTree, P: spec_fn(int) -> bool) requires tsk(t), P(t._root), forall|c: int| 0 <= c < t.hp.len() && t.hp[c]._has_pred && P(nod(t, parent(t, c))) ==> #[trigger] P(c)
  ensures forall|c: int| 0 <= c < t.hp.len() ==> #[trigger] P(c)
{ assert forall|c: int| 0 <= c < t.hp.len() implies #[trigger] P(c) by { if !P(c) { let d = Seq::new(t.hp.len(), |i: int| t.hp[i]._weight); let Q = |i: int| !P(i); let m = l_minv(d, Q, t.hp.len() as int, c); assert(Q(m)); l_nodef(t, m); l_troot(t); assert(m != t._root); assert(t.hp[m]._has_pred); let p = nod(t, parent(t, m)); l_nodef(t, p); if Q(p) { assert(d[m] <= d[p]); } assert(P(p)); } } }
proof fn l_cov_end(t: SPTree, D: Set<int>, st: Seq<int>) requires cover(t, D, st, -1, 0), st.len() == 0 ensures tsk(t), forall|c: int| 0 <= c < t.hp.len() ==> D.contains(#[trigger] t.hp[c]._vertex)
{ reveal(cover); let P = |c: int| D.contains(t.hp[c]._vertex); assert(met(t, D, st, t._root));
  assert forall|c: int| 0 <= c < t.hp.len() && t.hp[c]._has_pred && P(nod(t, parent(t, c))) implies #[trigger] P(c) by { l_nodef(t, c); l_nodef(t, nod(t, parent(t, c))); assert(met(t, D, st, c)); }
  l_tree_ind(t, P); assert forall|c: int| 0 <= c < t.hp.len() implies D.contains(#[trigger] t.hp[c]._vertex) by { assert(P(c)); } }
// ---- parities
pub open spec fn par_c(t: SPTree, S: Set<int>, c: int) -> bool { if t.hp[c]._has_pred { t.hp[nod(t, parent(t, c))]._parity != S.contains(t.hp[c]._pred.id) } else { false } }
pub open spec fn par_at(t: SPTree, S: Set<int>, c: int) -> bool { t.hp[c]._parity == par_c(t, S, c) }
#[verifier::opaque]
pub open spec fn par_ok(t: SPTree, S: Set<int>) -> bool { forall|c: int| 0 <= c < t.hp.len() ==> #[trigger] par_at(t, S, c) }
pub open spec fn parsame(a: SPTree, b: SPTree) -> bool { b == (SPTree { hp: b.hp, ..a }) && b.hp.len() == a.hp.len() && forall|i: int| 0 <= i < a.hp.len() ==> #[trigger] b.hp[i] == (SPNode { _parity: b.hp[i]._parity, ..a.hp[i] }) }
proof fn l_parsame(a: SPTree, b: SPTree) requires parsame(a, b), tsk(a) ensures tsk(b), tdist(b) == tdist(a), tpred(b) == tpred(a)
{ reveal(tsk); assert forall|v: int| #[trigger] vid(a._g, v) implies nodes_v(b, v) by { assert(nodes_v(a, v)); }
  assert forall|v: int| 0 <= v < a._g.n implies #[trigger] tdist(b)[v] == tdist(a)[v] by { assert(vid(a._g, v)); assert(nodes_v(a, v)); } assert forall|v: int| 0 <= v < a._g.n implies #[trigger] tpred(b)[v] == tpred(a)[v] by { assert(vid(a._g, v)); assert(nodes_v(a, v)); } assert(tdist(b) =~= tdist(a)); assert(tpred(b) =~= tpred(a));
  assert forall|i: int| 0 <= i < b.hp.len() implies #[trigger] nodes_i(b, i) by { assert(nodes_i(a, i)); }
  assert forall|i: int, j: int| 0 <= i < b.hp.len() && 0 <= j < b.hp[i]._children.len() implies #[trigger] kid(b, i, j) by { assert(kid(a, i, j)); }
  assert forall|c: int| 0 <= c < b.hp.len() implies #[trigger] linked(b, c) by { assert(linked(a, c)); } }
pub open spec fn roots_(s: Seq<SPSubtree_>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].root) }
#[verifier::opaque]
pub open spec fn pst(t0: SPTree, t: SPTree, S: Set<int>, D: Set<int>, stack: Seq<SPSubtree_>, u: int, k: int) -> bool {
  parsame(t0, t) && cover(t0, D, roots_(stack), u, k) && (forall|x: int| #[trigger] D.contains(x) ==> par_at(t, S, nod(t, x))) && (forall|i: int| 0 <= i < stack.len() ==> (#[trigger] stack[i]).info == par_c(t, S, stack[i].root)) }
proof fn l_par0(t: SPTree, S: Set<int>, stack: Seq<SPSubtree_>) requires tsk(t), stack =~= seq![SPSubtree_ { info: false, root: t._root }] ensures pst(t, t, S, Set::empty(), stack, -1, 0)
{ reveal(pst); assert(roots_(stack) =~= seq![t._root]); l_cov0(t, roots_(stack)); l_troot(t); }
proof fn l_par_pop(t0: SPTree, t: SPTree, S: Set<int>, D: Set<int>, stack: Seq<SPSubtree_>) requires pst(t0, t, S, D, stack, -1, 0), stack.len() > 0
  ensures 0 <= stack.last().root < t.hp.len(), ({ let c = stack.last().root; pst(t0, SPTree { hp: t.hp.update(c, SPNode { _parity: stack.last().info, ..t.hp[c] }), ..t }, S, D.insert(t.hp[c]._vertex), stack.drop_last(), c, 0) })
{ reveal(pst); let c = stack.last().root; let st = roots_(stack); assert(roots_(stack.drop_last()) =~= st.drop_last()); assert(st.last() == c); l_cov_pop(t0, D, st); let v = t.hp[c]._vertex; let E = D.insert(v);
  let b = SPTree { hp: t.hp.update(c, SPNode { _parity: stack.last().info, ..t.hp[c] }), ..t }; l_nodef(t0, c); l_parsame(t0, t); l_nodef(t, c); assert(t0.hp[c]._vertex == v);
  assert(stack[stack.len() - 1].info == par_c(t, S, c));
  assert(parsame(t0, b));
  assert forall|x: int| #[trigger] E.contains(x) implies par_at(b, S, nod(b, x)) by { reveal(cover); let d = nod(t, x); if x == v { } else { assert(D.contains(x)); assert(par_at(t, S, d)); l_tv(t, x); assert(d != c); if t.hp[d]._has_pred { assert(D.contains(parent(t0, nod(t0, x)))); let p = parent(t, d); assert(D.contains(p)); if nod(t, p) == c { l_tv(t, p); assert(p == v); assert(par_at(t, S, nod(t, v))); assert(b.hp[c]._parity == t.hp[c]._parity); } } } 
    if x == v && t.hp[c]._has_pred { assert(nod(t, parent(t, c)) != c); } }
  let r = stack.drop_last();
  assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).info == par_c(b, S, r[i].root) by { assert(r[i] == stack[i]); let d = stack[i].root; reveal(cover); assert(st[i] == d); assert(onst(t0, D, st[i])); l_nodef(t, d); if t.hp[d]._has_pred { let p = parent(t, d); assert(D.contains(p)); if nod(t, p) == c { assert(p == v); assert(par_at(t, S, nod(t, v))); assert(b.hp[c]._parity == t.hp[c]._parity); } } } }
proof fn l_par_push(t0: SPTree, t: SPTree, S: Set<int>, D: Set<int>, stack: Seq<SPSubtree_>, u: int, k: int, e: SPSubtree_) requires pst(t0, t, S, D, stack, u, k), 0 <= u < t.hp.len(), 0 <= k < t.hp[u]._children.len(), e.root == t.hp[u]._children[k], 0 <= e.root < t.hp.len() ==> e.info == (t.hp[u]._parity != S.contains(t.hp[e.root]._pred.id))
  ensures 0 <= e.root < t.hp.len(), pst(t0, t, S, D, stack.push(e), u, k + 1)
{ reveal(pst); assert(t.hp[u] == SPNode { _parity: t.hp[u]._parity, ..t0.hp[u] }); l_cov_push(t0, D, roots_(stack), u, k); assert(roots_(stack.push(e)) =~= roots_(stack).push(e.root)); assert(tsk(t0)) by { reveal(cover); } l_kid(t0, u, k); l_parsame(t0, t); l_kid(t, u, k);
  let q = stack.push(e); assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).info == par_c(t, S, q[i].root) by { if i < stack.len() { assert(q[i] == stack[i]); } } }
proof fn l_par_kid(t0: SPTree, t: SPTree, S: Set<int>, D: Set<int>, stack: Seq<SPSubtree_>, u: int, k: int) requires pst(t0, t, S, D, stack, u, k), 0 <= u < t.hp.len(), 0 <= k < t.hp[u]._children.len() ensures 0 <= t.hp[u]._children[k] < t.hp.len()
{ reveal(pst); assert(t.hp[u] == SPNode { _parity: t.hp[u]._parity, ..t0.hp[u] }); assert(tsk(t0)) by { reveal(cover); } l_kid(t0, u, k); }
proof fn l_par_done(t0: SPTree, t: SPTree, S: Set<int>, D: Set<int>, stack: Seq<SPSubtree_>, u: int) requires 0 <= u < t.hp.len(), pst(t0, t, S, D, stack, u, t.hp[u]._children.len() as int) ensures pst(t0, t, S, D, stack, -1, 0)
{ reveal(pst); assert(t.hp[u] == SPNode { _parity: t.hp[u]._parity, ..t0.hp[u] }); l_cov_done(t0, D, roots_(stack), u); }
proof fn l_par_end(t0: SPTree, t: SPTree, S: Set<int>, D: Set<int>, stack: Seq<SPSubtree_>) requires pst(t0, t, S, D, stack, -1, 0), stack.len() == 0 ensures par_ok(t, S), parsame(t0, t), tsk(t)
{ reveal(pst); reveal(par_ok); l_cov_end(t0, D, roots_(stack)); l_parsame(t0, t); assert forall|c: int| 0 <= c < t.hp.len() implies #[trigger] par_at(t, S, c) by { assert(D.contains(t0.hp[c]._vertex)); l_nodef(t, c); } }
// ---- the first vertex on the path
pub open spec fn first_c(t: SPTree, c: int) -> int { if !t.hp[c]._has_pred || parent(t, c) == t._source { t.hp[c]._vertex } else { t._first_in_path[parent(t, c)] } }
pub open spec fn first_at(t: SPTree, c: int) -> bool { t._first_in_path[t.hp[c]._vertex] == first_c(t, c) }
#[verifier::opaque]
pub open spec fn first_ok(t: SPTree) -> bool { forall|c: int| 0 <= c < t.hp.len() ==> #[trigger] first_at(t, c) }
pub open spec fn firstsame(a: SPTree, b: SPTree) -> bool { b == (SPTree { _first_in_path: b._first_in_path, ..a }) && b._first_in_path.len() == a._first_in_path.len() }
proof fn l_firstsame(a: SPTree, b: SPTree) requires firstsame(a, b), tsk(a) ensures tsk(b), tdist(b) == tdist(a), tpred(b) == tpred(a)
{ reveal(tsk); assert forall|v: int| #[trigger] vid(a._g, v) implies nodes_v(b, v) by { assert(nodes_v(a, v)); } assert(tdist(b) =~= tdist(a)); assert(tpred(b) =~= tpred(a));
  assert forall|i: int| 0 <= i < b.hp.len() implies #[trigger] nodes_i(b, i) by { assert(nodes_i(a, i)); }
  assert forall|i: int, j: int| 0 <= i < b.hp.len() && 0 <= j < b.hp[i]._children.len() implies #[trigger] kid(b, i, j) by { assert(kid(a, i, j)); }
  assert forall|c: int| 0 <= c < b.hp.len() implies #[trigger] linked(b, c) by { assert(linked(a, c)); } }
pub open spec fn roots(s: Seq<SPSubtree>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].root) }
#[verifier::opaque]
pub open spec fn fst(t0: SPTree, t: SPTree, D: Set<int>, stack: Seq<SPSubtree>, u: int, k: int) -> bool {
  firstsame(t0, t) && cover(t0, D, roots(stack), u, k) && (forall|x: int| #[trigger] D.contains(x) ==> first_at(t, nod(t, x))) && (forall|i: int| 0 <= i < stack.len() ==> (#[trigger] stack[i]).info == first_c(t, stack[i].root)) }
proof fn l_fst0(t: SPTree, stack: Seq<SPSubtree>) requires tsk(t), stack =~= seq![SPSubtree { info: t._source, root: t._root }] ensures fst(t, t, Set::empty(), stack, -1, 0)
{ reveal(fst); assert(roots(stack) =~= seq![t._root]); l_cov0(t, roots(stack)); l_troot(t); }
proof fn l_fst_pop(t0: SPTree, t: SPTree, D: Set<int>, stack: Seq<SPSubtree>) requires fst(t0, t, D, stack, -1, 0), stack.len() > 0
  ensures 0 <= stack.last().root < t.hp.len(), 0 <= t._root < t.hp.len(), vid(t._g, t.hp[stack.last().root]._vertex), t._first_in_path.len() == t._g.n, stack.last().root == t._root ==> stack.last().info == t.hp[stack.last().root]._vertex, ({ let c = stack.last().root; fst(t0, SPTree { _first_in_path: t._first_in_path.update(t.hp[c]._vertex, stack.last().info), ..t }, D.insert(t.hp[c]._vertex), stack.drop_last(), c, 0) })
{ reveal(fst); let c = stack.last().root; let st = roots(stack); assert(roots(stack.drop_last()) =~= st.drop_last()); assert(st.last() == c); l_cov_pop(t0, D, st); let v = t.hp[c]._vertex; let E = D.insert(v); l_troot(t0);
  let b = SPTree { _first_in_path: t._first_in_path.update(v, stack.last().info), ..t }; l_nodef(t0, c); l_firstsame(t0, t); l_nodef(t, c);
  assert(stack[stack.len() - 1].info == first_c(t, c));
  assert(firstsame(t0, b));
  assert forall|x: int| #[trigger] E.contains(x) implies first_at(b, nod(b, x)) by { reveal(cover); let d = nod(t, x); if x != v { assert(D.contains(x)); assert(first_at(t, d)); l_tv(t, x); assert(d != c); if t.hp[d]._has_pred { assert(D.contains(parent(t0, nod(t0, x)))); let p = parent(t, d); assert(D.contains(p)); if p == v { assert(first_at(t, nod(t, v))); assert(b._first_in_path[v] == t._first_in_path[v]); } } } else if t.hp[c]._has_pred { assert(parent(t, c) != v); } }
  let r = stack.drop_last();
  assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).info == first_c(b, r[i].root) by { assert(r[i] == stack[i]); let d = stack[i].root; reveal(cover); assert(st[i] == d); assert(onst(t0, D, st[i])); l_nodef(t, d); if t.hp[d]._has_pred { let p = parent(t, d); assert(D.contains(p)); if p == v { assert(first_at(t, nod(t, v))); assert(b._first_in_path[v] == t._first_in_path[v]); } } } }
proof fn l_fst_push(t0: SPTree, t: SPTree, D: Set<int>, stack: Seq<SPSubtree>, u: int, k: int, e: SPSubtree) requires fst(t0, t, D, stack, u, k), 0 <= u < t.hp.len(), 0 <= k < t.hp[u]._children.len(), e.root == t.hp[u]._children[k], 0 <= e.root < t.hp.len() ==> e.info == (if u == t._root { t.hp[e.root]._vertex } else { t._first_in_path[t.hp[u]._vertex] })
  ensures 0 <= e.root < t.hp.len(), fst(t0, t, D, stack.push(e), u, k + 1)
{ reveal(fst); l_cov_push(t0, D, roots(stack), u, k); assert(roots(stack.push(e)) =~= roots(stack).push(e.root)); assert(tsk(t0)) by { reveal(cover); } l_kid(t0, u, k); l_firstsame(t0, t); l_kid(t, u, k); l_nodef(t, u); l_troot(t);
  let q = stack.push(e); assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).info == first_c(t, q[i].root) by { if i < stack.len() { assert(q[i] == stack[i]); } } }
proof fn l_fst_kid(t0: SPTree, t: SPTree, D: Set<int>, stack: Seq<SPSubtree>, u: int, k: int) requires fst(t0, t, D, stack, u, k), 0 <= u < t.hp.len(), 0 <= k < t.hp[u]._children.len() ensures 0 <= t.hp[u]._children[k] < t.hp.len(), 0 <= t.hp[t.hp[u]._children[k]]._vertex < t._g.n
{ reveal(fst); assert(tsk(t0)) by { reveal(cover); } l_kid(t0, u, k); }
proof fn l_fst_done(t0: SPTree, t: SPTree, D: Set<int>, stack: Seq<SPSubtree>, u: int) requires 0 <= u < t.hp.len(), fst(t0, t, D, stack, u, t.hp[u]._children.len() as int) ensures fst(t0, t, D, stack, -1, 0)
{ reveal(fst); l_cov_done(t0, D, roots(stack), u); }
proof fn l_fst_end(t0: SPTree, t: SPTree, D: Set<int>, stack: Seq<SPSubtree>) requires fst(t0, t, D, stack, -1, 0), stack.len() == 0 ensures first_ok(t), firstsame(t0, t), tsk(t)
{ reveal(fst); reveal(first_ok); l_cov_end(t0, D, roots(stack)); l_firstsame(t0, t); assert forall|c: int| 0 <= c < t.hp.len() implies #[trigger] first_at(t, c) by { assert(D.contains(t0.hp[c]._vertex)); l_nodef(t, c); } }
// ---- building the nodes and linking them
pub open spec fn nst_v(t: SPTree, dist: Seq<real>, pred: Seq<(bool, Edge)>, k: int, v: int) -> bool { let s = t._source; let c = nod(t, v);
  nodes_v(t, v) && (v >= k ==> c == -1) && (v < k ==> (c != -1 <==> dvis(s, pred, v)) && (c != -1 ==> t.hp[c]._weight == (if v == s { 0real } else { dist[v] }) && t.hp[c]._has_pred == (v != s) && (v != s ==> t.hp[c]._pred == pred[v].1) && (v == s ==> t.hp[c]._pred == edge0()))) }
#[verifier::opaque]
pub open spec fn nst(t0: SPTree, t: SPTree, dist: Seq<real>, pred: Seq<(bool, Edge)>, k: int) -> bool {
  t == (SPTree { hp: t.hp, _tree_node_map: t._tree_node_map, _root: t._root, ..t0 }) && tnodes(t) && (t._source < k ==> t._root == nod(t, t._source)) && forall|v: int| #[trigger] vid(t._g, v) ==> nst_v(t, dist, pred, k, v) }
pub open spec fn nokids(t: SPTree) -> bool { forall|i: int| 0 <= i < t.hp.len() ==> (#[trigger] t.hp[i])._children.len() == 0 }
pub open spec fn ipre(t: SPTree) -> bool { dpre(t._g, t._weight_map) && vid(t._g, t._source) && t.hp.len() == 0 && t._tree_node_map =~= Seq::new(t._g.n as nat, |i: int| -1int) && t._first_in_path.len() == t._g.n }
proof fn l_nst0(t: SPTree, dist: Seq<real>, pred: Seq<(bool, Edge)>) requires ipre(t), dist.len() == t._g.n, pred.len() == t._g.n ensures nst(t, t, dist, pred, 0), nokids(t) { reveal(nst); }
proof fn l_nst_len(t0: SPTree, t: SPTree, dist: Seq<real>, pred: Seq<(bool, Edge)>, k: int) requires nst(t0, t, dist, pred, k), vid(t0._g, t0._source) ensures t._tree_node_map.len() == t._g.n, t._g == t0._g, t._source == t0._source, t._weight_map == t0._weight_map { reveal(nst); }
proof fn l_nst(t0: SPTree, t: SPTree, dist: Seq<real>, pred: Seq<(bool, Edge)>, k: int, t2: SPTree, x: SPNode)
  requires nst(t0, t, dist, pred, k), nokids(t), 0 <= k < t._g.n, !pred[t._source].0, vid(t._g, t._source),
    k == t._source || pred[k].0 ==> t2 == (SPTree { hp: t.hp.push(x), _tree_node_map: t._tree_node_map.update(k, t.hp.len() as int), _root: if k == t._source { t.hp.len() as int } else { t._root }, ..t }) && x == (SPNode { _vertex: k, _parity: false, _weight: if k == t._source { 0real } else { dist[k] }, _pred: if k == t._source { edge0() } else { pred[k].1 }, _has_pred: k != t._source, _children: Seq::empty() }),
    !(k == t._source || pred[k].0) ==> t2 == t
  ensures nst(t0, t2, dist, pred, k + 1), nokids(t2)
{ reveal(nst); assert(vid(t._g, k)); assert(nst_v(t, dist, pred, k, k));
  assert forall|v: int| #[trigger] vid(t2._g, v) implies nst_v(t2, dist, pred, k + 1, v) by { assert(nst_v(t, dist, pred, k, v)); assert(nodes_v(t, v)); }
  assert forall|v: int| #[trigger] vid(t2._g, v) implies nodes_v(t2, v) by { assert(nst_v(t2, dist, pred, k + 1, v)); }
  assert forall|i: int| 0 <= i < t2.hp.len() implies #[trigger] nodes_i(t2, i) by { if i < t.hp.len() { assert(nodes_i(t, i)); assert(t.hp[i]._vertex != k); } }
  assert forall|i: int| 0 <= i < t2.hp.len() implies (#[trigger] t2.hp[i])._children.len() == 0 by { if i < t.hp.len() { assert(t2.hp[i] == t.hp[i]); } } }
// the first k vertices are linked to their parents
#[verifier::opaque]
pub open spec fn lnk(t0: SPTree, t: SPTree, dist: Seq<real>, pred: Seq<(bool, Edge)>, k: int) -> bool {
  nst(t0, t, dist, pred, t0._g.n) && (forall|i: int, j: int| 0 <= i < t.hp.len() && 0 <= j < t.hp[i]._children.len() ==> #[trigger] kid(t, i, j)) && (forall|c: int| 0 <= c < t.hp.len() && t.hp[c]._vertex < k ==> #[trigger] linked(t, c)) }
proof fn l_lnk0(t0: SPTree, t: SPTree, dist: Seq<real>, pred: Seq<(bool, Edge)>) requires nst(t0, t, dist, pred, t0._g.n), nokids(t) ensures lnk(t0, t, dist, pred, 0) { reveal(lnk); reveal(nst); assert forall|c: int| 0 <= c < t.hp.len() && t.hp[c]._vertex < 0 implies #[trigger] linked(t, c) by { assert(nodes_i(t, c)); } }
proof fn l_lnk_b(t0: SPTree, t: SPTree, dist: Seq<real>, pred: Seq<(bool, Edge)>, k: int) requires lnk(t0, t, dist, pred, k), 0 <= k < t._g.n, ldij_post(t0._g, t0._weight_map, t0._source, dist, pred), pred[k].0
  ensures t._tree_node_map.len() == t._g.n, ({ let u = g_opp(pred[k].1, k); u == oth(t._g, pred[k].1.id, k) && vid(t._g, u) && u != k && 0 <= nod(t, u) < t.hp.len() && 0 <= nod(t, k) < t.hp.len() && t.hp[nod(t, k)]._vertex == k && t.hp[nod(t, k)]._has_pred && t.hp[nod(t, k)]._pred == pred[k].1 })
{ reveal(lnk); reveal(nst); let g = t._g; let s = t._source; assert(vid(g, k)); assert(dij_node(g, t._weight_map, s, dist.update(s, 0real), pred, k)); assert(dvis(s, pred, k)); let u = oth(g, pred[k].1.id, k); assert(vid(g, u)); assert(nst_v(t, dist, pred, g.n, u)); assert(nst_v(t, dist, pred, g.n, k)); assert(k != s); }
proof fn l_lnk_no(t0: SPTree, t: SPTree, dist: Seq<real>, pred: Seq<(bool, Edge)>, k: int) requires lnk(t0, t, dist, pred, k), 0 <= k < t._g.n, !pred[k].0 ensures lnk(t0, t, dist, pred, k + 1)
{ reveal(lnk); reveal(nst); assert forall|c: int| 0 <= c < t.hp.len() && t.hp[c]._vertex < k + 1 implies #[trigger] linked(t, c) by { assert(nodes_i(t, c)); let v = t.hp[c]._vertex; if v == k { assert(vid(t._g, v)); assert(nst_v(t, dist, pred, t._g.n, v)); assert(v == t._source); assert(!t.hp[c]._has_pred); } } }
pub open spec fn addkid(t: SPTree, a: int, c: int) -> SPTree { SPTree { hp: t.hp.update(a, SPNode { _children: t.hp[a]._children.push(c), ..t.hp[a] }), ..t } }
proof fn l_addkid(t0: SPTree, t: SPTree, dist: Seq<real>, pred: Seq<(bool, Edge)>, k: int, a: int, c: int) requires nst(t0, t, dist, pred, k), 0 <= a < t.hp.len() ensures nst(t0, addkid(t, a, c), dist, pred, k)
{ reveal(nst); let t2 = addkid(t, a, c);
  assert forall|v: int| #[trigger] vid(t2._g, v) implies nst_v(t2, dist, pred, k, v) by { assert(nst_v(t, dist, pred, k, v)); }
  assert forall|v: int| #[trigger] vid(t2._g, v) implies nodes_v(t2, v) by { assert(nodes_v(t, v)); }
  assert forall|i: int| 0 <= i < t2.hp.len() implies #[trigger] nodes_i(t2, i) by { assert(nodes_i(t, i)); } }
proof fn l_nst_i(t0: SPTree, t: SPTree, dist: Seq<real>, pred: Seq<(bool, Edge)>, k: int, i: int) requires nst(t0, t, dist, pred, k), 0 <= i < t.hp.len() ensures nodes_i(t, i) { reveal(nst); assert(nodes_i(t, i)); }
#[verifier::rlimit(100)]
proof fn l_lnk(t0: SPTree, t: SPTree, dist: Seq<real>, pred: Seq<(bool, Edge)>, k: int) requires lnk(t0, t, dist, pred, k), 0 <= k < t._g.n, ldij_post(t0._g, t0._weight_map, t0._source, dist, pred), pred[k].0
  ensures lnk(t0, addkid(t, nod(t, g_opp(pred[k].1, k)), nod(t, k)), dist, pred, k + 1)
{ l_lnk_b(t0, t, dist, pred, k); reveal(lnk); let a = nod(t, g_opp(pred[k].1, k)); let ck = nod(t, k); let t2 = addkid(t, a, ck); l_addkid(t0, t, dist, pred, t0._g.n, a, ck); let L = t.hp[a]._children; let K = t2.hp[a]._children; assert(K == L.push(ck));
  assert forall|i: int, j: int| 0 <= i < t2.hp.len() && 0 <= j < t2.hp[i]._children.len() implies #[trigger] kid(t2, i, j) by { if i == a && j == L.len() { } else { assert(kid(t, i, j)); } }
  assert forall|c: int| 0 <= c < t2.hp.len() && t2.hp[c]._vertex < k + 1 implies #[trigger] linked(t2, c) by { l_nst_i(t0, t, dist, pred, t0._g.n, c); if t.hp[c]._vertex == k { assert(c == ck); assert(K[K.len() - 1] == c); assert(K.contains(c)); }
    else { assert(linked(t, c)); if t.hp[c]._has_pred && nod(t, parent(t, c)) == a { let j = choose|j: int| 0 <= j < L.len() && L[j] == c; assert(K[j] == c); assert(K.contains(c)); } } } }
proof fn l_lnk_end(t0: SPTree, t: SPTree, dist: Seq<real>, pred: Seq<(bool, Edge)>) requires ipre(t0), lnk(t0, t, dist, pred, t0._g.n), ldij_post(t0._g, t0._weight_map, t0._source, dist, pred) ensures tsk(t), t == (SPTree { hp: t.hp, _tree_node_map: t._tree_node_map, _root: t._root, ..t0 })
{ reveal(lnk); reveal(nst); reveal(tsk); let g = t._g; let s = t._source; let wm = t._weight_map; let D = dist.update(s, 0real); let P = tpred(t);
  assert(vid(g, s) && nst_v(t, dist, pred, g.n, s));
  assert forall|c: int| 0 <= c < t.hp.len() implies #[trigger] linked(t, c) by { assert(nodes_i(t, c)); }
  assert forall|v: int| #[trigger] vid(g, v) implies dij_node(g, wm, s, tdist(t), P, v) && (nod(t, v) != -1 <==> conned(g, s, v)) && P[v].0 == pred[v].0 && (pred[v].0 ==> P[v] == pred[v]) by { assert(nst_v(t, dist, pred, g.n, v)); assert(dij_node(g, wm, s, D, pred, v));
    if pred[v].0 { let u = oth(g, pred[v].1.id, v); assert(vid(g, u)); assert(nst_v(t, dist, pred, g.n, u)); } }
  let lex = choose|lex: Seq<LexDistance>| #[trigger] lfin(g, wm, s, lex, pred); l_lfin_ext(g, wm, s, lex, pred, P); }
proof fn l_lfin_ext(g: G, wm: Seq<real>, s: int, lex: Seq<LexDistance>, p: Seq<(bool, Edge)>, q: Seq<(bool, Edge)>) requires wf(g), lfin(g, wm, s, lex, p), q.len() == g.n, forall|v: int| #[trigger] vid(g, v) ==> q[v].0 == p[v].0 && (p[v].0 ==> q[v] == p[v]), vid(g, s) ensures lfin(g, wm, s, lex, q)
{ reveal(lst); let V = choose|V: Set<int>| #[trigger] lfin_by(g, wm, s, lex, p, V);
  assert forall|v: int| #[trigger] vid(g, v) implies dij_node(g, wm, s, lexd(lex), q, v) by { assert(dij_node(g, wm, s, lexd(lex), p, v)); if p[v].0 { let u = oth(g, p[v].1.id, v); assert(vid(g, u)); } }
  assert forall|v: int| #[trigger] vid(g, v) && dvis(s, q, v) implies lnode(g, wm, s, lex, q, V, v) by { assert(dvis(s, p, v)); assert(lnode(g, wm, s, lex, p, V, v)); assert forall|x: int| #[trigger] lex[v].vertex_indices.contains(x) implies lin(g, s, lex, q, V, v, x) by { assert(lin(g, s, lex, p, V, v, x)); } }
  assert(lfin_by(g, wm, s, lex, q, V)); }
// ---- the candidate cycles of a tree
pub open spec fn tedge_at(t: SPTree, v: int, x: int) -> bool { nod(t, v) != -1 && t.hp[nod(t, v)]._has_pred && t.hp[nod(t, v)]._pred.id == x }
pub open spec fn tedge(t: SPTree, k: int, x: int) -> bool { exists|v: int| 0 <= v < k && #[trigger] tedge_at(t, v, x) }
pub open spec fn tedges(t: SPTree, X: Set<int>, k: int) -> bool { forall|x: int| #[trigger] X.contains(x) <==> tedge(t, k, x) }
proof fn l_tedges(t: SPTree, X: Set<int>, k: int, Y: Set<int>) requires tedges(t, X, k), 0 <= k, Y == (if nod(t, k) != -1 && t.hp[nod(t, k)]._has_pred { X.insert(t.hp[nod(t, k)]._pred.id) } else { X }) ensures tedges(t, Y, k + 1)
{ assert forall|x: int| #[trigger] Y.contains(x) <==> tedge(t, k + 1, x) by { assert(X.contains(x) <==> tedge(t, k, x)); if tedge(t, k, x) { let v = choose|v: int| 0 <= v < k && #[trigger] tedge_at(t, v, x); assert(tedge_at(t, v, x)); } if Y.contains(x) && !X.contains(x) { assert(tedge_at(t, k, x)); }
    if tedge(t, k + 1, x) { let v = choose|v: int| 0 <= v < k + 1 && #[trigger] tedge_at(t, v, x); if v < k { assert(tedge(t, k, x)); } } } }
// e is a candidate: not a tree edge, and the tree paths to its ends leave the root by different children
pub open spec fn iscand(t: SPTree, e: int) -> bool { let u = t._g.ends[e].0; let v = t._g.ends[e].1; eid(t._g, e) && !tedge(t, t._g.n, e) && nod(t, u) != -1 && nod(t, v) != -1 && t._first_in_path[u] != t._first_in_path[v] }
pub open spec fn cand_w(t: SPTree, e: int) -> real { t._weight_map[e] + t.hp[nod(t, t._g.ends[e].0)]._weight + t.hp[nod(t, t._g.ends[e].1)]._weight }
pub open spec fn cand_of(t: SPTree, c: CandidateCycle) -> bool { c._tree == t._id && iscand(t, c._e.id) && c._e == edge_of(t._g, c._e.id) && c._weight == cand_w(t, c._e.id) }
pub open spec fn listed_c(out: Seq<CandidateCycle>, e: int) -> bool { exists|i: int| 0 <= i < out.len() && (#[trigger] out[i])._e.id == e }
#[verifier::opaque]
pub open spec fn cands(t: SPTree, out: Seq<CandidateCycle>, k: int) -> bool {
  (forall|i: int| 0 <= i < out.len() ==> cand_of(t, #[trigger] out[i]) && out[i]._e.id < k) && (forall|i: int, j: int| 0 <= i < j < out.len() ==> out[i]._e.id < out[j]._e.id) && (forall|e: int| 0 <= e < k && #[trigger] iscand(t, e) ==> listed_c(out, e)) }
proof fn l_cands0(t: SPTree) ensures cands(t, Seq::empty(), 0) { reveal(cands); }
proof fn l_cands_no(t: SPTree, out: Seq<CandidateCycle>, k: int) requires cands(t, out, k), !iscand(t, k) ensures cands(t, out, k + 1) { reveal(cands); }
proof fn l_cands_add(t: SPTree, out: Seq<CandidateCycle>, k: int, c: CandidateCycle) requires cands(t, out, k), cand_of(t, c), c._e.id == k ensures cands(t, out.push(c), k + 1)
{ reveal(cands); let q = out.push(c); assert forall|e: int| 0 <= e < k + 1 && #[trigger] iscand(t, e) implies listed_c(q, e) by { if e == k { assert(q[out.len() as int]._e.id == e); } else { let i = choose|i: int| 0 <= i < out.len() && (#[trigger] out[i])._e.id == e; assert(q[i]._e.id == e); } }
  assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i]._e.id < q[j]._e.id by { assert(q[i] == out[i]); if j < out.len() { assert(q[j] == out[j]); } } }
