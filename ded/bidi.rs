// ---- bidirectional search in the signed graph: its nodes are pairs (vertex, side), a signed edge changes the side
pub struct Fr { pub dist: Seq<real>, pub pred: Seq<((int, bool), bool, Edge)>, pub q: Map<(int, bool), real>, pub src: (int, bool) }
pub struct Cx { pub g: G, pub wm: Seq<real>, pub H: Set<int>, pub S: Set<int>, pub ul: bool, pub lim: real }
pub open spec fn cok(c: Cx) -> bool { wf(c.g) && no_loops(c.g) && c.wm.len() == c.g.ends.len() && pos(c.wm) && hops(c.wm, 4 * c.g.n) < dmax() }
pub open spec fn nd(c: Cx, x: (int, bool)) -> bool { vid(c.g, x.0) }
pub open spec fn ix(c: Cx, x: (int, bool)) -> int { if x.1 { x.0 } else { x.0 + c.g.n } }
pub open spec fn vis(c: Cx, f: Fr, x: (int, bool)) -> bool { x == f.src || f.pred[ix(c, x)].1 }
pub open spec fn ds(c: Cx, f: Fr, x: (int, bool)) -> real { f.dist[ix(c, x)] }
pub open spec fn flip(c: Cx, e: int, b: bool) -> bool { if c.S.contains(e) { !b } else { b } }
pub open spec fn to(c: Cx, x: (int, bool), e: int) -> (int, bool) { (oth(c.g, e, x.0), flip(c, e, x.1)) }
// a walk from node a to node b that avoids the hidden edges
pub open spec fn swk(c: Cx, a: (int, bool), b: (int, bool), vs: Seq<int>, es: Seq<int>) -> bool { sgw(c.g, c.H, c.S, a.0, b.0, a.1 != b.1, vs, es) }
pub open spec fn rch_by(c: Cx, a: (int, bool), b: (int, bool), W: real, vs: Seq<int>, es: Seq<int>) -> bool { swk(c, a, b, vs, es) && wsum(c.wm, es) == W }
pub open spec fn rch(c: Cx, a: (int, bool), b: (int, bool), W: real) -> bool { exists|vs: Seq<int>, es: Seq<int>| #[trigger] rch_by(c, a, b, W, vs, es) }
pub open spec fn below_lim(c: Cx, W: real) -> bool { c.ul ==> W < c.lim }
// e leads from p to x
pub open spec fn arc(c: Cx, p: (int, bool), e: int, x: (int, bool)) -> bool { joins(c.g, e, p.0, x.0) && vid(c.g, p.0) && vid(c.g, x.0) && x.1 == flip(c, e, p.1) && !c.H.contains(e) }
pub open spec fn fpred(c: Cx, f: Fr, x: (int, bool)) -> bool {
  let p = f.pred[ix(c, x)]; p.1 ==> edge_ok(c.g, p.2) && arc(c, p.0, p.2.id, x) && vis(c, f, p.0) && ds(c, f, x) == ds(c, f, p.0) + c.wm[p.2.id] }
pub open spec fn frel(c: Cx, f: Fr, x: (int, bool), j: int) -> bool {
  let e = c.g.adj[x.0][j]; let y = to(c, x, e); c.H.contains(e) || !below_lim(c, ds(c, f, x) + c.wm[e]) || (vis(c, f, y) && ds(c, f, y) <= ds(c, f, x) + c.wm[e]) }
pub open spec fn fnode(c: Cx, f: Fr, V: Set<int>, d: real, x: (int, bool)) -> bool {
  vis(c, f, x) ==> rch(c, f.src, x, ds(c, f, x)) && 0real <= ds(c, f, x) <= hops(c.wm, V.len() as int) && fpred(c, f, x)
    && (f.pred[ix(c, x)].1 ==> V.contains(ix(c, f.pred[ix(c, x)].0))) && (f.q.contains_key(x) <==> !V.contains(ix(c, x)))
    && (f.q.contains_key(x) ==> ds(c, f, x) >= d) && (V.contains(ix(c, x)) ==> ds(c, f, x) <= d) && (x != f.src ==> below_lim(c, ds(c, f, x))) }
pub open spec fn fvin(c: Cx, f: Fr, V: Set<int>, x: (int, bool)) -> bool { V.contains(ix(c, x)) ==> vis(c, f, x) }
// V: settled nodes; sc: node u is being scanned, its first k edges are done; d: distance of the node taken last
#[verifier::opaque]
pub open spec fn fst(c: Cx, f: Fr, V: Set<int>, sc: bool, u: (int, bool), k: int, d: real) -> bool {
  f.dist.len() == 2 * c.g.n && f.pred.len() == 2 * c.g.n && nd(c, f.src) && !f.pred[ix(c, f.src)].1 && ds(c, f, f.src) == 0real && d >= 0real
  && (forall|i: int| #[trigger] V.contains(i) ==> 0 <= i < 2 * c.g.n)
  && (forall|x: (int, bool)| #[trigger] nd(c, x) ==> fnode(c, f, V, d, x) && fvin(c, f, V, x))
  && (forall|x: (int, bool)| #[trigger] f.q.contains_key(x) ==> nd(c, x) && vis(c, f, x) && f.q[x] == ds(c, f, x))
  && (sc ==> nd(c, u) && V.contains(ix(c, u)) && ds(c, f, u) == d && d <= hops(c.wm, V.len() - 1) && forall|j: int| 0 <= j < k ==> #[trigger] frel(c, f, u, j))
  && (forall|x: (int, bool), j: int| #[trigger] nd(c, x) && V.contains(ix(c, x)) && !(sc && x == u) && 0 <= j < c.g.adj[x.0].len() ==> #[trigger] frel(c, f, x, j)) }
// the best meeting point found so far
#[verifier::opaque]
pub open spec fn met(c: Cx, f: Fr, b: Fr, bs: bool, best: real, x0: (int, bool)) -> bool {
  (forall|y: (int, bool)| #[trigger] nd(c, y) && vis(c, f, y) && vis(c, b, y) ==> bs && best <= ds(c, f, y) + ds(c, b, y))
  && (bs ==> nd(c, x0) && vis(c, f, x0) && vis(c, b, x0) && best == ds(c, f, x0) + ds(c, b, x0) && best < dmax()) && (!bs ==> best == dmax()) }
proof fn l_ix(c: Cx, x: (int, bool), y: (int, bool)) requires nd(c, x), nd(c, y) ensures 0 <= ix(c, x) < 2 * c.g.n, ix(c, x) == ix(c, y) ==> x == y {}
proof fn l_vlen(c: Cx, V: Set<int>) requires c.g.n >= 0, forall|i: int| #[trigger] V.contains(i) ==> 0 <= i < 2 * c.g.n ensures V.len() <= 2 * c.g.n
{ l_range(2 * c.g.n); assert(V.subset_of(Set::range(0, 2 * c.g.n))); vstd::set_lib::lemma_len_subset(V, Set::range(0, 2 * c.g.n)); }
proof fn l_fst_len(c: Cx, f: Fr, V: Set<int>, sc: bool, u: (int, bool), k: int, d: real) requires cok(c), fst(c, f, V, sc, u, k, d) ensures V.len() <= 2 * c.g.n, 0real <= hops(c.wm, V.len() as int) <= hops(c.wm, 2 * c.g.n), hops(c.wm, 2 * c.g.n) + hops(c.wm, 2 * c.g.n) < dmax(), f.dist.len() == 2 * c.g.n, f.pred.len() == 2 * c.g.n, nd(c, f.src), ds(c, f, f.src) == 0real, vis(c, f, f.src), 0 <= ix(c, f.src) < 2 * c.g.n
{ assert(V.len() <= 2 * c.g.n) by { reveal(fst); l_vlen(c, V); } assert(f.dist.len() == 2 * c.g.n && f.pred.len() == 2 * c.g.n && nd(c, f.src) && ds(c, f, f.src) == 0real) by { reveal(fst); } l_ix(c, f.src, f.src); l_hops(c.wm, V.len() as int, 2 * c.g.n); let M = wmax(c.wm); let n = c.g.n; reveal(hops); let a = (2 * n) as real; let b = (4 * n) as real; assert(b * M == a * M + a * M) by (nonlinear_arith) requires b == a + a; }
// what is known of the distance of a visited node
proof fn l_fst_ds(c: Cx, f: Fr, V: Set<int>, sc: bool, u: (int, bool), k: int, d: real, x: (int, bool)) requires cok(c), fst(c, f, V, sc, u, k, d), nd(c, x), vis(c, f, x) ensures 0real <= ds(c, f, x) <= hops(c.wm, 2 * c.g.n), ds(c, f, x) < dmax(), rch(c, f.src, x, ds(c, f, x)), fpred(c, f, x)
{ l_fst_len(c, f, V, sc, u, k, d); reveal(fst); assert(fnode(c, f, V, d, x)); }
proof fn l_rch0(c: Cx, a: (int, bool)) requires nd(c, a) ensures rch(c, a, a, 0real) { let es = Seq::<int>::empty(); assert(ww(c.g, seq![a.0], es, a.0, a.0)); assert(rch_by(c, a, a, 0real, seq![a.0], es)); }
proof fn l_swk1(c: Cx, a: (int, bool), p: (int, bool), e: int, x: (int, bool), vs: Seq<int>, es: Seq<int>) requires swk(c, a, p, vs, es), arc(c, p, e, x) ensures swk(c, a, x, vs.push(x.0), es.push(e)), wsum(c.wm, es.push(e)) == wsum(c.wm, es) + c.wm[e]
{ let us = vs.push(x.0); let fs = es.push(e); l_wsum_push(c.wm, es, e); l_par_ext(c.S, fs, es, es.len() as int);
  assert forall|i: int| 0 <= i < fs.len() implies joins(c.g, #[trigger] fs[i], us[i], us[i + 1]) && vid(c.g, us[i + 1]) && !c.H.contains(fs[i]) by { if i < es.len() { assert(fs[i] == es[i] && us[i] == vs[i] && us[i + 1] == vs[i + 1]); } else { assert(us[i] == vs[i]); assert(vs[i] == p.0); } } }
proof fn l_rch1(c: Cx, a: (int, bool), p: (int, bool), W: real, e: int, x: (int, bool)) requires rch(c, a, p, W), arc(c, p, e, x) ensures rch(c, a, x, W + c.wm[e])
{ let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] rch_by(c, a, p, W, vs, es); l_swk1(c, a, p, e, x, vs, es); assert(rch_by(c, a, x, W + c.wm[e], vs.push(x.0), es.push(e))); }
proof fn l_fst0(c: Cx, f: Fr, s: (int, bool))
  requires cok(c), nd(c, s), f.src == s, f.dist.len() == 2 * c.g.n, f.pred.len() == 2 * c.g.n, ds(c, f, s) == 0real, forall|i: int| 0 <= i < f.pred.len() ==> !(#[trigger] f.pred[i]).1, f.q =~= Map::<(int, bool), real>::empty().insert(s, 0real)
  ensures fst(c, f, Set::empty(), false, s, 0, 0real)
{ reveal(fst); l_rch0(c, s); l_hops(c.wm, 0, 0); assert forall|x: (int, bool)| #[trigger] nd(c, x) implies fnode(c, f, Set::empty(), 0real, x) && fvin(c, f, Set::empty(), x) by { l_ix(c, x, s); assert(!f.pred[ix(c, x)].1); } 
  assert forall|x: (int, bool)| #[trigger] f.q.contains_key(x) implies x == s by {} l_ix(c, s, s); }
proof fn l_met0(c: Cx, f: Fr, b: Fr, x0: (int, bool)) requires f.src != b.src, forall|i: int| 0 <= i < f.pred.len() ==> !(#[trigger] f.pred[i]).1, forall|i: int| 0 <= i < b.pred.len() ==> !(#[trigger] b.pred[i]).1, f.pred.len() == 2 * c.g.n, b.pred.len() == 2 * c.g.n ensures met(c, f, b, false, dmax(), x0)
{ reveal(met); assert forall|y: (int, bool)| #[trigger] nd(c, y) && vis(c, f, y) && vis(c, b, y) implies false by { l_ix(c, y, y); assert(!f.pred[ix(c, y)].1 && !b.pred[ix(c, y)].1); } }
proof fn l_met_swap(c: Cx, f: Fr, b: Fr, bs: bool, best: real, x0: (int, bool)) requires met(c, f, b, bs, best, x0) ensures met(c, b, f, bs, best, x0) { reveal(met); }
proof fn l_f_pop(c: Cx, f: Fr, f2: Fr, V: Set<int>, u0: (int, bool), d: real, t: (int, bool))
  requires cok(c), fst(c, f, V, false, u0, 0, d), f.q.contains_key(t), forall|y: (int, bool)| #[trigger] f.q.contains_key(y) ==> !(f.q[y] < f.q[t]), f2 == (Fr { q: f.q.remove(t), ..f })
  ensures nd(c, t), vis(c, f, t), fst(c, f2, V.insert(ix(c, t)), true, t, 0, ds(c, f, t)), t != f.src ==> below_lim(c, ds(c, f, t)), ds(c, f, t) >= 0real, t == f.src ==> ds(c, f, t) == 0real, 0 <= ix(c, t) < 2 * c.g.n, f.dist.len() == 2 * c.g.n
{ reveal(fst); let W = V.insert(ix(c, t)); let d2 = ds(c, f, t); assert(nd(c, t)); assert(fnode(c, f, V, d, t)); assert(!V.contains(ix(c, t))); assert(W.len() == V.len() + 1); l_hops(c.wm, V.len() as int, W.len() as int); l_ix(c, t, t);
  assert forall|x: (int, bool)| #[trigger] nd(c, x) implies fnode(c, f2, W, d2, x) && fvin(c, f2, W, x) by { assert(fnode(c, f, V, d, x)); assert(fvin(c, f, V, x)); l_ix(c, x, t); assert(vis(c, f2, x) == vis(c, f, x)); if vis(c, f, x) { assert(fpred(c, f, x)); assert(fpred(c, f2, x)); if f2.q.contains_key(x) { assert(f.q.contains_key(x)); assert(!(f.q[x] < f.q[t])); } } }
  assert forall|x: (int, bool), j: int| #[trigger] nd(c, x) && W.contains(ix(c, x)) && !(x == t) && 0 <= j < c.g.adj[x.0].len() implies #[trigger] frel(c, f2, x, j) by { l_ix(c, x, t); assert(V.contains(ix(c, x))); assert(frel(c, f, x, j)); }
  assert forall|x: (int, bool)| #[trigger] f2.q.contains_key(x) implies nd(c, x) && vis(c, f2, x) && f2.q[x] == ds(c, f2, x) by { assert(f.q.contains_key(x)); } }
proof fn l_arc_adj(c: Cx, u: (int, bool), k: int) requires cok(c), nd(c, u), 0 <= k < c.g.adj[u.0].len(), !c.H.contains(c.g.adj[u.0][k]) ensures arc(c, u, c.g.adj[u.0][k], to(c, u, c.g.adj[u.0][k])), eid(c.g, c.g.adj[u.0][k]), oth(c.g, c.g.adj[u.0][k], u.0) != u.0, c.wm[c.g.adj[u.0][k]] > 0real, c.wm[c.g.adj[u.0][k]] <= wmax(c.wm)
{ l_adj(c.g, u.0); let e = c.g.adj[u.0][k]; let v = oth(c.g, e, u.0); assert(joins(c.g, c.g.adj[u.0][k], u.0, v) && vid(c.g, v)); assert(eid(c.g, e)); assert(c.wm[e] > 0real); l_wmax(c.wm, e); }
// bounds the scan relies on
proof fn l_f_b(c: Cx, f: Fr, V: Set<int>, u: (int, bool), k: int, d: real)
  requires cok(c), fst(c, f, V, true, u, k, d), 0 <= k < c.g.adj[u.0].len(), !c.H.contains(c.g.adj[u.0][k])
  ensures ({ let e = c.g.adj[u.0][k]; let w = to(c, u, e); nd(c, u) && nd(c, w) && nd(c, f.src) && arc(c, u, e, w) && eid(c.g, e) && w.0 != u.0 && c.wm[e] > 0real && c.wm[e] < dmax() && 0real <= d < dmax() && d == ds(c, f, u) && vis(c, f, u) && f.dist.len() == 2 * c.g.n && f.pred.len() == 2 * c.g.n
    && 0 <= ix(c, w) < 2 * c.g.n && 0 <= ix(c, u) < 2 * c.g.n && d + c.wm[e] <= hops(c.wm, 2 * c.g.n) && d + c.wm[e] < dmax() && hops(c.wm, 2 * c.g.n) + hops(c.wm, 2 * c.g.n) < dmax()
    && (vis(c, f, w) && d + c.wm[e] < ds(c, f, w) ==> w != f.src && f.q.contains_key(w) && f.q[w] == ds(c, f, w)) && (vis(c, f, w) || !f.q.contains_key(w)) })
{ l_fst_len(c, f, V, true, u, k, d); reveal(fst); let e = c.g.adj[u.0][k]; let w = to(c, u, e); l_arc_adj(c, u, k); l_ix(c, w, u); assert(V.len() > 0) by { if V.len() == 0 { assert(V =~= Set::empty()); } } l_hops(c.wm, V.len() - 1, 2 * c.g.n); l_hops1(c.wm, V.len() - 1);
  l_hops(c.wm, 1, 4 * c.g.n); l_hops1(c.wm, 0); l_hops(c.wm, 2 * c.g.n, 4 * c.g.n); l_hops(c.wm, V.len() as int, 2 * c.g.n); assert(nd(c, w)); assert(nd(c, u)); assert(fnode(c, f, V, d, w) && fnode(c, f, V, d, u) && fvin(c, f, V, u)); l_ix(c, f.src, f.src); }
proof fn l_f_skip(c: Cx, f: Fr, V: Set<int>, u: (int, bool), k: int, d: real)
  requires cok(c), fst(c, f, V, true, u, k, d), 0 <= k < c.g.adj[u.0].len(), ({ let e = c.g.adj[u.0][k]; let w = to(c, u, e); c.H.contains(e) || !below_lim(c, d + c.wm[e]) || (vis(c, f, w) && !(d + c.wm[e] < ds(c, f, w))) || w == f.src })
  ensures fst(c, f, V, true, u, k + 1, d)
{ reveal(fst); let e = c.g.adj[u.0][k]; assert(fnode(c, f, V, d, u) && fvin(c, f, V, u)); if !c.H.contains(e) { l_arc_adj(c, u, k); } assert(frel(c, f, u, k)); }
#[verifier::rlimit(60)]
proof fn l_f_new(c: Cx, f: Fr, f2: Fr, V: Set<int>, u: (int, bool), k: int, d: real)
  requires cok(c), fst(c, f, V, true, u, k, d), 0 <= k < c.g.adj[u.0].len(), ({ let e = c.g.adj[u.0][k]; let w = to(c, u, e); let x = d + c.wm[e]; !c.H.contains(e) && below_lim(c, x) && w != f.src && (!vis(c, f, w) || x < ds(c, f, w))
    && f2 == (Fr { dist: f.dist.update(ix(c, w), x), pred: f.pred.update(ix(c, w), (u, true, out_edge(c.g, u.0, k))), q: f.q.insert(w, x), src: f.src }) })
  ensures fst(c, f2, V, true, u, k + 1, d)
{ l_f_b(c, f, V, u, k, d); reveal(fst); let e = c.g.adj[u.0][k]; let w = to(c, u, e); let x = d + c.wm[e]; assert(fnode(c, f, V, d, w) && fnode(c, f, V, d, u) && fvin(c, f, V, u) && fvin(c, f, V, w)); l_rch1(c, f.src, u, d, e, w);
  l_ix(c, w, u); l_ix(c, f.src, w); assert(V.len() > 0) by { if V.len() == 0 { assert(V =~= Set::empty()); } } l_hops1(c.wm, V.len() - 1); l_arc_adj(c, u, k);
  assert(!V.contains(ix(c, w)));
  assert forall|y: (int, bool)| #[trigger] nd(c, y) implies (y != w ==> ds(c, f2, y) == ds(c, f, y) && f2.pred[ix(c, y)] == f.pred[ix(c, y)]) && (vis(c, f, y) ==> vis(c, f2, y)) by { l_ix(c, y, w); }
  assert forall|y: (int, bool)| #[trigger] nd(c, y) implies fnode(c, f2, V, d, y) && fvin(c, f2, V, y) by { assert(fnode(c, f, V, d, y) && fvin(c, f, V, y)); l_ix(c, y, w);
    if y == w { let q = out_edge(c.g, u.0, k); assert(q.id == e && edge_ok(c.g, q)); assert(nd(c, u)); assert(fpred(c, f2, w)); }
    else if vis(c, f2, y) { assert(vis(c, f, y)); if f.pred[ix(c, y)].1 { let p = f.pred[ix(c, y)].0; assert(arc(c, p, f.pred[ix(c, y)].2.id, y)); assert(nd(c, p)); l_ix(c, p, w); assert(p != w); } } }
  assert forall|y: (int, bool)| #[trigger] f2.q.contains_key(y) implies nd(c, y) && vis(c, f2, y) && f2.q[y] == ds(c, f2, y) by { if y != w { assert(f.q.contains_key(y)); assert(nd(c, y)); } else { assert(nd(c, w)); } }
  assert forall|y: (int, bool), j: int| #[trigger] nd(c, y) && V.contains(ix(c, y)) && (y != u || j < k + 1) && 0 <= j < c.g.adj[y.0].len() implies #[trigger] frel(c, f2, y, j) by {
    assert(fvin(c, f, V, y)); assert(y != w); let a = c.g.adj[y.0][j]; let z = to(c, y, a); l_ix(c, y, w);
    if !c.H.contains(a) { l_arc_adj(c, y, j); assert(nd(c, z)); if !(y == u && j == k) { assert(frel(c, f, y, j)); if z == w && vis(c, f, w) { assert(x < ds(c, f, w)); } } else { assert(z == w); } } }
  assert(nd(c, u)); assert forall|j: int| 0 <= j < k + 1 implies #[trigger] frel(c, f2, u, j) by { assert(nd(c, u)); } }
proof fn l_f_scanned(c: Cx, f: Fr, V: Set<int>, u: (int, bool), d: real) requires fst(c, f, V, true, u, c.g.adj[u.0].len() as int, d) ensures fst(c, f, V, false, u, 0, d) { reveal(fst); }
// the meeting point after node w got distance x in f (or kept a smaller one)
proof fn l_m_step(c: Cx, f: Fr, f2: Fr, b: Fr, w: (int, bool), x: real, bs: bool, best: real, x0: (int, bool), e: (int, bool), bs2: bool, best2: real, x2: (int, bool))
  requires met(c, f, b, bs, best, x0), nd(c, w), f2.src == f.src, f.dist.len() == 2 * c.g.n, f.pred.len() == 2 * c.g.n, vis(c, f2, w),
    f2 == f ==> vis(c, f, w) && ds(c, f, w) <= x, f2 != f ==> w != f.src && (vis(c, f, w) ==> x < ds(c, f, w)) && f2.dist == f.dist.update(ix(c, w), x) && f2.pred.len() == f.pred.len() && f2.pred[ix(c, w)].1 && forall|i: int| 0 <= i < f.pred.len() && i != ix(c, w) ==> #[trigger] f2.pred[i] == f.pred[i],
    vis(c, b, w) ==> x + ds(c, b, w) < dmax(), ds(c, b, w) >= 0real || !vis(c, b, w),
    vis(c, b, w) && x + ds(c, b, w) < best ==> bs2 && best2 == x + ds(c, b, w) && x2 == w, !(vis(c, b, w) && x + ds(c, b, w) < best) ==> bs2 == bs && best2 == best && x2 == x0
  ensures met(c, f2, b, bs2, best2, x2)
{ reveal(met); l_ix(c, w, w);
  assert forall|y: (int, bool)| #[trigger] nd(c, y) && vis(c, f2, y) && vis(c, b, y) implies bs2 && best2 <= ds(c, f2, y) + ds(c, b, y) by { l_ix(c, y, w); if y == w { if f2 == f { assert(bs && best <= ds(c, f, y) + ds(c, b, y)); } } else { assert(vis(c, f, y)); assert(bs && best <= ds(c, f, y) + ds(c, b, y)); } }
  if bs2 && x2 == x0 && !(vis(c, b, w) && x + ds(c, b, w) < best) { assert(nd(c, x0)); l_ix(c, x0, w); if x0 == w && f2 != f { assert(best == ds(c, f, w) + ds(c, b, w)); assert(x + ds(c, b, w) < best); } }
  if vis(c, b, w) && x + ds(c, b, w) < best { if f2 == f { assert(best <= ds(c, f, w) + ds(c, b, w)); } } }

// ---- termination: no walk between the sources is lighter than the best meeting point
pub open spec fn at(c: Cx, a: (int, bool), vs: Seq<int>, es: Seq<int>, i: int) -> (int, bool) { (vs[i], a.1 != par(c.S, es, i)) }
pub open spec fn pre(c: Cx, es: Seq<int>, i: int) -> real { wsum(c.wm, es.take(i)) }
proof fn l_swk_at(c: Cx, a: (int, bool), b: (int, bool), vs: Seq<int>, es: Seq<int>, i: int)
  requires cok(c), swk(c, a, b, vs, es), 0 <= i < es.len()
  ensures arc(c, at(c, a, vs, es, i), es[i], at(c, a, vs, es, i + 1)), nd(c, at(c, a, vs, es, i)), nd(c, at(c, a, vs, es, i + 1)), pre(c, es, i + 1) == pre(c, es, i) + c.wm[es[i]], c.wm[es[i]] > 0real, 0real <= pre(c, es, i), pre(c, es, i + 1) <= wsum(c.wm, es)
{ l_ww_ids(c.g, vs, es, a.0, b.0); assert(joins(c.g, es[i], vs[i], vs[i + 1])); assert(vid(c.g, vs[i])); assert(vid(c.g, vs[i + 1])); assert(eid(c.g, es[i])); assert(c.wm[es[i]] > 0real);
  assert(es.take(i + 1).drop_last() =~= es.take(i)); assert(es.take(i + 1).last() == es[i]); assert(!c.H.contains(es[i])); l_pre_pos(c, es, i); l_pre_le(c, es, i + 1); }
proof fn l_pre_pos(c: Cx, es: Seq<int>, i: int) requires pos(c.wm), 0 <= i <= es.len(), forall|x: int| 0 <= x < es.len() ==> 0 <= #[trigger] es[x] < c.wm.len() ensures pre(c, es, i) >= 0real
{ let p = es.take(i); assert forall|x: int| 0 <= x < p.len() implies 0 <= #[trigger] p[x] < c.wm.len() by { assert(p[x] == es[x]); } l_wsum_gt(c.g, c.wm, p); }
proof fn l_pre_le(c: Cx, es: Seq<int>, i: int) requires pos(c.wm), 0 <= i <= es.len(), forall|x: int| 0 <= x < es.len() ==> 0 <= #[trigger] es[x] < c.wm.len() ensures pre(c, es, i) <= wsum(c.wm, es)
{ let p = es.skip(i); assert forall|x: int| 0 <= x < p.len() implies 0 <= #[trigger] p[x] < c.wm.len() by { assert(p[x] == es[i + x]); } l_wsum_gt(c.g, c.wm, p); assert(es =~= es.take(i) + p); l_wsum_cat(c.wm, es.take(i), p); }
proof fn l_pre_mono(c: Cx, es: Seq<int>, i: int, j: int) requires pos(c.wm), 0 <= i <= j <= es.len(), forall|x: int| 0 <= x < es.len() ==> 0 <= #[trigger] es[x] < c.wm.len() ensures pre(c, es, i) <= pre(c, es, j)
{ let q = es.take(j); assert forall|x: int| 0 <= x < q.len() implies 0 <= #[trigger] q[x] < c.wm.len() by { assert(q[x] == es[x]); } l_pre_le(c, q, i); assert(q.take(i) =~= es.take(i)); }
proof fn l_swk_nonneg(c: Cx, a: (int, bool), b: (int, bool), vs: Seq<int>, es: Seq<int>) requires cok(c), swk(c, a, b, vs, es) ensures wsum(c.wm, es) >= 0real
{ l_ww_ids(c.g, vs, es, a.0, b.0); l_wsum_gt(c.g, c.wm, es); }
// settled up to i - 1: node i of the walk is visited and not further than the walk
proof fn l_f_pre(c: Cx, f: Fr, V: Set<int>, u: (int, bool), d: real, b: (int, bool), vs: Seq<int>, es: Seq<int>, i: int)
  requires cok(c), fst(c, f, V, false, u, 0, d), swk(c, f.src, b, vs, es), below_lim(c, wsum(c.wm, es)), 0 <= i <= es.len(), forall|j: int| 0 <= j < i ==> V.contains(#[trigger] ix(c, at(c, f.src, vs, es, j)))
  ensures ({ let x = at(c, f.src, vs, es, i); nd(c, x) && vis(c, f, x) && ds(c, f, x) <= pre(c, es, i) }) decreases i
{ let x = at(c, f.src, vs, es, i);
  if i == 0 { assert(x == f.src); assert(es.take(0) =~= Seq::empty()); reveal(fst); assert(nd(c, f.src)); }
  else { l_f_pre(c, f, V, u, d, b, vs, es, i - 1); let y = at(c, f.src, vs, es, i - 1); l_swk_at(c, f.src, b, vs, es, i - 1); let e = es[i - 1]; assert(arc(c, y, e, x)); l_adj(c.g, y.0); assert(inc(c.g, e, y.0)); assert(c.g.adj[y.0].contains(e));
    let j = choose|j: int| 0 <= j < c.g.adj[y.0].len() && c.g.adj[y.0][j] == e; reveal(fst); assert(nd(c, y)); assert(V.contains(ix(c, y))); assert(frel(c, f, y, j)); assert(oth(c.g, e, y.0) == x.0); assert(to(c, y, e) == x); } }
// the first node of the walk that is not settled, or its end
pub open spec fn front(c: Cx, V: Set<int>, a: (int, bool), vs: Seq<int>, es: Seq<int>, i: int) -> bool {
  0 <= i <= es.len() && (forall|j: int| 0 <= j < i ==> V.contains(#[trigger] ix(c, at(c, a, vs, es, j)))) && (i < es.len() ==> !V.contains(ix(c, at(c, a, vs, es, i)))) }
proof fn l_front(c: Cx, V: Set<int>, a: (int, bool), vs: Seq<int>, es: Seq<int>, n: int) -> (i: int)
  requires 0 <= n <= es.len(), forall|j: int| 0 <= j < n ==> V.contains(#[trigger] ix(c, at(c, a, vs, es, j))) ensures front(c, V, a, vs, es, i) decreases es.len() - n
{ if n == es.len() { n } else if !V.contains(ix(c, at(c, a, vs, es, n))) { n } else { l_front(c, V, a, vs, es, n + 1) } }
proof fn l_rev1(es: Seq<int>) requires es.len() > 0 ensures es.reverse() =~= seq![es.last()] + es.drop_last().reverse() {}
proof fn l_wsum_rev(wm: Seq<real>, es: Seq<int>) ensures wsum(wm, es.reverse()) == wsum(wm, es) decreases es.len()
{ if es.len() > 0 { l_rev1(es); l_wsum_rev(wm, es.drop_last()); l_wsum_cat(wm, seq![es.last()], es.drop_last().reverse()); reveal_with_fuel(wsum, 2); assert(seq![es.last()].drop_last() =~= Seq::empty()); assert(es.reverse() == seq![es.last()] + es.drop_last().reverse()); } else { assert(es.reverse() =~= es); } }
proof fn l_par_rev(S: Set<int>, es: Seq<int>) ensures par(S, es.reverse(), es.len() as int) == par(S, es, es.len() as int) decreases es.len()
{ if es.len() > 0 { let p = es.drop_last(); l_rev1(es); l_par_rev(S, p); l_par_cat(S, seq![es.last()], p.reverse()); reveal_with_fuel(par, 2); assert(es.reverse() == seq![es.last()] + p.reverse()); l_par_ext(S, es, p, p.len() as int); assert(par(S, seq![es.last()], 1) == S.contains(es.last())); } else { assert(es.reverse() =~= es); } }
proof fn l_swk_rev(c: Cx, a: (int, bool), b: (int, bool), vs: Seq<int>, es: Seq<int>) requires cok(c), swk(c, a, b, vs, es) ensures swk(c, b, a, vs.reverse(), es.reverse()), wsum(c.wm, es.reverse()) == wsum(c.wm, es)
{ l_ww_rev(c.g, vs, es, a.0, b.0); l_wsum_rev(c.wm, es); l_par_rev(c.S, es); let r = es.reverse(); assert forall|i: int| 0 <= i < r.len() implies !c.H.contains(#[trigger] r[i]) by { assert(r[i] == es[es.len() - 1 - i]); } }
// positions and weights seen from the other end
proof fn l_at_rev(c: Cx, a: (int, bool), b: (int, bool), vs: Seq<int>, es: Seq<int>, j: int) requires cok(c), swk(c, a, b, vs, es), 0 <= j <= es.len()
  ensures at(c, b, vs.reverse(), es.reverse(), j) == at(c, a, vs, es, es.len() - j), pre(c, es.reverse(), j) == wsum(c.wm, es) - pre(c, es, es.len() - j)
{ let k = es.len() as int; let r = es.reverse(); let q = es.skip(k - j); let p = es.take(k - j); assert(es =~= p + q); l_wsum_cat(c.wm, p, q); l_par_cat(c.S, p, q); assert(r.take(j) =~= q.reverse()); l_wsum_rev(c.wm, q); l_par_rev(c.S, q);
  l_par_ext(c.S, r, q.reverse(), j); l_par_ext(c.S, es, p, k - j); assert(vs.reverse()[j] == vs[k - j]); assert(q.len() == j && p.len() == k - j); assert(es == p + q); }
// t is a cheapest queue entry
pub open spec fn qmin(f: Fr, t: (int, bool)) -> bool { f.q.contains_key(t) && forall|y: (int, bool)| #[trigger] f.q.contains_key(y) ==> !(f.q[y] < f.q[t]) }
pub open spec fn qempty(f: Fr) -> bool { forall|y: (int, bool)| !(#[trigger] f.q.contains_key(y)) }
proof fn l_unset_q(c: Cx, f: Fr, V: Set<int>, u: (int, bool), d: real, x: (int, bool)) requires cok(c), fst(c, f, V, false, u, 0, d), nd(c, x), vis(c, f, x) ensures !V.contains(ix(c, x)) ==> f.q.contains_key(x) && f.q[x] == ds(c, f, x), ds(c, f, x) >= 0real
{ reveal(fst); assert(fnode(c, f, V, d, x)); if f.q.contains_key(x) { assert(f.q[x] == ds(c, f, x)); } }
#[verifier::rlimit(40)]
proof fn l_bidi_end(c: Cx, f: Fr, Vf: Set<int>, uf: (int, bool), df: real, b: Fr, Vb: Set<int>, ub: (int, bool), db: real, bs: bool, best: real, x0: (int, bool), tf: (int, bool), tb: (int, bool), vs: Seq<int>, es: Seq<int>)
  requires cok(c), fst(c, f, Vf, false, uf, 0, df), fst(c, b, Vb, false, ub, 0, db), met(c, f, b, bs, best, x0), swk(c, f.src, b.src, vs, es), below_lim(c, wsum(c.wm, es)),
    qempty(f) || qempty(b) || (bs && qmin(f, tf) && qmin(b, tb) && !(f.q[tf] + b.q[tb] < best))
  ensures bs && best <= wsum(c.wm, es)
{ let k = es.len() as int; let rv = vs.reverse(); let re = es.reverse(); l_swk_rev(c, f.src, b.src, vs, es); l_ww_ids(c.g, vs, es, f.src.0, b.src.0);
  let i = l_front(c, Vf, f.src, vs, es, 0); let j0 = l_front(c, Vb, b.src, rv, re, 0); let j = k - j0;
  l_f_pre(c, f, Vf, uf, df, b.src, vs, es, i); l_f_pre(c, b, Vb, ub, db, f.src, rv, re, j0); l_at_rev(c, f.src, b.src, vs, es, j0);
  let x = at(c, f.src, vs, es, i); let y = at(c, f.src, vs, es, j);
  if j <= i { let i1 = k - i; assert forall|z: int| 0 <= z < i1 implies Vb.contains(#[trigger] ix(c, at(c, b.src, rv, re, z))) by { assert(z < j0); }
    l_f_pre(c, b, Vb, ub, db, f.src, rv, re, i1); l_at_rev(c, f.src, b.src, vs, es, i1); reveal(met); assert(nd(c, x)); }
  else { l_unset_q(c, f, Vf, uf, df, x); l_unset_q(c, b, Vb, ub, db, y); assert(f.q.contains_key(x)); assert(b.q.contains_key(y)); assert(!(f.q[x] < f.q[tf])); assert(!(b.q[y] < b.q[tb])); l_pre_mono(c, es, i, j); } }
// ---- the answer
pub open spec fn ends(f: Fr, b: Fr, s: (int, bool), t: (int, bool)) -> bool { (f.src == s && b.src == t) || (f.src == t && b.src == s) }
pub open spec fn post(c: Cx, s: (int, bool), t: (int, bool), T: Set<int>, W: real, f: bool) -> bool { bsd_post(c.g, c.wm, c.H, c.S, s.0, t.0, s.1 != t.1, c.ul, c.lim, T, W, f) }
// no walk between a and b is lighter than best
#[verifier::opaque]
pub open spec fn opt(c: Cx, a: (int, bool), b: (int, bool), best: real) -> bool { (c.ul ==> best < c.lim) && forall|vs: Seq<int>, es: Seq<int>| #[trigger] swk(c, a, b, vs, es) ==> best <= wsum(c.wm, es) }
proof fn l_bidi_lim(c: Cx, s: (int, bool), t: (int, bool), T: Set<int>, W: real) requires cok(c), c.ul, c.lim <= 0real ensures post(c, s, t, T, W, false)
{ reveal(bsd_post); let o = s.1 != t.1; assert forall|vs: Seq<int>, es: Seq<int>| #[trigger] sgw(c.g, c.H, c.S, s.0, t.0, o, vs, es) implies wsum(c.wm, es) >= c.lim by { assert(swk(c, s, t, vs, es)); l_swk_nonneg(c, s, t, vs, es); } }
pub open spec fn done(c: Cx, f: Fr, b: Fr, bs: bool, best: real) -> bool { forall|vs: Seq<int>, es: Seq<int>| #[trigger] swk(c, f.src, b.src, vs, es) && below_lim(c, wsum(c.wm, es)) ==> bs && best <= wsum(c.wm, es) }
proof fn l_done(c: Cx, f: Fr, Vf: Set<int>, uf: (int, bool), df: real, b: Fr, Vb: Set<int>, ub: (int, bool), db: real, bs: bool, best: real, x0: (int, bool), tf: (int, bool), tb: (int, bool))
  requires cok(c), fst(c, f, Vf, false, uf, 0, df), fst(c, b, Vb, false, ub, 0, db), met(c, f, b, bs, best, x0), qempty(f) || qempty(b) || (bs && qmin(f, tf) && qmin(b, tb) && !(f.q[tf] + b.q[tb] < best))
  ensures done(c, f, b, bs, best)
{ assert forall|vs: Seq<int>, es: Seq<int>| #[trigger] swk(c, f.src, b.src, vs, es) && below_lim(c, wsum(c.wm, es)) implies bs && best <= wsum(c.wm, es) by { l_bidi_end(c, f, Vf, uf, df, b, Vb, ub, db, bs, best, x0, tf, tb, vs, es); } }
proof fn l_bidi_none(c: Cx, f: Fr, b: Fr, bs: bool, best: real, s: (int, bool), t: (int, bool), T: Set<int>, W: real)
  requires cok(c), done(c, f, b, bs, best), ends(f, b, s, t), !bs || (c.ul && !(best < c.lim)) ensures post(c, s, t, T, W, false)
{ reveal(bsd_post); let o = s.1 != t.1; assert forall|vs: Seq<int>, es: Seq<int>| #[trigger] sgw(c.g, c.H, c.S, s.0, t.0, o, vs, es) implies c.ul && wsum(c.wm, es) >= c.lim by { assert(swk(c, s, t, vs, es)); if f.src == s && b.src == t {} else { l_swk_rev(c, s, t, vs, es); assert(swk(c, f.src, b.src, vs.reverse(), es.reverse())); } } }
proof fn l_opt(c: Cx, f: Fr, b: Fr, best: real) requires done(c, f, b, true, best), c.ul ==> best < c.lim ensures opt(c, f.src, b.src, best)
{ reveal(opt); assert forall|vs: Seq<int>, es: Seq<int>| #[trigger] swk(c, f.src, b.src, vs, es) implies best <= wsum(c.wm, es) by { if below_lim(c, wsum(c.wm, es)) {} } }
proof fn l_smin(c: Cx, s: (int, bool), t: (int, bool), vs: Seq<int>, es: Seq<int>) requires cok(c), swk(c, s, t, vs, es), opt(c, s, t, wsum(c.wm, es)) ensures smin(c.g, c.wm, c.H, c.S, s.0, t.0, s.1 != t.1, vs, es), c.ul ==> wsum(c.wm, es) < c.lim
{ reveal(opt); let o = s.1 != t.1; assert forall|us: Seq<int>, fs: Seq<int>| #[trigger] sgw(c.g, c.H, c.S, s.0, t.0, o, us, fs) implies wsum(c.wm, es) <= wsum(c.wm, fs) by { assert(swk(c, s, t, us, fs)); } }
proof fn l_opt_rev(c: Cx, a: (int, bool), b: (int, bool), best: real) requires cok(c), opt(c, a, b, best) ensures opt(c, b, a, best)
{ reveal(opt); assert forall|vs: Seq<int>, es: Seq<int>| #[trigger] swk(c, b, a, vs, es) implies best <= wsum(c.wm, es) by { l_swk_rev(c, b, a, vs, es); assert(swk(c, a, b, vs.reverse(), es.reverse())); } }
proof fn l_answer1(c: Cx, s: (int, bool), t: (int, bool), vs: Seq<int>, es: Seq<int>) requires cok(c), swk(c, s, t, vs, es), opt(c, s, t, wsum(c.wm, es))
  ensures es.no_duplicates() ==> post(c, s, t, es.to_set(), wsum(c.wm, es), true), !es.no_duplicates() ==> forall|T: Set<int>, W: real| #[trigger] post(c, s, t, T, W, false)
{ l_smin(c, s, t, vs, es); reveal(bsd_post); }
proof fn l_rev_nd(es: Seq<int>) ensures es.reverse().no_duplicates() ==> es.no_duplicates(), es.reverse().to_set() =~= es.to_set()
{ let r = es.reverse(); assert(r.reverse() =~= es); if r.no_duplicates() { assert forall|i: int, j: int| 0 <= i < es.len() && 0 <= j < es.len() && i != j implies es[i] != es[j] by { assert(r[es.len() - 1 - i] == es[i]); assert(r[es.len() - 1 - j] == es[j]); } }
  assert forall|x: int| r.to_set().contains(x) <==> es.to_set().contains(x) by { if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(es[es.len() - 1 - i] == x); } if es.contains(x) { let i = choose|i: int| 0 <= i < es.len() && es[i] == x; assert(r[es.len() - 1 - i] == x); } } }
proof fn l_answer(c: Cx, f: Fr, b: Fr, s: (int, bool), t: (int, bool), vs: Seq<int>, es: Seq<int>) requires cok(c), ends(f, b, s, t), swk(c, f.src, b.src, vs, es), opt(c, f.src, b.src, wsum(c.wm, es))
  ensures es.no_duplicates() ==> post(c, s, t, es.to_set(), wsum(c.wm, es), true), !es.no_duplicates() ==> forall|T: Set<int>, W: real| #[trigger] post(c, s, t, T, W, false)
{ if f.src == s && b.src == t { l_answer1(c, s, t, vs, es); } else { l_swk_rev(c, t, s, vs, es); l_opt_rev(c, t, s, wsum(c.wm, es)); l_answer1(c, s, t, vs.reverse(), es.reverse()); l_rev_nd(es); l_rev_nd(es.reverse()); assert(es.reverse().reverse() =~= es); } }
// ---- the path through the two trees
proof fn l_swk_cat(c: Cx, a: (int, bool), x: (int, bool), b: (int, bool), vs: Seq<int>, es: Seq<int>, us: Seq<int>, fs: Seq<int>) requires swk(c, a, x, vs, es), swk(c, x, b, us, fs) ensures swk(c, a, b, vs + us.skip(1), es + fs), wsum(c.wm, es + fs) == wsum(c.wm, es) + wsum(c.wm, fs)
{ l_wsum_cat(c.wm, es, fs); l_par_cat(c.S, es, fs); l_ww_cat(c.g, vs, es, a.0, x.0, us, fs, b.0); let gs = es + fs; let k = es.len() as int;
  assert forall|i: int| 0 <= i < gs.len() implies !c.H.contains(#[trigger] gs[i]) by { if i < k { assert(gs[i] == es[i]); } else { assert(gs[i] == fs[i - k]); } } }
pub open spec fn pw(c: Cx, a: (int, bool), b: (int, bool), T: Set<int>, W: real, vs: Seq<int>, es: Seq<int>) -> bool { swk(c, a, b, vs, es) && es.no_duplicates() && T == es.to_set() && W == wsum(c.wm, es) }
#[verifier::opaque]
pub open spec fn path(c: Cx, a: (int, bool), b: (int, bool), T: Set<int>, W: real) -> bool { exists|vs: Seq<int>, es: Seq<int>| #[trigger] pw(c, a, b, T, W, vs, es) }
proof fn l_path0(c: Cx, a: (int, bool), T: Set<int>) requires nd(c, a), T =~= Set::empty() ensures path(c, a, a, T, 0real) { reveal(path); let es = Seq::<int>::empty(); assert(ww(c.g, seq![a.0], es, a.0, a.0)); assert(es.to_set() =~= Set::empty()); assert(T == es.to_set()); assert(pw(c, a, a, T, 0real, seq![a.0], es)); }
proof fn l_arc_rev(c: Cx, p: (int, bool), e: int, x: (int, bool)) requires arc(c, p, e, x) ensures arc(c, x, e, p) {}
proof fn l_seq1(c: Cx, p: (int, bool), e: int, x: (int, bool)) requires arc(c, p, e, x) ensures swk(c, p, x, seq![p.0, x.0], seq![e]), wsum(c.wm, seq![e]) == c.wm[e]
{ let E0 = Seq::<int>::empty(); assert(ww(c.g, seq![p.0], E0, p.0, p.0)); assert(swk(c, p, p, seq![p.0], E0)); l_swk1(c, p, p, e, x, seq![p.0], E0); assert(seq![p.0].push(x.0) =~= seq![p.0, x.0]); assert(E0.push(e) =~= seq![e]); }
proof fn l_set_cons(e: int, es: Seq<int>) ensures (seq![e] + es).to_set() =~= es.to_set().insert(e), (es.push(e)).to_set() =~= es.to_set().insert(e), es.no_duplicates() && !es.contains(e) ==> (seq![e] + es).no_duplicates() && es.push(e).no_duplicates(), es.contains(e) ==> !(seq![e] + es).no_duplicates() && !es.push(e).no_duplicates()
{ let r = seq![e] + es; let q = es.push(e);
  assert forall|x: int| r.to_set().contains(x) <==> es.to_set().insert(e).contains(x) by { if es.contains(x) { let i = choose|i: int| 0 <= i < es.len() && es[i] == x; assert(r[i + 1] == x); } assert(r[0] == e); if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; if i > 0 { assert(es[i - 1] == x); } } }
  assert forall|x: int| q.to_set().contains(x) <==> es.to_set().insert(e).contains(x) by { if es.contains(x) { let i = choose|i: int| 0 <= i < es.len() && es[i] == x; assert(q[i] == x); } assert(q[es.len() as int] == e); if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; if i < es.len() { assert(es[i] == x); } } }
  if es.no_duplicates() && !es.contains(e) { assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { if i > 0 { assert(r[i] == es[i - 1]); } if j > 0 { assert(r[j] == es[j - 1]); } } }
  if es.contains(e) { let i = choose|i: int| 0 <= i < es.len() && es[i] == e; assert(r[i + 1] == e && r[0] == e); assert(q[i] == e && q[es.len() as int] == e); } }
// the tree edge above a visited node
proof fn l_up(c: Cx, f: Fr, V: Set<int>, u: (int, bool), d: real, x: (int, bool)) requires cok(c), fst(c, f, V, false, u, 0, d), nd(c, x), vis(c, f, x)
  ensures 0 <= ix(c, x) < 2 * c.g.n, f.pred.len() == 2 * c.g.n, x != f.src ==> ({ let p = f.pred[ix(c, x)]; p.1 && edge_ok(c.g, p.2) && eid(c.g, p.2.id) && arc(c, p.0, p.2.id, x) && nd(c, p.0) && vis(c, f, p.0) && ds(c, f, x) == ds(c, f, p.0) + c.wm[p.2.id] })
{ reveal(fst); assert(fnode(c, f, V, d, x)); l_ix(c, x, x); }
proof fn l_path_up(c: Cx, p: (int, bool), e: int, x: (int, bool), y: (int, bool), T: Set<int>, T2: Set<int>, W: real) requires path(c, x, y, T, W), arc(c, p, e, x), !T.contains(e), T2 =~= T.insert(e) ensures path(c, p, y, T2, W + c.wm[e])
{ reveal(path); let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] pw(c, x, y, T, W, vs, es); l_seq1(c, p, e, x); l_swk_cat(c, p, x, y, seq![p.0, x.0], seq![e], vs, es); l_set_cons(e, es); assert(!es.contains(e)) by { if es.contains(e) { assert(es.to_set().contains(e)); } } assert(pw(c, p, y, T2, W + c.wm[e], seq![p.0, x.0] + vs.skip(1), seq![e] + es)); }
proof fn l_path_down(c: Cx, a: (int, bool), x: (int, bool), e: int, p: (int, bool), T: Set<int>, T2: Set<int>, W: real) requires path(c, a, x, T, W), arc(c, p, e, x), !T.contains(e), T2 =~= T.insert(e) ensures path(c, a, p, T2, W + c.wm[e])
{ reveal(path); let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] pw(c, a, x, T, W, vs, es); l_swk1(c, a, x, e, p, vs, es); l_set_cons(e, es); assert(!es.contains(e)) by { if es.contains(e) { assert(es.to_set().contains(e)); } } assert(pw(c, a, p, T2, W + c.wm[e], vs.push(p.0), es.push(e))); }
proof fn l_path_end(c: Cx, f: Fr, b: Fr, s: (int, bool), t: (int, bool), T: Set<int>, W: real) requires cok(c), ends(f, b, s, t), path(c, f.src, b.src, T, W), opt(c, f.src, b.src, W) ensures post(c, s, t, T, W, true)
{ reveal(path); let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] pw(c, f.src, b.src, T, W, vs, es); l_answer(c, f, b, s, t, vs, es); }
proof fn l_dup_cat(A: Seq<int>, B: Seq<int>) requires !A.no_duplicates() || !B.no_duplicates() ensures !(A + B).no_duplicates()
{ let C = A + B; if !A.no_duplicates() { let (i, j) = choose|i: int, j: int| 0 <= i < A.len() && 0 <= j < A.len() && i != j && A[i] == A[j]; assert(C[i] == C[j]); } else { let (i, j) = choose|i: int, j: int| 0 <= i < B.len() && 0 <= j < B.len() && i != j && B[i] == B[j]; assert(C[i + A.len()] == B[i] && C[j + A.len()] == B[j]); } }
pub open spec fn l_dup_vs(v1: Seq<int>, p: int, x: int, vs: Seq<int>, r2: Seq<int>) -> Seq<int> { v1 + (seq![p, x] + vs.skip(1)).skip(1) + r2.skip(1) }
proof fn l_dup_mid(c: Cx, a: (int, bool), p: (int, bool), e: int, x: (int, bool), x0: (int, bool), b: (int, bool), v1: Seq<int>, e1: Seq<int>, vs: Seq<int>, es: Seq<int>, r2: Seq<int>, s2: Seq<int>)
  requires swk(c, a, p, v1, e1), arc(c, p, e, x), swk(c, x, x0, vs, es), es.contains(e), swk(c, x0, b, r2, s2)
  ensures ({ let ec = e1 + (seq![e] + es) + s2; swk(c, a, b, l_dup_vs(v1, p.0, x.0, vs, r2), ec) && !ec.no_duplicates() && wsum(c.wm, ec) == wsum(c.wm, e1) + c.wm[e] + wsum(c.wm, es) + wsum(c.wm, s2) })
{ l_seq1(c, p, e, x); let va = seq![p.0, x.0]; l_swk_cat(c, p, x, x0, va, seq![e], vs, es); l_set_cons(e, es); let vb = va + vs.skip(1); let eb = seq![e] + es;
  l_swk_cat(c, a, p, x0, v1, e1, vb, eb); let vc = v1 + vb.skip(1); let ec = e1 + eb; l_dup_cat(e1, eb); l_swk_cat(c, a, x0, b, vc, ec, r2, s2); l_dup_cat(ec, s2); }
// an edge met twice on the way up the first tree
proof fn l_dup1(c: Cx, f: Fr, Vf: Set<int>, uf: (int, bool), df: real, b: Fr, Vb: Set<int>, ub: (int, bool), db: real, s: (int, bool), t: (int, bool), x0: (int, bool), x: (int, bool), T: Set<int>, W: real)
  requires cok(c), fst(c, f, Vf, false, uf, 0, df), fst(c, b, Vb, false, ub, 0, db), ends(f, b, s, t), opt(c, f.src, b.src, ds(c, f, x0) + ds(c, b, x0)), nd(c, x0), vis(c, b, x0), nd(c, x), vis(c, f, x), x != f.src,
    path(c, x, x0, T, W), ds(c, f, x) + W == ds(c, f, x0), T.contains(f.pred[ix(c, x)].2.id)
  ensures forall|T2: Set<int>, W2: real| #[trigger] post(c, s, t, T2, W2, false)
{ reveal(path); l_up(c, f, Vf, uf, df, x); let p = f.pred[ix(c, x)]; let e = p.2.id; let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] pw(c, x, x0, T, W, vs, es); assert(es.contains(e)) by { assert(es.to_set().contains(e)); }
  l_fst_ds(c, f, Vf, false, uf, 0, df, p.0); let (v1, e1) = choose|v1: Seq<int>, e1: Seq<int>| #[trigger] rch_by(c, f.src, p.0, ds(c, f, p.0), v1, e1);
  l_fst_ds(c, b, Vb, false, ub, 0, db, x0); let (v2, e2) = choose|v2: Seq<int>, e2: Seq<int>| #[trigger] rch_by(c, b.src, x0, ds(c, b, x0), v2, e2); l_swk_rev(c, b.src, x0, v2, e2); let r2 = v2.reverse(); let s2 = e2.reverse();
  assert(swk(c, x, x0, vs, es)); l_dup_mid(c, f.src, p.0, e, x, x0, b.src, v1, e1, vs, es, r2, s2); let eb = e1 + (seq![e] + es) + s2; let vb = l_dup_vs(v1, p.0.0, x.0, vs, r2); l_answer(c, f, b, s, t, vb, eb); }
proof fn l_dup2(c: Cx, f: Fr, b: Fr, Vb: Set<int>, ub: (int, bool), db: real, s: (int, bool), t: (int, bool), x: (int, bool), T: Set<int>, W: real, best: real)
  requires cok(c), fst(c, b, Vb, false, ub, 0, db), ends(f, b, s, t), opt(c, f.src, b.src, best), nd(c, x), vis(c, b, x), x != b.src, path(c, f.src, x, T, W), W + ds(c, b, x) == best, T.contains(b.pred[ix(c, x)].2.id)
  ensures forall|T2: Set<int>, W2: real| #[trigger] post(c, s, t, T2, W2, false)
{ reveal(path); l_up(c, b, Vb, ub, db, x); let p = b.pred[ix(c, x)]; let e = p.2.id; let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] pw(c, f.src, x, T, W, vs, es); assert(es.contains(e)) by { assert(es.to_set().contains(e)); }
  l_fst_ds(c, b, Vb, false, ub, 0, db, p.0); let (v2, e2) = choose|v2: Seq<int>, e2: Seq<int>| #[trigger] rch_by(c, b.src, p.0, ds(c, b, p.0), v2, e2); l_swk_rev(c, b.src, p.0, v2, e2); let r2 = v2.reverse(); let s2 = e2.reverse();
  l_arc_rev(c, p.0, e, x); l_swk1(c, f.src, x, e, p.0, vs, es); l_set_cons(e, es); let ea = es.push(e); let va = vs.push(p.0.0); l_swk_cat(c, f.src, p.0, b.src, va, ea, r2, s2); l_dup_cat(ea, s2); l_answer(c, f, b, s, t, va + r2.skip(1), ea + s2); }

// what the queues hold
proof fn l_q(c: Cx, f: Fr, V: Set<int>, u: (int, bool), d: real)
  requires cok(c), fst(c, f, V, false, u, 0, d) ensures forall|x: (int, bool)| #[trigger] f.q.contains_key(x) ==> nd(c, x) && vis(c, f, x) && f.q[x] == ds(c, f, x) && 0 <= ix(c, x) < 2 * c.g.n && 0real <= f.q[x] <= hops(c.wm, 2 * c.g.n), f.q.len() == 0 ==> qempty(f)
{ assert forall|x: (int, bool)| #[trigger] f.q.contains_key(x) implies nd(c, x) && vis(c, f, x) && f.q[x] == ds(c, f, x) && 0 <= ix(c, x) < 2 * c.g.n && 0real <= f.q[x] <= hops(c.wm, 2 * c.g.n) by { assert(nd(c, x) && vis(c, f, x) && f.q[x] == ds(c, f, x)) by { reveal(fst); } l_fst_ds(c, f, V, false, u, 0, d, x); l_ix(c, x, x); }
  if f.q.len() == 0 { assert(f.q.dom() =~= Set::empty()) by { assert(f.q.dom().len() == 0); } assert forall|y: (int, bool)| !(#[trigger] f.q.contains_key(y)) by { assert(!f.q.dom().contains(y)); } } }
proof fn l_met_bs(c: Cx, f: Fr, b: Fr, bs: bool, best: real, x0: (int, bool)) requires met(c, f, b, bs, best, x0) ensures bs ==> nd(c, x0) && vis(c, f, x0) && vis(c, b, x0) && best == ds(c, f, x0) + ds(c, b, x0) && best < dmax(), !bs ==> best == dmax() { reveal(met); }
proof fn l_met_q(c: Cx, f: Fr, f2: Fr, b: Fr, bs: bool, best: real, x0: (int, bool)) requires met(c, f, b, bs, best, x0), f2.dist == f.dist, f2.pred == f.pred, f2.src == f.src ensures met(c, f2, b, bs, best, x0)
{ reveal(met); assert forall|y: (int, bool)| #[trigger] nd(c, y) && vis(c, f2, y) && vis(c, b, y) implies bs && best <= ds(c, f2, y) + ds(c, b, y) by { assert(vis(c, f, y)); } }
