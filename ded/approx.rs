// ---- the cycles of the approximation algorithm
#[verifier::opaque]
pub open spec fn gpre(g: G, wm: Seq<real>) -> bool { wf(g) && no_loops(g) && wm.len() == g.ends.len() && pos(wm) && hops(wm, g.n) < dmax() && hops(wm, 4 * g.n) < dmax() }
#[verifier::opaque]
pub open spec fn sp_any(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>) -> bool { exists|k: int| k >= 1 && #[trigger] spanner_post(g, wm, k, sp, mp, ns) }
// the edge e closed by a shortest spanner path
pub open spec fn closing_by(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, e: Edge, c: Seq<Edge>, vs: Seq<int>, es: Seq<int>) -> bool {
  ww(sp, vs, es, e.t, e.s) && dist_is(sp, sp.w, e.s, e.t, wsum(sp.w, es)) && wsum(wm, eids(c)) == wm[e.id] + wsum(sp.w, es) && c.len() == es.len() + 1 && c.last() == e && forall|i: int| 0 <= i < es.len() ==> eid(sp, #[trigger] es[i]) && c[i] == mp[es[i]] }
pub open spec fn closing(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, e: Edge, c: Seq<Edge>) -> bool { cycle_of(g, c) && exists|vs: Seq<int>, es: Seq<int>| #[trigger] closing_by(g, wm, sp, mp, e, c, vs, es) }
pub open spec fn closings(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, cs: Seq<Seq<Edge>>) -> bool { forall|y: int| 0 <= y < cs.len() ==> closing(g, wm, sp, mp, ns[y], #[trigger] cs[y]) }
proof fn l_sub_wmax(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>) requires gpre(g, wm), sp_any(g, wm, sp, mp, ns) ensures dpre(sp, sp.w), hops(sp.w, 4 * sp.n) < dmax()
{ reveal(gpre); reveal(sp_any); let k = choose|k: int| k >= 1 && #[trigger] spanner_post(g, wm, k, sp, mp, ns);
  assert forall|x: int| 0 <= x < sp.w.len() implies 0real < #[trigger] sp.w[x] <= wmax(wm) by { assert(eid(sp, x)); assert(sp_e(g, wm, sp, mp, x)); assert(wm[mp[x].id] > 0real); l_wmax(wm, mp[x].id); }
  l_wmax0(wm); l_wmax0(sp.w); if wmax(sp.w) > 0real { let e = l_wmax_in(sp.w); assert(sp.w[e] <= wmax(wm)); }
  reveal(hops); let a = g.n as real; let b = (4 * g.n) as real; let p = wmax(sp.w); let q = wmax(wm); assert(a * p <= a * q) by (nonlinear_arith) requires a >= 0real, p <= q; assert(b * p <= b * q) by (nonlinear_arith) requires b >= 0real, p <= q; }
proof fn l_near_ww(g: G, S: Set<int>, p: Seq<int>, s: int, t: int) requires walk_uv(g, S, p, s, t) ensures conned(g, s, t) decreases p.len()
{ if p.len() == 1 { assert(ww(g, p, Seq::<int>::empty(), s, t)); } else { let q = p.drop_last(); let v = q.last();
    assert forall|i: int| 0 <= i < q.len() - 1 implies step(g, S, #[trigger] q[i], q[i + 1]) by { assert(step(g, S, p[i], p[i + 1])); }
    assert(walk_uv(g, S, q, s, v)); l_near_ww(g, S, q, s, v); let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] ww(g, vs, es, s, v);
    assert(step(g, S, p[p.len() - 2], p[p.len() - 2 + 1])); let e = choose|e: int| S.contains(e) && #[trigger] joins(g, e, v, t); let us = vs.push(t); let fs = es.push(e);
    assert forall|i: int| 0 <= i < fs.len() implies joins(g, #[trigger] fs[i], us[i], us[i + 1]) && vid(g, us[i + 1]) by { if i < es.len() { assert(fs[i] == es[i] && us[i] == vs[i] && us[i + 1] == vs[i + 1]); } }
    assert(ww(g, us, fs, s, t)); } }
// what is known about a spanner edge, about a dropped edge, about a vertex the search reached
proof fn l_spx(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, x: int) requires gpre(g, wm), sp_any(g, wm, sp, mp, ns), eid(sp, x)
  ensures sp_e(g, wm, sp, mp, x), mp.contains_key(x), edge_ok(g, mp[x]), eid(g, mp[x].id), sp.ends[x] == (mp[x].s, mp[x].t), sp.w[x] == wm[mp[x].id], wm[mp[x].id] > 0real, wm.len() == g.ends.len(), sp.ends[x].0 != sp.ends[x].1
{ reveal(gpre); reveal(sp_any); let k = choose|k: int| k >= 1 && #[trigger] spanner_post(g, wm, k, sp, mp, ns); assert(sp_e(g, wm, sp, mp, x)); }
proof fn l_spxx(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, x: int, y: int) requires sp_any(g, wm, sp, mp, ns), eid(sp, x), eid(sp, y), x != y ensures mp[x].id != mp[y].id
{ reveal(sp_any); let k = choose|k: int| k >= 1 && #[trigger] spanner_post(g, wm, k, sp, mp, ns); assert(partition(g, sp, mp, ns)); }
proof fn l_spy(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, y: int) requires gpre(g, wm), sp_any(g, wm, sp, mp, ns), 0 <= y < ns.len()
  ensures edge_ok(g, ns[y]), eid(g, ns[y].id), ns[y].id < wm.len(), wm.len() == g.ends.len(), vid(g, ns[y].s), vid(g, ns[y].t), sp.n == g.n, conned(sp, ns[y].s, ns[y].t)
{ reveal(gpre); reveal(sp_any); let k = choose|k: int| k >= 1 && #[trigger] spanner_post(g, wm, k, sp, mp, ns); assert(edge_ok(g, ns[y])); assert(eid(g, ns[y].id)); let s = ns[y].s; let u = ns[y].t;
  assert(near(sp, wm[ns[y].id], s, u, 2 * k - 1)); let p = choose|p: Seq<int>| #[trigger] near_by(sp, wm[ns[y].id], p, s, u, 2 * k - 1); l_near_ww(sp, light(sp, wm[ns[y].id]), p, s, u); }
proof fn l_spxy(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, x: int, y: int) requires gpre(g, wm), sp_any(g, wm, sp, mp, ns), eid(sp, x), 0 <= y < ns.len() ensures mp[x].id != ns[y].id
{ l_spx(g, wm, sp, mp, ns, x); reveal(sp_any); let k = choose|k: int| k >= 1 && #[trigger] spanner_post(g, wm, k, sp, mp, ns); assert(partition(g, sp, mp, ns)); assert(kept(sp, mp, mp[x].id)); assert(dropped(ns, ns[y].id)); assert(eid(g, mp[x].id)); }
#[verifier::opaque]
pub open spec fn dpost(sp: G, s: int, dist: Seq<real>, pred: Seq<(bool, Edge)>) -> bool { dij_post(sp, sp.w, s, dist, pred) }
proof fn l_dpost(sp: G, s: int, dist: Seq<real>, pred: Seq<(bool, Edge)>, v: int) requires dpost(sp, s, dist, pred), vid(sp, v)
  ensures dist.len() == sp.n, pred.len() == sp.n, !pred[s].0, dist[s] == 0real, dvis(s, pred, v) <==> conned(sp, s, v), dvis(s, pred, v) ==> dist_is(sp, sp.w, s, v, dist[v]) && dpred(sp, sp.w, s, dist, pred, v)
{ reveal(dpost); assert(dij_node(sp, sp.w, s, dist, pred, v)); }
// following predecessors from u: vertices vs, spanner edges es, edges c of the caller's graph
#[verifier::opaque]
pub open spec fn back(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, s: int, u: int, dist: Seq<real>, pred: Seq<(bool, Edge)>, vs: Seq<int>, es: Seq<int>, c: Seq<Edge>, x: int, W: real) -> bool {
  ww(sp, vs, es, u, x) && c.len() == es.len() && (forall|i: int| 0 <= i < es.len() ==> eid(sp, #[trigger] es[i]) && c[i] == mp[es[i]])
  && (forall|i: int| 0 <= i < vs.len() ==> vid(sp, #[trigger] vs[i]) && dvis(s, pred, vs[i])) && (forall|i: int, j: int| 0 <= i < j < vs.len() ==> dist[#[trigger] vs[i]] > dist[#[trigger] vs[j]])
  && W == dist[u] - dist[x] && W == wsum(sp.w, es) && W == wsum(wm, eids(c)) }
pub open spec fn bk_pre(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, s: int, u: int, dist: Seq<real>, pred: Seq<(bool, Edge)>) -> bool { gpre(g, wm) && sp_any(g, wm, sp, mp, ns) && dpost(sp, s, dist, pred) && vid(sp, s) && vid(sp, u) && dvis(s, pred, u) }
proof fn l_back0(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, y: int, dist: Seq<real>, pred: Seq<(bool, Edge)>)
  requires gpre(g, wm), sp_any(g, wm, sp, mp, ns), 0 <= y < ns.len(), dij_post(sp, sp.w, ns[y].s, dist, pred)
  ensures bk_pre(g, wm, sp, mp, ns, ns[y].s, ns[y].t, dist, pred), back(g, wm, sp, mp, ns[y].s, ns[y].t, dist, pred, seq![ns[y].t], Seq::empty(), Seq::empty(), ns[y].t, 0real)
{ let s = ns[y].s; let u = ns[y].t; l_spy(g, wm, sp, mp, ns, y); assert(dpost(sp, s, dist, pred)) by { reveal(dpost); } l_dpost(sp, s, dist, pred, u); assert(eids(Seq::<Edge>::empty()) =~= Seq::<int>::empty()); reveal(back); }
proof fn l_back_b(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, s: int, u: int, dist: Seq<real>, pred: Seq<(bool, Edge)>, vs: Seq<int>, es: Seq<int>, c: Seq<Edge>, x: int, W: real)
  requires bk_pre(g, wm, sp, mp, ns, s, u, dist, pred), back(g, wm, sp, mp, s, u, dist, pred, vs, es, c, x, W)
  ensures vid(sp, x), dist.len() == sp.n, pred.len() == sp.n, pred[x].0 ==> ({ let e = pred[x].1; mp.contains_key(e.id) && eid(sp, e.id) && eid(g, mp[e.id].id) && mp[e.id].id < wm.len() && ((e.t == x && e.s != x) || (e.s == x && e.t != x)) })
{ assert(vid(sp, x) && dvis(s, pred, x)) by { reveal(back); assert(vs.last() == x); assert(vid(sp, vs[vs.len() - 1])); } l_dpost(sp, s, dist, pred, x); if pred[x].0 { let e = pred[x].1; assert(eid(sp, e.id)); l_spx(g, wm, sp, mp, ns, e.id); } }
proof fn l_back(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, s: int, u: int, dist: Seq<real>, pred: Seq<(bool, Edge)>, vs: Seq<int>, es: Seq<int>, c: Seq<Edge>, x: int, W: real, z: int)
  requires bk_pre(g, wm, sp, mp, ns, s, u, dist, pred), back(g, wm, sp, mp, s, u, dist, pred, vs, es, c, x, W), pred[x].0, z == (if pred[x].1.t == x { pred[x].1.s } else { pred[x].1.t })
  ensures ({ let e = pred[x].1; back(g, wm, sp, mp, s, u, dist, pred, vs.push(z), es.push(e.id), c.push(mp[e.id]), z, W + wm[mp[e.id].id]) })
{ l_back_b(g, wm, sp, mp, ns, s, u, dist, pred, vs, es, c, x, W); reveal(back); let e = pred[x].1; assert(dvis(s, pred, x)); l_dpost(sp, s, dist, pred, x); assert(dpred(sp, sp.w, s, dist, pred, x)); assert(eid(sp, e.id)); l_spx(g, wm, sp, mp, ns, e.id);
  let us = vs.push(z); let fs = es.push(e.id); let d = c.push(mp[e.id]); assert(vs.last() == x);
  assert(oth(sp, e.id, x) == z); assert(joins(sp, e.id, x, z)); assert(vid(sp, z));
  assert forall|i: int| 0 <= i < fs.len() implies joins(sp, #[trigger] fs[i], us[i], us[i + 1]) && vid(sp, us[i + 1]) by { if i < es.len() { assert(fs[i] == es[i] && us[i] == vs[i] && us[i + 1] == vs[i + 1]); } }
  assert forall|i: int| 0 <= i < fs.len() implies eid(sp, #[trigger] fs[i]) && d[i] == mp[fs[i]] by { if i < es.len() { assert(fs[i] == es[i]); } }
  assert forall|i: int| 0 <= i < us.len() implies vid(sp, #[trigger] us[i]) && dvis(s, pred, us[i]) by { if i < vs.len() { assert(us[i] == vs[i]); } }
  assert forall|i: int, j: int| 0 <= i < j < us.len() implies dist[#[trigger] us[i]] > dist[#[trigger] us[j]] by { assert(us[i] == vs[i]); if j < vs.len() { assert(us[j] == vs[j]); } else { assert(dist[z] < dist[x]); if i < vs.len() - 1 { assert(dist[vs[i]] > dist[vs[vs.len() - 1]]); } } }
  l_wsum_push(sp.w, es, e.id); l_wsum_push(wm, eids(c), mp[e.id].id); assert(eids(d) =~= eids(c).push(mp[e.id].id)); }
proof fn l_back_end(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, y: int, dist: Seq<real>, pred: Seq<(bool, Edge)>, vs: Seq<int>, es: Seq<int>, c: Seq<Edge>, x: int, W: real)
  requires 0 <= y < ns.len(), bk_pre(g, wm, sp, mp, ns, ns[y].s, ns[y].t, dist, pred), back(g, wm, sp, mp, ns[y].s, ns[y].t, dist, pred, vs, es, c, x, W), !pred[x].0
  ensures closing(g, wm, sp, mp, ns[y], c.push(ns[y])), wt(wm, c.push(ns[y])) == W + wm[ns[y].id], eid(g, ns[y].id), ns[y].id < wm.len()
{ reveal(back); let e = ns[y]; let s = e.s; let u = e.t; l_spy(g, wm, sp, mp, ns, y); assert(vs.last() == x); assert(vid(sp, vs[vs.len() - 1]) && dvis(s, pred, vs[vs.len() - 1])); assert(x == s);
  l_dpost(sp, s, dist, pred, u);
  let d = c.push(e); l_wsum_push(wm, eids(c), e.id); assert(eids(d) =~= eids(c).push(e.id)); let n = vs.len() as int;
  let ids = eids(d);
  assert forall|i: int| 0 <= i < es.len() implies sp_e(g, wm, sp, mp, es[i]) && #[trigger] ids[i] == mp[es[i]].id && ids[i] != e.id && eid(g, ids[i]) by { l_spx(g, wm, sp, mp, ns, es[i]); l_spxy(g, wm, sp, mp, ns, es[i], y); assert(d[i] == c[i]); }
  assert forall|i: int| 0 <= i < d.len() implies edge_ok(g, #[trigger] d[i]) by { if i < es.len() { assert(d[i] == c[i]); assert(sp_e(g, wm, sp, mp, es[i])) by { l_spx(g, wm, sp, mp, ns, es[i]); } } }
  assert forall|i: int, j: int| 0 <= i < j < vs.len() implies vs[i] != vs[j] by { assert(dist[vs[i]] > dist[vs[j]]); }
  assert forall|i: int, j: int| 0 <= i < j < ids.len() implies ids[i] != ids[j] by { assert(ids[i] == mp[es[i]].id); if j < es.len() { assert(ids[j] == mp[es[j]].id); assert(eid(sp, es[i]) && eid(sp, es[j])); assert(joins(sp, es[i], vs[i], vs[i + 1]) && joins(sp, es[j], vs[j], vs[j + 1])); assert(vs[i] != vs[j] && vs[i] != vs[j + 1]); assert(es[i] != es[j]); l_spxx(g, wm, sp, mp, ns, es[i], es[j]); } else { assert(ids[i] != e.id); } }
  assert forall|i: int| 0 <= i < vs.len() implies joins(g, #[trigger] ids[i], vs[i], vs[nx(i, n)]) by { if i < es.len() { assert(ids[i] == mp[es[i]].id); assert(joins(sp, es[i], vs[i], vs[i + 1])); assert(sp_e(g, wm, sp, mp, es[i])); } else { assert(ids[i] == e.id); assert(vs[i] == s); assert(vs[0] == u); } }
  assert(cyc(g, vs, ids)); assert forall|i: int| 0 <= i < ids.len() implies ids.contains(#[trigger] ids[i]) by {} assert(cyc_on(g, vs, ids, eids(d))); assert(cycle_of(g, d));
  assert(dist_is(sp, sp.w, s, u, wsum(sp.w, es))); assert forall|i: int| 0 <= i < es.len() implies eid(sp, #[trigger] es[i]) && d[i] == mp[es[i]] by { assert(d[i] == c[i]); } assert(closing_by(g, wm, sp, mp, e, d, vs, es)); }
// the closing cycles in any order
pub open spec fn viae(ns: Seq<Edge>, q: Seq<int>) -> Seq<Edge> { Seq::new(q.len(), |i: int| ns[q[i]]) }
pub open spec fn orders(q: Seq<int>, n: int) -> bool { q.len() == n && q.no_duplicates() && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] q[i] < n) && forall|x: int| 0 <= x < n ==> #[trigger] q.contains(x) }
pub open spec fn closed_by(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, cs: Seq<Seq<Edge>>, q: Seq<int>) -> bool { orders(q, ns.len() as int) && cs.len() == ns.len() && closings(g, wm, sp, mp, viae(ns, q), cs) }
pub open spec fn closed_all(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, cs: Seq<Seq<Edge>>) -> bool { exists|q: Seq<int>| #[trigger] closed_by(g, wm, sp, mp, ns, cs, q) }
// the order of the dropped edges does not matter
proof fn l_viae(g: G, wm: Seq<real>, k: int, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, q: Seq<int>) requires spanner_post(g, wm, k, sp, mp, ns), orders(q, ns.len() as int) ensures spanner_post(g, wm, k, sp, mp, viae(ns, q))
{ let m = viae(ns, q);
  assert forall|e: int| dropped(ns, e) == #[trigger] dropped(m, e) by {
    if dropped(ns, e) { let y = choose|y: int| 0 <= y < ns.len() && (#[trigger] ns[y]).id == e; assert(q.contains(y)); let i = choose|i: int| 0 <= i < q.len() && q[i] == y; assert(m[i].id == e); }
    if dropped(m, e) { let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).id == e; assert(ns[q[i]].id == e); } }
  assert forall|e: int| #[trigger] eid(g, e) implies (kept(sp, mp, e) <==> !dropped(m, e)) by { assert(dropped(ns, e) == dropped(m, e)); }
  assert forall|x: int, y: int| 0 <= x < y < m.len() implies (#[trigger] m[x]).id != (#[trigger] m[y]).id by { assert(m[x] == ns[q[x]] && m[y] == ns[q[y]]); if q[x] < q[y] { assert(ns[q[x]].id != ns[q[y]].id); } else { assert(ns[q[y]].id != ns[q[x]].id); } }
  assert forall|y: int| 0 <= y < m.len() implies edge_ok(g, #[trigger] m[y]) && near(sp, wm[m[y].id], m[y].s, m[y].t, 2 * k - 1) by { assert(m[y] == ns[q[y]]); } }
proof fn l_in_order(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, cs: Seq<Seq<Edge>>) requires closings(g, wm, sp, mp, ns, cs), cs.len() == ns.len() ensures closed_all(g, wm, sp, mp, ns, cs)
{ let q = Seq::new(ns.len(), |i: int| i); assert(viae(ns, q) =~= ns); assert forall|x: int| 0 <= x < ns.len() implies #[trigger] q.contains(x) by { assert(q[x] == x); } assert(closed_by(g, wm, sp, mp, ns, cs, q)); }
