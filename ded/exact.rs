// ---- what the exact algorithms are asked for: a simple graph with positive weights
proof fn l_epre(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>) requires gpre(g, wm), sp_any(g, wm, sp, mp, ns) ensures epre(sp, sp.w), sp.n == g.n
{ l_sub_wmax(g, wm, sp, mp, ns); reveal(sp_any); let k = choose|k: int| k >= 1 && #[trigger] spanner_post(g, wm, k, sp, mp, ns);
  assert forall|e: int, f: int, u: int, v: int| #[trigger] joins(sp, e, u, v) && #[trigger] joins(sp, f, u, v) implies e == f by {
    if e != f { assert(eid(sp, e)); assert(sp.ends[e].0 != sp.ends[e].1); let vs = seq![u, v]; let es = seq![e, f];
      assert forall|i: int| 0 <= i < 2 implies joins(sp, #[trigger] es[i], vs[i], vs[nx(i, 2)]) by { if i == 0 { assert(es[0] == e); } else { assert(es[1] == f); } }
      assert(cyc(sp, vs, es)); assert(vs.len() > 2 * k); } } }
// ---- translating spanner cycles to the caller's edges
pub open spec fn trc(mp: Map<int, Edge>, c: Seq<Edge>) -> Seq<Edge> { Seq::new(c.len(), |i: int| mp[c[i].id]) }
pub open spec fn trs(mp: Map<int, Edge>, cs: Seq<Seq<Edge>>, n: int) -> Seq<Seq<Edge>> { Seq::new(n as nat, |i: int| trc(mp, cs[i])) }
pub open spec fn mids(mp: Map<int, Edge>, es: Seq<int>) -> Seq<int> { Seq::new(es.len(), |i: int| mp[es[i]].id) }
proof fn l_trc_wt(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, c: Seq<Edge>) requires gpre(g, wm), sp_any(g, wm, sp, mp, ns), edges_ok(sp, c) ensures wt(wm, trc(mp, c)) == wt(sp.w, c) decreases c.len()
{ let d = trc(mp, c); if c.len() == 0 { assert(eids(c) =~= Seq::<int>::empty()); assert(eids(d) =~= Seq::<int>::empty()); } else { let p = c.drop_last(); assert forall|i: int| 0 <= i < p.len() implies edge_ok(sp, #[trigger] p[i]) by { assert(p[i] == c[i]); }
  l_trc_wt(g, wm, sp, mp, ns, p); assert(edge_ok(sp, c[c.len() - 1])); let x = c.last().id; assert(eid(sp, x)); l_spx(g, wm, sp, mp, ns, x);
  assert(eids(d).drop_last() =~= eids(trc(mp, p))); assert(eids(c).drop_last() =~= eids(p)); assert(eids(d).last() == mp[x].id); assert(eids(c).last() == x); } }
proof fn l_trc_cycle(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, c: Seq<Edge>) requires gpre(g, wm), sp_any(g, wm, sp, mp, ns), cycle_of(sp, c) ensures cycle_of(g, trc(mp, c))
{ let d = trc(mp, c); let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] cyc_on(sp, vs, es, eids(c)); let fs = mids(mp, es); let n = vs.len() as int; let ids = eids(d);
  assert(sp.n == g.n) by { l_epre(g, wm, sp, mp, ns); }
  assert forall|i: int| 0 <= i < d.len() implies edge_ok(g, #[trigger] d[i]) by { assert(edge_ok(sp, c[i])); assert(eid(sp, c[i].id)); l_spx(g, wm, sp, mp, ns, c[i].id); }
  assert forall|i: int| 0 <= i < n implies joins(g, #[trigger] fs[i], vs[i], vs[nx(i, n)]) by { assert(joins(sp, es[i], vs[i], vs[nx(i, n)])); l_spx(g, wm, sp, mp, ns, es[i]); }
  assert forall|i: int, j: int| 0 <= i < fs.len() && 0 <= j < fs.len() && i != j implies fs[i] != fs[j] by { assert(joins(sp, es[i], vs[i], vs[nx(i, n)]) && joins(sp, es[j], vs[j], vs[nx(j, n)])); assert(es[i] != es[j]); l_spxx(g, wm, sp, mp, ns, es[i], es[j]); }
  assert(cyc(g, vs, fs));
  assert forall|i: int, j: int| 0 <= i < ids.len() && 0 <= j < ids.len() && i != j implies ids[i] != ids[j] by { let a = eids(c); assert(a[i] != a[j]); assert(edge_ok(sp, c[i]) && edge_ok(sp, c[j])); assert(eid(sp, a[i]) && eid(sp, a[j])); l_spxx(g, wm, sp, mp, ns, a[i], a[j]); }
  assert forall|i: int| 0 <= i < ids.len() implies fs.contains(#[trigger] ids[i]) by { assert(es.contains(eids(c)[i])); let j = choose|j: int| 0 <= j < es.len() && es[j] == eids(c)[i]; assert(fs[j] == ids[i]); }
  assert(cyc_on(g, vs, fs, ids)); }
proof fn l_trc_has(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, c: Seq<Edge>, x: int) requires gpre(g, wm), sp_any(g, wm, sp, mp, ns), edges_ok(sp, c), eid(sp, x) ensures uses(trc(mp, c), mp[x].id) == uses(c, x)
{ let d = trc(mp, c); if uses(c, x) { let i = l_uses_inv(c, x); l_uses(d, i); assert(d[i] == mp[x]); }
  if uses(d, mp[x].id) { let i = l_uses_inv(d, mp[x].id); assert(edge_ok(sp, c[i])); assert(eid(sp, c[i].id)); if c[i].id != x { l_spxx(g, wm, sp, mp, ns, c[i].id, x); } l_uses(c, i); } }
proof fn l_trc_hasy(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, c: Seq<Edge>, y: int) requires gpre(g, wm), sp_any(g, wm, sp, mp, ns), edges_ok(sp, c), 0 <= y < ns.len() ensures !uses(trc(mp, c), ns[y].id)
{ let d = trc(mp, c); if uses(d, ns[y].id) { let i = l_uses_inv(d, ns[y].id); assert(edge_ok(sp, c[i])); assert(eid(sp, c[i].id)); l_spxy(g, wm, sp, mp, ns, c[i].id, y); } }
proof fn l_clo_hasy(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, c: Seq<Edge>, z: int, y: int) requires gpre(g, wm), sp_any(g, wm, sp, mp, ns), 0 <= y < ns.len(), 0 <= z < ns.len(), closing(g, wm, sp, mp, ns[z], c) ensures uses(c, ns[y].id) == (y == z)
{ let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] closing_by(g, wm, sp, mp, ns[z], c, vs, es);
  if y == z { l_uses(c, c.len() - 1); } else if uses(c, ns[y].id) { let i = l_uses_inv(c, ns[y].id); if i < es.len() { assert(eid(sp, es[i])); l_spxy(g, wm, sp, mp, ns, es[i], y); } else { l_nsxy(g, wm, sp, mp, ns, y, z); } } }
proof fn l_nsxy(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, y: int, z: int) requires sp_any(g, wm, sp, mp, ns), 0 <= y < ns.len(), 0 <= z < ns.len(), y != z ensures ns[y].id != ns[z].id
{ reveal(sp_any); let k = choose|k: int| k >= 1 && #[trigger] spanner_post(g, wm, k, sp, mp, ns); assert(partition(g, sp, mp, ns)); if y < z { assert(ns[y].id != ns[z].id); } else { assert(ns[z].id != ns[y].id); } }
pub open spec fn both(mp: Map<int, Edge>, cs: Seq<Seq<Edge>>, ds: Seq<Seq<Edge>>) -> Seq<Seq<Edge>> { trs(mp, cs, cs.len() as int) + ds }
proof fn l_both_odd(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, cs: Seq<Seq<Edge>>, ds: Seq<Seq<Edge>>, I: Seq<bool>, J: Seq<bool>, x: int, k: int)
  requires gpre(g, wm), sp_any(g, wm, sp, mp, ns), cycles_of(sp, cs), eid(sp, x), 0 <= k <= cs.len() + ds.len(), I.len() == cs.len() + ds.len(), J == I.subrange(0, cs.len() as int), forall|i: int| cs.len() <= i < I.len() ==> !I[i]
  ensures odd(both(mp, cs, ds), I, mp[x].id, k) == odd(cs, J, x, if k <= cs.len() { k } else { cs.len() as int }) decreases k
{ if k > 0 { l_both_odd(g, wm, sp, mp, ns, cs, ds, I, J, x, k - 1); if k <= cs.len() { assert(cycle_of(sp, cs[k - 1])); assert(both(mp, cs, ds)[k - 1] == trc(mp, cs[k - 1])); l_trc_has(g, wm, sp, mp, ns, cs[k - 1], x); assert(J[k - 1] == I[k - 1]); } else { assert(!I[k - 1]); } } }
// an edge that occurs an odd number of times occurs
proof fn l_odd_some(cs: Seq<Seq<Edge>>, I: Seq<bool>, e: int, k: int) -> (i: int) requires odd(cs, I, e, k) ensures 0 <= i < k, uses(cs[i], e) decreases k { if k <= 0 { 0 } else if I[k - 1] && uses(cs[k - 1], e) { k - 1 } else { l_odd_some(cs, I, e, k - 1) } }
proof fn l_both_indep(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, cs: Seq<Seq<Edge>>, ds: Seq<Seq<Edge>>)
  requires gpre(g, wm), sp_any(g, wm, sp, mp, ns), cycles_of(sp, cs), indep(cs), closings(g, wm, sp, mp, ns, ds), ds.len() == ns.len() ensures indep(both(mp, cs, ds))
{ let all = both(mp, cs, ds); let n = cs.len() as int;
  assert forall|I: Seq<bool>| I.len() == all.len() && #[trigger] some(I) implies nonzero(all, I) by {
    if exists|j: int| n <= j < I.len() && I[j] { let j = choose|j: int| n <= j < I.len() && I[j]; let y = j - n; let e = ns[y].id; assert(all[j] == ds[y]);
      assert forall|i: int| 0 <= i < all.len() && i != j implies !(#[trigger] I[i] && uses(all[i], e)) by { if i < n { assert(cycle_of(sp, cs[i])); assert(all[i] == trc(mp, cs[i])); l_trc_hasy(g, wm, sp, mp, ns, cs[i], y); } else { assert(all[i] == ds[i - n]); assert(closing(g, wm, sp, mp, ns[i - n], ds[i - n])); l_clo_hasy(g, wm, sp, mp, ns, ds[i - n], i - n, y); } }
      assert(closing(g, wm, sp, mp, ns[y], ds[y])); l_clo_hasy(g, wm, sp, mp, ns, ds[y], y, y); l_odd_one(all, I, e, all.len() as int, j); assert(odd(all, I, e, all.len() as int)); }
    else { let J = I.subrange(0, n); let i = choose|i: int| 0 <= i < I.len() && #[trigger] I[i]; assert(J[i]); assert(some(J)); assert(nonzero(cs, J)); let x = choose|x: int| #[trigger] odd(cs, J, x, cs.len() as int);
      let q = l_odd_some(cs, J, x, n); assert(cycle_of(sp, cs[q])); let z = l_uses_inv(cs[q], x); assert(edge_ok(sp, cs[q][z])); assert(eid(sp, x));
      l_both_odd(g, wm, sp, mp, ns, cs, ds, I, J, x, all.len() as int); assert(odd(all, I, mp[x].id, all.len() as int)); } } }
proof fn l_conned_conn(g: G, vs: Seq<int>, es: Seq<int>, s: int, t: int) requires ww(g, vs, es, s, t) ensures conn(g, all_edges(g), s, t)
{ assert forall|i: int| 0 <= i < vs.len() implies 0 <= #[trigger] vs[i] < g.n by { if i > 0 { let j = i - 1; assert(joins(g, es[j], vs[j], vs[j + 1])); } }
  assert forall|i: int| 0 <= i < vs.len() - 1 implies step(g, all_edges(g), #[trigger] vs[i], vs[i + 1]) by { assert(joins(g, es[i], vs[i], vs[i + 1])); assert(all_edges(g).contains(es[i])); }
  assert(walk_uv(g, all_edges(g), vs, s, t)); }
// the spanner connects what the graph connects
proof fn l_sp_to_g(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, p: Seq<int>, u: int, v: int) requires gpre(g, wm), sp_any(g, wm, sp, mp, ns), walk_uv(sp, all_edges(sp), p, u, v) ensures conn(g, all_edges(g), u, v) decreases p.len()
{ l_epre(g, wm, sp, mp, ns); if p.len() == 1 { assert(vid(g, p[0])); l_walk1(g, all_edges(g), u); } else { let q = p.drop_last(); let w = q.last(); assert forall|i: int| 0 <= i < q.len() - 1 implies step(sp, all_edges(sp), #[trigger] q[i], q[i + 1]) by { assert(step(sp, all_edges(sp), p[i], p[i + 1])); }
    assert(walk_uv(sp, all_edges(sp), q, u, w)); l_sp_to_g(g, wm, sp, mp, ns, q, u, w); assert(step(sp, all_edges(sp), p[p.len() - 2], p[p.len() - 2 + 1])); let e = choose|e: int| all_edges(sp).contains(e) && #[trigger] joins(sp, e, w, v); l_spx(g, wm, sp, mp, ns, e);
    assert(vid(g, p[p.len() - 2]) && vid(g, p[p.len() - 1])); assert(joins(g, mp[e].id, w, v)); assert(all_edges(g).contains(mp[e].id)); l_conn_step(g, all_edges(g), w, v, mp[e].id); l_conn_trans(g, all_edges(g), u, w, v); } }
proof fn l_g_to_sp(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, p: Seq<int>, u: int, v: int) requires gpre(g, wm), sp_any(g, wm, sp, mp, ns), walk_uv(g, all_edges(g), p, u, v) ensures conn(sp, all_edges(sp), u, v) decreases p.len()
{ l_epre(g, wm, sp, mp, ns); let S = all_edges(sp); if p.len() == 1 { assert(vid(sp, p[0])); l_walk1(sp, S, u); } else { let q = p.drop_last(); let w = q.last(); assert forall|i: int| 0 <= i < q.len() - 1 implies step(g, all_edges(g), #[trigger] q[i], q[i + 1]) by { assert(step(g, all_edges(g), p[i], p[i + 1])); }
    assert(walk_uv(g, all_edges(g), q, u, w)); l_g_to_sp(g, wm, sp, mp, ns, q, u, w); assert(step(g, all_edges(g), p[p.len() - 2], p[p.len() - 2 + 1])); let e = choose|e: int| all_edges(g).contains(e) && #[trigger] joins(g, e, w, v);
    assert(vid(sp, p[p.len() - 2]) && vid(sp, p[p.len() - 1]));
    assert(kept(sp, mp, e) || dropped(ns, e)) by { assert(eid(g, e)); reveal(sp_any); let k = choose|k: int| k >= 1 && #[trigger] spanner_post(g, wm, k, sp, mp, ns); assert(partition(g, sp, mp, ns)); }
    if kept(sp, mp, e) { let x = choose|x: int| #[trigger] eid(sp, x) && mp[x].id == e; l_spx(g, wm, sp, mp, ns, x); assert(joins(sp, x, w, v)); assert(S.contains(x)); l_conn_step(sp, S, w, v, x); }
    else { let y = choose|y: int| 0 <= y < ns.len() && (#[trigger] ns[y]).id == e; l_spy(g, wm, sp, mp, ns, y); let a = ns[y].s; let b = ns[y].t; let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] ww(sp, vs, es, a, b); l_conned_conn(sp, vs, es, a, b); if a != w { l_conn_sym(sp, S, a, b); } }
    l_conn_trans(sp, S, u, w, v); } }
proof fn l_both_dim(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, d: int) requires gpre(g, wm), sp_any(g, wm, sp, mp, ns), dimension(sp, d) ensures dimension(g, d + ns.len())
{ l_epre(g, wm, sp, mp, ns); let k = choose|k: int| #[trigger] ncomp(sp, k) && d == sp.ends.len() - sp.n + k; let lab = choose|lab: Seq<int>| #[trigger] labels(sp, all_edges(sp), lab, k);
  assert(sp.ends.len() + ns.len() == g.ends.len()) by { reveal(sp_any); }
  assert forall|v: int| #[trigger] vid(g, v) implies 0 <= lab[v] < k by { assert(vid(sp, v)); }
  assert forall|u: int, v: int| vid(g, u) && vid(g, v) implies (#[trigger] conn(g, all_edges(g), u, v) <==> lab[u] == lab[v]) by { assert(vid(sp, u) && vid(sp, v));
    if conn(g, all_edges(g), u, v) { let p = choose|p: Seq<int>| #[trigger] walk_uv(g, all_edges(g), p, u, v); l_g_to_sp(g, wm, sp, mp, ns, p, u, v); assert(conn(sp, all_edges(sp), u, v)); }
    if lab[u] == lab[v] { assert(conn(sp, all_edges(sp), u, v)); let p = choose|p: Seq<int>| #[trigger] walk_uv(sp, all_edges(sp), p, u, v); l_sp_to_g(g, wm, sp, mp, ns, p, u, v); } }
  assert(labels(g, all_edges(g), lab, k)); assert(ncomp(g, k)); }
proof fn l_trs_tot(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, cs: Seq<Seq<Edge>>, n: int) requires gpre(g, wm), sp_any(g, wm, sp, mp, ns), cycles_of(sp, cs), 0 <= n <= cs.len() ensures tot(wm, trs(mp, cs, n)) == tot(sp.w, cs.take(n)) decreases n
{ if n > 0 { l_trs_tot(g, wm, sp, mp, ns, cs, n - 1); assert(trs(mp, cs, n).drop_last() =~= trs(mp, cs, n - 1)); assert(cs.take(n).drop_last() =~= cs.take(n - 1)); assert(cycle_of(sp, cs[n - 1])); l_trc_wt(g, wm, sp, mp, ns, cs[n - 1]); assert(trs(mp, cs, n).last() == trc(mp, cs[n - 1])); assert(cs.take(n).last() == cs[n - 1]); } }
// both phases together
proof fn l_both(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, cs: Seq<Seq<Edge>>, ds: Seq<Seq<Edge>>)
  requires gpre(g, wm), sp_any(g, wm, sp, mp, ns), basis(sp, cs), closings(g, wm, sp, mp, ns, ds), ds.len() == ns.len() ensures basis(g, both(mp, cs, ds)), tot(wm, both(mp, cs, ds)) == tot(sp.w, cs) + tot(wm, ds)
{ let all = both(mp, cs, ds); let n = cs.len() as int; l_both_indep(g, wm, sp, mp, ns, cs, ds); l_both_dim(g, wm, sp, mp, ns, n);
  assert forall|i: int| 0 <= i < all.len() implies cycle_of(g, #[trigger] all[i]) by { if i < n { assert(cycle_of(sp, cs[i])); l_trc_cycle(g, wm, sp, mp, ns, cs[i]); assert(all[i] == trc(mp, cs[i])); } else { assert(closing(g, wm, sp, mp, ns[i - n], ds[i - n])); assert(all[i] == ds[i - n]); } }
  l_trs_tot(g, wm, sp, mp, ns, cs, n); assert(cs.take(n) =~= cs); l_tot_cat(wm, trs(mp, cs, n), ds); }
