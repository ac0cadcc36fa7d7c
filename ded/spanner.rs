// ---- the spanner: kept edges, in order of non-decreasing weight
pub open spec fn edges_perm(g: G, so: Seq<Edge>) -> bool {
  so.len() == g.ends.len() && (forall|i: int| 0 <= i < so.len() ==> eid(g, (#[trigger] so[i]).id) && so[i] == edge_of(g, so[i].id))
  && (forall|i: int, j: int| 0 <= i < j < so.len() ==> (#[trigger] so[i]).id != (#[trigger] so[j]).id) }
#[verifier::opaque]
pub open spec fn sorted0(g: G, wm: Seq<real>, so: Seq<Edge>) -> bool {
  wf(g) && no_loops(g) && wm.len() == g.ends.len() && edges_perm(g, so) && forall|i: int, j: int| 0 <= i <= j < so.len() ==> wm[(#[trigger] so[i]).id] <= wm[(#[trigger] so[j]).id] }
proof fn l_sorted0(g: G, wm: Seq<real>, so: Seq<Edge>, pi: Seq<int>)
  requires wf(g), no_loops(g), wm.len() == g.ends.len(), perm_by(so, g_edges(g), pi), forall|i: int, j: int| 0 <= i < j < so.len() ==> !(wm[(#[trigger] so[j]).id] < wm[(#[trigger] so[i]).id])
  ensures sorted0(g, wm, so)
{ reveal(sorted0); let u = g_edges(g);
  assert forall|i: int| 0 <= i < so.len() implies eid(g, (#[trigger] so[i]).id) && so[i] == edge_of(g, so[i].id) by { assert(0 <= pi[i] < u.len() && so[i] == u[pi[i]]); }
  assert forall|i: int, j: int| 0 <= i < j < so.len() implies (#[trigger] so[i]).id != (#[trigger] so[j]).id by { assert(pi[i] != pi[j]); assert(so[i] == u[pi[i]] && so[j] == u[pi[j]]); }
  assert forall|i: int, j: int| 0 <= i <= j < so.len() implies wm[(#[trigger] so[i]).id] <= wm[(#[trigger] so[j]).id] by { if i < j { assert(!(wm[so[j].id] < wm[so[i].id])); } } }
pub open spec fn hop_limit(k: int) -> int { if 1 <= k <= 9223372036854775807 { 2 * k - 1 } else { 18446744073709551615 } }
pub open spec fn sp_add(sp: G, e: Edge, w: real) -> G { let h = g_add_edge(sp, e.s, e.t); G { w: h.w.update(sp.ends.len() as int, w), ..h } }
pub open spec fn sp_e(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, x: int) -> bool { mp.contains_key(x) && edge_ok(g, mp[x]) && sp.ends[x] == (mp[x].s, mp[x].t) && sp.w[x] == wm[mp[x].id] }
pub open spec fn light(sp: G, W: real) -> Set<int> { Set::range(0, sp.ends.len() as int).filter(|x: int| sp.w[x] <= W) }
pub open spec fn near_by(sp: G, W: real, p: Seq<int>, s: int, t: int, h: int) -> bool { walk_uv(sp, light(sp, W), p, s, t) && p.len() <= h + 1 }
// s and t are joined by at most h edges none of which is heavier than W
pub open spec fn near(sp: G, W: real, s: int, t: int, h: int) -> bool { exists|p: Seq<int>| #[trigger] near_by(sp, W, p, s, t, h) }
pub open spec fn older_by(sp: G, x: int, p: Seq<int>, h: int) -> bool { walk_uv(sp, Set::range(0, x), p, sp.ends[x].0, sp.ends[x].1) && p.len() <= h + 1 }
// when edge x was added its ends were more than h edges apart
pub open spec fn apart(sp: G, x: int, h: int) -> bool { forall|p: Seq<int>| !#[trigger] older_by(sp, x, p, h) }
pub open spec fn loc_ok(sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, loc: Seq<(int, int)>, e: int) -> bool {
  (loc[e].0 == 1 ==> eid(sp, loc[e].1) && mp[loc[e].1].id == e) && (loc[e].0 == 2 ==> 0 <= loc[e].1 < ns.len() && ns[loc[e].1].id == e) && 0 <= loc[e].0 <= 2 }
#[verifier::opaque]
pub open spec fn spi(g: G, wm: Seq<real>, h: int, so: Seq<Edge>, i: int, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, loc: Seq<(int, int)>) -> bool {
  wf(sp) && sp.n == g.n && sp.ends.len() + ns.len() == i && loc.len() == g.ends.len() && 0 <= i <= so.len()
  && (forall|x: int| #[trigger] eid(sp, x) ==> sp_e(g, wm, sp, mp, x) && loc[mp[x].id] == (1int, x) && apart(sp, x, h))
  && (forall|x: int| #[trigger] mp.contains_key(x) ==> eid(sp, x))
  && (forall|y: int| 0 <= y < ns.len() ==> edge_ok(g, #[trigger] ns[y]) && loc[ns[y].id] == (2int, y) && near(sp, wm[ns[y].id], ns[y].s, ns[y].t, h))
  && (forall|e: int| #[trigger] eid(g, e) ==> loc_ok(sp, mp, ns, loc, e))
  && (forall|j: int| 0 <= j < so.len() ==> (loc[(#[trigger] so[j]).id].0 == 0 <==> j >= i))
  && (forall|x: int, j: int| #[trigger] eid(sp, x) && i <= j < so.len() ==> sp.w[x] <= wm[(#[trigger] so[j]).id]) }
proof fn l_sp0(g: G, wm: Seq<real>, h: int, so: Seq<Edge>, i: int, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, loc: Seq<(int, int)>)
  requires i == 0, wf(sp), sp.n == g.n, sp.ends.len() == 0, mp == Map::<int, Edge>::empty(), ns.len() == 0, loc.len() == g.ends.len(), forall|e: int| 0 <= e < loc.len() ==> (#[trigger] loc[e]).0 == 0, sorted0(g, wm, so)
  ensures spi(g, wm, h, so, 0, sp, mp, ns, loc)
{ reveal(spi); reveal(sorted0); assert forall|e: int| #[trigger] eid(g, e) implies loc_ok(sp, mp, ns, loc, e) by { assert(loc[e].0 == 0); }
  assert forall|j: int| 0 <= j < so.len() implies (loc[(#[trigger] so[j]).id].0 == 0 <==> j >= i) by { assert(eid(g, so[j].id)); } }
proof fn l_sp_bounds(g: G, wm: Seq<real>, h: int, so: Seq<Edge>, i: int, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, loc: Seq<(int, int)>)
  requires spi(g, wm, h, so, i, sp, mp, ns, loc), sorted0(g, wm, so), i < so.len()
  ensures wf(sp), sp.n == g.n, wm.len() == g.ends.len(), sp.ends.len() < g.ends.len(), eid(g, so[i].id), vid(g, so[i].s), vid(g, so[i].t), so[i].s != so[i].t
{ reveal(spi); reveal(sorted0); assert(eid(g, so[i].id)); }
proof fn l_step_ext(sp: G, sq: G, S: Set<int>, R: Set<int>, p: Seq<int>, s: int, t: int)
  requires walk_uv(sp, S, p, s, t), sq.n == sp.n, sp.ends.len() <= sq.ends.len(), forall|x: int| eid(sp, x) ==> sq.ends[x] == #[trigger] sp.ends[x], forall|x: int| eid(sp, x) && #[trigger] S.contains(x) ==> R.contains(x)
  ensures walk_uv(sq, R, p, s, t)
{ assert forall|i: int| 0 <= i < p.len() - 1 implies step(sq, R, #[trigger] p[i], p[i + 1]) by { assert(step(sp, S, p[i], p[i + 1])); let e = choose|e: int| S.contains(e) && #[trigger] joins(sp, e, p[i], p[i + 1]); assert(sq.ends[e] == sp.ends[e]); assert(joins(sq, e, p[i], p[i + 1])); } }
proof fn l_near_ext(sp: G, sq: G, W: real, s: int, t: int, h: int)
  requires near(sp, W, s, t, h), sq.n == sp.n, sp.ends.len() <= sq.ends.len(), forall|x: int| eid(sp, x) ==> sq.ends[x] == #[trigger] sp.ends[x], forall|x: int| eid(sp, x) ==> sq.w[x] == #[trigger] sp.w[x]
  ensures near(sq, W, s, t, h)
{ let p = choose|p: Seq<int>| #[trigger] near_by(sp, W, p, s, t, h); assert forall|x: int| eid(sp, x) && #[trigger] light(sp, W).contains(x) implies light(sq, W).contains(x) by { assert(sq.w[x] == sp.w[x]); } l_step_ext(sp, sq, light(sp, W), light(sq, W), p, s, t); assert(near_by(sq, W, p, s, t, h)); }
proof fn l_apart_ext(sp: G, sq: G, x: int, h: int)
  requires eid(sp, x), apart(sp, x, h), sq.n == sp.n, sp.ends.len() <= sq.ends.len(), forall|x: int| eid(sp, x) ==> sq.ends[x] == #[trigger] sp.ends[x] ensures apart(sq, x, h)
{ assert forall|p: Seq<int>| !#[trigger] older_by(sq, x, p, h) by { if older_by(sq, x, p, h) { let S = Set::<int>::range(0, x); assert(sq.ends[x] == sp.ends[x]);
    assert forall|i: int| 0 <= i < p.len() - 1 implies step(sp, S, #[trigger] p[i], p[i + 1]) by { assert(step(sq, S, p[i], p[i + 1])); let e = choose|e: int| S.contains(e) && #[trigger] joins(sq, e, p[i], p[i + 1]); assert(sq.ends[e] == sp.ends[e]); assert(joins(sp, e, p[i], p[i + 1])); }
    assert(older_by(sp, x, p, h)); } } }
proof fn l_wf_sp_add(sp: G, e: Edge, w: real) requires wf(sp), vid(sp, e.s), vid(sp, e.t), sp.ends.len() + 1 < 4611686018427387904 ensures wf(sp_add(sp, e, w))
{ l_wf_add_edge(sp, e.s, e.t); let h = g_add_edge(sp, e.s, e.t); let q = sp_add(sp, e, w); assert(q.ends == h.ends && q.adj == h.adj && q.n == h.n);
  assert forall|v: int| #[trigger] vid(q, v) implies wf_adj(q, v) by { assert(vid(h, v)); assert(wf_adj(h, v)); assert forall|j: int| 0 <= j < q.adj[v].len() implies #[trigger] eid(q, q.adj[v][j]) by { assert(eid(h, h.adj[v][j])); } assert forall|e: int| #[trigger] eid(q, e) implies occ(q.adj[v], e) == (if q.ends[e].0 == v { 1int } else { 0 }) + (if q.ends[e].1 == v { 1int } else { 0 }) by { assert(eid(h, e)); } }
  assert forall|e: int| #[trigger] eid(q, e) implies 0 <= q.ends[e].0 < q.n && 0 <= q.ends[e].1 < q.n by { assert(eid(h, e)); } }
proof fn l_keep(g: G, wm: Seq<real>, h: int, so: Seq<Edge>, i: int, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, loc: Seq<(int, int)>)
  requires spi(g, wm, h, so, i, sp, mp, ns, loc), sorted0(g, wm, so), i < so.len(), !within(sp, so[i].s, so[i].t, h)
  ensures ({ let e = so[i]; let n = sp.ends.len() as int; spi(g, wm, h, so, i + 1, sp_add(sp, e, wm[e.id]), mp.insert(n, e), ns, loc.update(e.id, (1int, n))) })
{ reveal(spi); reveal(sorted0); let e = so[i]; let n = sp.ends.len() as int; let sq = sp_add(sp, e, wm[e.id]); let mq = mp.insert(n, e); let lq = loc.update(e.id, (1int, n)); assert(eid(g, e.id)); assert(loc[e.id].0 == 0);
  l_wf_sp_add(sp, e, wm[e.id]);
  assert forall|x: int| #[trigger] eid(sq, x) implies sp_e(g, wm, sq, mq, x) && lq[mq[x].id] == (1int, x) && apart(sq, x, h) by {
    if x < n { assert(eid(sp, x)); assert(sp_e(g, wm, sp, mp, x)); l_apart_ext(sp, sq, x, h); }
    else { assert forall|p: Seq<int>| !#[trigger] older_by(sq, n, p, h) by { if older_by(sq, n, p, h) { let S = Set::<int>::range(0, n);
      assert forall|i: int| 0 <= i < p.len() - 1 implies step(sp, S, #[trigger] p[i], p[i + 1]) by { assert(step(sq, S, p[i], p[i + 1])); let e = choose|e: int| S.contains(e) && #[trigger] joins(sq, e, p[i], p[i + 1]); assert(sq.ends[e] == sp.ends[e]); assert(joins(sp, e, p[i], p[i + 1])); }
      assert(within_by(sp, p, e.s, e.t, h)); } } } }
  assert forall|y: int| 0 <= y < ns.len() implies edge_ok(g, #[trigger] ns[y]) && lq[ns[y].id] == (2int, y) && near(sq, wm[ns[y].id], ns[y].s, ns[y].t, h) by { l_near_ext(sp, sq, wm[ns[y].id], ns[y].s, ns[y].t, h); }
  assert forall|f: int| #[trigger] eid(g, f) implies loc_ok(sq, mq, ns, lq, f) by { assert(loc_ok(sp, mp, ns, loc, f)); if f != e.id && loc[f].0 == 1 { assert(eid(sp, loc[f].1)); } }
  assert forall|j: int| 0 <= j < so.len() implies (lq[(#[trigger] so[j]).id].0 == 0 <==> j >= i + 1) by { if j != i { assert(so[j].id != so[i].id); } }
  assert forall|x: int, j: int| #[trigger] eid(sq, x) && i + 1 <= j < so.len() implies sq.w[x] <= wm[(#[trigger] so[j]).id] by { if x < n { assert(eid(sp, x)); assert(sp.w[x] <= wm[so[j].id]); } else { assert(wm[so[i].id] <= wm[so[j].id]); } } }
proof fn l_drop(g: G, wm: Seq<real>, h: int, so: Seq<Edge>, i: int, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, loc: Seq<(int, int)>)
  requires spi(g, wm, h, so, i, sp, mp, ns, loc), sorted0(g, wm, so), i < so.len(), within(sp, so[i].s, so[i].t, h)
  ensures spi(g, wm, h, so, i + 1, sp, mp, ns.push(so[i]), loc.update(so[i].id, (2int, ns.len() as int)))
{ reveal(spi); reveal(sorted0); let e = so[i]; let nq = ns.push(e); let lq = loc.update(e.id, (2int, ns.len() as int)); assert(eid(g, e.id)); assert(loc[e.id].0 == 0);
  let p = choose|p: Seq<int>| #[trigger] within_by(sp, p, e.s, e.t, h); let W = wm[e.id];
  assert forall|x: int| eid(sp, x) && #[trigger] all_edges(sp).contains(x) implies light(sp, W).contains(x) by { assert(sp.w[x] <= wm[so[i].id]); }
  l_step_ext(sp, sp, all_edges(sp), light(sp, W), p, e.s, e.t); assert(near_by(sp, W, p, e.s, e.t, h)); assert(near(sp, W, e.s, e.t, h));
  assert forall|x: int| #[trigger] eid(sp, x) implies sp_e(g, wm, sp, mp, x) && lq[mp[x].id] == (1int, x) && apart(sp, x, h) by { assert(sp_e(g, wm, sp, mp, x)); }
  assert forall|y: int| 0 <= y < nq.len() implies edge_ok(g, #[trigger] nq[y]) && lq[nq[y].id] == (2int, y) && near(sp, wm[nq[y].id], nq[y].s, nq[y].t, h) by { if y < ns.len() { assert(nq[y] == ns[y]); assert(edge_ok(g, ns[y])); } }
  assert forall|f: int| #[trigger] eid(g, f) implies loc_ok(sp, mp, nq, lq, f) by { assert(loc_ok(sp, mp, ns, loc, f)); }
  assert forall|j: int| 0 <= j < so.len() implies (lq[(#[trigger] so[j]).id].0 == 0 <==> j >= i + 1) by { if j != i { assert(so[j].id != so[i].id); } } }
// retained and dropped edges partition the edges of g
pub open spec fn kept(sp: G, mp: Map<int, Edge>, e: int) -> bool { exists|x: int| #[trigger] eid(sp, x) && mp[x].id == e }
pub open spec fn dropped(ns: Seq<Edge>, e: int) -> bool { exists|y: int| 0 <= y < ns.len() && (#[trigger] ns[y]).id == e }
pub open spec fn partition(g: G, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>) -> bool {
  (forall|e: int| #[trigger] eid(g, e) ==> (kept(sp, mp, e) <==> !dropped(ns, e))) && (forall|x: int, y: int| #[trigger] eid(sp, x) && #[trigger] eid(sp, y) && x != y ==> mp[x].id != mp[y].id)
  && (forall|x: int, y: int| 0 <= x < y < ns.len() ==> (#[trigger] ns[x]).id != (#[trigger] ns[y]).id) }
pub open spec fn spanner_post(g: G, wm: Seq<real>, k: int, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>) -> bool {
  wf(sp) && no_loops(sp) && sp.n == g.n && (forall|x: int| #[trigger] eid(sp, x) ==> sp_e(g, wm, sp, mp, x)) && (forall|x: int| #[trigger] mp.contains_key(x) ==> eid(sp, x)) && partition(g, sp, mp, ns) && sp.ends.len() + ns.len() == g.ends.len()
  // stretch: a path of at most 2k-1 retained edges, none heavier
  && (forall|y: int| 0 <= y < ns.len() ==> edge_ok(g, #[trigger] ns[y]) && near(sp, wm[ns[y].id], ns[y].s, ns[y].t, 2 * k - 1))
  // girth
  && (forall|vs: Seq<int>, es: Seq<int>| #[trigger] cyc(sp, vs, es) ==> vs.len() > 2 * k) }
// rotating a cycle: the walk around it from behind its m-th edge back to that edge
pub open spec fn rot(m: int, k: int, i: int) -> int { if m + 1 + i < k { m + 1 + i } else { m + 1 + i - k } }
// the cycle without its edge es[m], from the end of es[m] round to its start
pub open spec fn round(vs: Seq<int>, m: int) -> Seq<int> { Seq::new(vs.len(), |i: int| vs[rot(m, vs.len() as int, i)]) }
proof fn l_round_i(m: int, k: int, i: int) requires 0 <= m < k, 0 <= i < k ensures 0 <= rot(m, k, i) < k, i < k - 1 ==> rot(m, k, i) != m && rot(m, k, i + 1) == nx(rot(m, k, i), k), rot(m, k, k - 1) == m, rot(m, k, 0) == nx(m, k) {}
proof fn l_round(sp: G, vs: Seq<int>, es: Seq<int>, m: int) requires wf(sp), cyc(sp, vs, es), 0 <= m < es.len(), forall|i: int| 0 <= i < es.len() ==> #[trigger] es[i] <= es[m]
  ensures ({ let p = round(vs, m); walk(sp, Set::<int>::range(0, es[m]), p) && p[0] == vs[nx(m, vs.len() as int)] && p.last() == vs[m] })
{ let k = vs.len() as int; let S = Set::<int>::range(0, es[m]); let p = round(vs, m);
  assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] p[i] < sp.n by { l_round_i(m, k, i); let j = rot(m, k, i); assert(joins(sp, es[j], vs[j], vs[nx(j, k)])); assert(eid(sp, es[j])); }
  assert forall|i: int| 0 <= i < p.len() - 1 implies step(sp, S, #[trigger] p[i], p[i + 1]) by { l_round_i(m, k, i); let j = rot(m, k, i); assert(joins(sp, es[j], vs[j], vs[nx(j, k)])); assert(eid(sp, es[j])); assert(es[j] != es[m]) by { if j < m { assert(es[j] != es[m]); } else { assert(es[m] != es[j]); } } assert(S.contains(es[j])); assert(p[i + 1] == vs[nx(j, k)]); assert(joins(sp, es[j], p[i], p[i + 1])); }
  l_round_i(m, k, 0); }
proof fn l_walk_back(sp: G, S: Set<int>, p: Seq<int>) requires walk(sp, S, p), p.len() > 0 ensures walk(sp, S, p.reverse()), p.reverse()[0] == p.last(), p.reverse().last() == p[0]
{ let q = p.reverse(); assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] < sp.n by { assert(q[i] == p[p.len() - 1 - i]); }
  assert forall|i: int| 0 <= i < q.len() - 1 implies step(sp, S, #[trigger] q[i], q[i + 1]) by { let j = p.len() - 2 - i; assert(step(sp, S, p[j], p[j + 1])); let e = choose|e: int| S.contains(e) && #[trigger] joins(sp, e, p[j], p[j + 1]); assert(joins(sp, e, q[i], q[i + 1])); } }
proof fn l_girth(sp: G, vs: Seq<int>, es: Seq<int>, h: int)
  requires wf(sp), cyc(sp, vs, es), forall|x: int| #[trigger] eid(sp, x) ==> apart(sp, x, h) ensures vs.len() > h + 1
{ let k = vs.len() as int; let m = l_max(es); let x = es[m]; let p = round(vs, m); l_round(sp, vs, es, m);
  assert(joins(sp, es[m], vs[m], vs[nx(m, k)])); assert(eid(sp, x)); assert(apart(sp, x, h));
  if k <= h + 1 {
    if sp.ends[x].0 == vs[nx(m, k)] && sp.ends[x].1 == vs[m] { assert(older_by(sp, x, p, h)); }
    else { let q = p.reverse(); l_walk_back(sp, Set::<int>::range(0, x), p); assert(older_by(sp, x, q, h)); } } }
proof fn l_sp_end(g: G, wm: Seq<real>, h: int, so: Seq<Edge>, i: int, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, loc: Seq<(int, int)>, k: int)
  requires spi(g, wm, h, so, i, sp, mp, ns, loc), sorted0(g, wm, so), i == so.len(), 1 <= k <= 18446744073709551615, h == hop_limit(k)
  ensures spanner_post(g, wm, k, sp, mp, ns)
{ reveal(spi); reveal(sorted0);
  assert forall|e: int| #[trigger] eid(g, e) implies (kept(sp, mp, e) <==> !dropped(ns, e)) by { l_cover(g, so, e); let j = choose|j: int| 0 <= j < so.len() && (#[trigger] so[j]).id == e; assert(loc[so[j].id].0 != 0); assert(loc_ok(sp, mp, ns, loc, e));
    if kept(sp, mp, e) { let x = choose|x: int| #[trigger] eid(sp, x) && mp[x].id == e; assert(loc[mp[x].id] == (1int, x)); if dropped(ns, e) { let y = choose|y: int| 0 <= y < ns.len() && (#[trigger] ns[y]).id == e; assert(loc[ns[y].id] == (2int, y)); } }
    if loc[e].0 == 1 { assert(eid(sp, loc[e].1)); } else { assert(ns[loc[e].1].id == e); } }
  assert forall|x: int| #[trigger] eid(sp, x) implies sp.ends[x].0 != sp.ends[x].1 by { assert(sp_e(g, wm, sp, mp, x)); assert(eid(g, mp[x].id)); }
  assert forall|y: int| 0 <= y < ns.len() implies edge_ok(g, #[trigger] ns[y]) && near(sp, wm[ns[y].id], ns[y].s, ns[y].t, 2 * k - 1) by { let p = choose|p: Seq<int>| #[trigger] near_by(sp, wm[ns[y].id], p, ns[y].s, ns[y].t, h); assert(near_by(sp, wm[ns[y].id], p, ns[y].s, ns[y].t, 2 * k - 1)); }
  assert forall|vs: Seq<int>, es: Seq<int>| #[trigger] cyc(sp, vs, es) implies vs.len() > 2 * k by { l_girth(sp, vs, es, h); if k > 9223372036854775807 { assert forall|i: int| 0 <= i < vs.len() implies 0 <= #[trigger] vs[i] < sp.n by { assert(joins(sp, es[i], vs[i], vs[nx(i, vs.len() as int)])); assert(eid(sp, es[i])); } l_bounded(vs, sp.n); } } }
// every edge occurs in the sorted sequence
proof fn l_cover(g: G, so: Seq<Edge>, e: int) requires edges_perm(g, so), eid(g, e) ensures exists|j: int| 0 <= j < so.len() && (#[trigger] so[j]).id == e
{ let q = Seq::new(so.len(), |i: int| so[i].id); assert(q.no_duplicates()); q.unique_seq_to_set(); let n = g.ends.len() as int; l_range(n); let R = Set::<int>::range(0, n); let Q = q.to_set();
  assert(Q.subset_of(R)) by { assert forall|x: int| Q.contains(x) implies R.contains(x) by { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(eid(g, so[i].id)); } }
  vstd::set_lib::lemma_subset_equality(Q, R); assert(Q.contains(e)); let i = choose|i: int| 0 <= i < q.len() && q[i] == e; assert(so[i].id == e); }
