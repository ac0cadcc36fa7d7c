// ---- the approximation factor: spanner cycles and closing cycles against any basis of the graph
#[verifier::opaque]
pub open spec fn tm(t: real, x: real) -> real { t * x }
proof fn l_tm_add(t: real, x: real, y: real) ensures tm(t, x + y) == tm(t, x) + tm(t, y), tm(x + y, t) == tm(x, t) + tm(y, t) { reveal(tm); assert(t * (x + y) == t * x + t * y) by (nonlinear_arith); assert((x + y) * t == x * t + y * t) by (nonlinear_arith); }
proof fn l_tm_mono(t: real, x: real, y: real) requires t >= 0real, x <= y ensures tm(t, x) <= tm(t, y), tm(x, t) <= tm(y, t) { reveal(tm); assert(t * x <= t * y) by (nonlinear_arith) requires t >= 0real, x <= y; assert(x * t <= y * t) by (nonlinear_arith) requires t >= 0real, x <= y; }
proof fn l_tm_1(x: real) ensures tm(1real, x) == x, tm(0real, x) == 0real, tm(x, 0real) == 0real { reveal(tm); assert(1real * x == x) by (nonlinear_arith); assert(0real * x == 0real) by (nonlinear_arith); assert(x * 0real == 0real) by (nonlinear_arith); }
proof fn l_tm_ge(t: real, x: real) requires t >= 1real, x >= 0real ensures tm(t, x) >= x { l_tm_mono(x, 1real, t); l_tm_1(x); }
// ---- every graph has a spanning forest
#[verifier::opaque]
pub open spec fn grow(g: G, un: Set<int>, f: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>) -> bool {
  lab.len() == g.n && tm.len() == g.n && (forall|x: int| #[trigger] un.contains(x) ==> vid(g, x))
  && (forall|v: int| #[trigger] vid(g, v) && !un.contains(v) ==> sfw_v(g, f, lab, tm, rt, v))
  && (forall|i: int| 0 <= i < f.len() ==> sfw_e(g, f, lab, tm, i) && (#[trigger] f[i]).id >= 0 && !un.contains(f[i].s) && !un.contains(f[i].t))
  && (forall|c: int| 0 <= c < rt.len() ==> vid(g, #[trigger] rt[c]) && !un.contains(rt[c]) && lab[rt[c]] == c)
  && f.len() + rt.len() == g.n - un.len() && (forall|e: int| #[trigger] eid(g, e) ==> grow_e(g, un, lab, rt, g.ends[e].0, g.ends[e].1)) }
pub open spec fn grow_e(g: G, un: Set<int>, lab: Seq<int>, rt: Seq<int>, a: int, b: int) -> bool { (!un.contains(a) && !un.contains(b) ==> lab[a] == lab[b]) && (!un.contains(a) && un.contains(b) ==> lab[a] == rt.len() - 1) && (un.contains(a) && !un.contains(b) ==> lab[b] == rt.len() - 1) }
pub open spec fn crosses(g: G, un: Set<int>, e: int, u: int, v: int) -> bool { joins(g, e, u, v) && !un.contains(u) && un.contains(v) }
proof fn l_grow_e(g: G, un: Set<int>, f: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>, e: int, u: int, v: int) requires wf(g), grow(g, un, f, lab, tm, rt), crosses(g, un, e, u, v)
  ensures grow(g, un.remove(v), f.push(Edge { id: e, s: u, t: v }), lab.update(v, rt.len() - 1), tm.update(v, f.len() as int), rt), un.contains(v)
{ reveal(grow); let a = un.remove(v); let f2 = f.push(Edge { id: e, s: u, t: v }); let l2 = lab.update(v, rt.len() - 1); let t2 = tm.update(v, f.len() as int); assert(eid(g, e)); assert(vid(g, u) && vid(g, v)); assert(grow_e(g, un, lab, rt, g.ends[e].0, g.ends[e].1)); assert(sfw_v(g, f, lab, tm, rt, u));
  assert forall|x: int| #[trigger] vid(g, x) && !a.contains(x) implies sfw_v(g, f2, l2, t2, rt, x) by { if x != v { assert(sfw_v(g, f, lab, tm, rt, x)); if tm[x] != -1 { assert(f2[tm[x]] == f[tm[x]]); } } else { assert(f2[f.len() as int].t == v); } }
  assert forall|i: int| 0 <= i < f2.len() implies sfw_e(g, f2, l2, t2, i) && (#[trigger] f2[i]).id >= 0 && !a.contains(f2[i].s) && !a.contains(f2[i].t) by { if i < f.len() { assert(f2[i] == f[i]); assert(sfw_e(g, f, lab, tm, i) && f[i].id >= 0); } }
  assert forall|d: int| #[trigger] eid(g, d) implies grow_e(g, a, l2, rt, g.ends[d].0, g.ends[d].1) by { assert(grow_e(g, un, lab, rt, g.ends[d].0, g.ends[d].1)); } }
proof fn l_grow_r(g: G, un: Set<int>, f: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>, v: int) requires wf(g), grow(g, un, f, lab, tm, rt), un.contains(v), forall|e: int, x: int, y: int| !#[trigger] crosses(g, un, e, x, y)
  ensures grow(g, un.remove(v), f, lab.update(v, rt.len() as int), tm.update(v, -1), rt.push(v))
{ reveal(grow); let a = un.remove(v); let l2 = lab.update(v, rt.len() as int); let t2 = tm.update(v, -1); let r2 = rt.push(v); assert(vid(g, v));
  assert forall|x: int| #[trigger] vid(g, x) && !a.contains(x) implies sfw_v(g, f, l2, t2, r2, x) by { if x != v { assert(sfw_v(g, f, lab, tm, rt, x)); assert(r2[lab[x]] == rt[lab[x]]); } }
  assert forall|i: int| 0 <= i < f.len() implies sfw_e(g, f, l2, t2, i) && (#[trigger] f[i]).id >= 0 && !a.contains(f[i].s) && !a.contains(f[i].t) by { assert(sfw_e(g, f, lab, tm, i) && f[i].id >= 0); }
  assert forall|c: int| 0 <= c < r2.len() implies vid(g, #[trigger] r2[c]) && !a.contains(r2[c]) && l2[r2[c]] == c by { if c < rt.len() { assert(r2[c] == rt[c]); } }
  assert forall|d: int| #[trigger] eid(g, d) implies grow_e(g, a, l2, r2, g.ends[d].0, g.ends[d].1) by { let p = g.ends[d].0; let q = g.ends[d].1; assert(grow_e(g, un, lab, rt, p, q)); assert(!crosses(g, un, d, p, q)); assert(!crosses(g, un, d, q, p)); } }
proof fn l_grow(g: G, un: Set<int>, f: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>) -> (r: (Seq<Edge>, Seq<int>, Seq<int>, Seq<int>)) requires wf(g), grow(g, un, f, lab, tm, rt) ensures sfw(g, r.0, r.1, r.2, r.3), r.0.len() == g.n - r.3.len() decreases un.len()
{ if exists|e: int, x: int, y: int| #[trigger] crosses(g, un, e, x, y) { let (e, u, v) = choose|e: int, x: int, y: int| #[trigger] crosses(g, un, e, x, y); l_grow_e(g, un, f, lab, tm, rt, e, u, v); l_grow(g, un.remove(v), f.push(Edge { id: e, s: u, t: v }), lab.update(v, rt.len() - 1), tm.update(v, f.len() as int), rt) }
  else if exists|v: int| un.contains(v) { let v = choose|v: int| un.contains(v); l_grow_r(g, un, f, lab, tm, rt, v); l_grow(g, un.remove(v), f, lab.update(v, rt.len() as int), tm.update(v, -1), rt.push(v)) }
  else { assert(un =~= Set::empty()); reveal(grow); assert forall|v: int| #[trigger] vid(g, v) implies sfw_v(g, f, lab, tm, rt, v) by { assert(!un.contains(v)); }
    assert forall|e: int| #[trigger] eid(g, e) implies lab[g.ends[e].0] == lab[g.ends[e].1] by { assert(grow_e(g, un, lab, rt, g.ends[e].0, g.ends[e].1)); } (f, lab, tm, rt) } }
proof fn l_enum(s: Set<int>) -> (q: Seq<int>) ensures enumerates(q, s) decreases s.len()
{ if exists|x: int| s.contains(x) { let x = choose|x: int| s.contains(x); let p = l_enum(s.remove(x)); let q = p.push(x);
    assert forall|y: int| #[trigger] s.contains(y) <==> q.contains(y) by { assert(s.remove(x).contains(y) <==> p.contains(y)); if p.contains(y) { let i = choose|i: int| 0 <= i < p.len() && p[i] == y; assert(q[i] == y); } assert(q[p.len() as int] == x); if q.contains(y) && y != x { let i = choose|i: int| 0 <= i < q.len() && q[i] == y; assert(p[i] == y); } }
    assert(!p.contains(x)) by { assert(!s.remove(x).contains(x)); } assert(q.no_duplicates()); q } else { assert(s =~= Set::empty()); Seq::empty() } }
proof fn l_frm_ex(g: G) -> (r: (Seq<Edge>, Seq<int>)) requires wf(g), no_loops(g) ensures frm(g, r.0, r.1)
{ let un = Set::range(0, g.n); let z = Seq::new(g.n as nat, |i: int| 0int); l_range(g.n);
  assert(grow(g, un, Seq::empty(), z, z, Seq::empty())) by { reveal(grow); assert forall|e: int| #[trigger] eid(g, e) implies grow_e(g, un, z, Seq::<int>::empty(), g.ends[e].0, g.ends[e].1) by { assert(vid(g, g.ends[e].0) && vid(g, g.ends[e].1)); } }
  let (f, lab, tm, rt) = l_grow(g, un, Seq::empty(), z, z, Seq::empty()); l_sf(g, f, lab, tm, rt); l_ids_len(f); let A = all_edges(g); let F = ids(f); let D = A.difference(F); let nf = l_enum(D); l_range(g.ends.len() as int);
  assert(A =~= D.union(F)); vstd::set_lib::lemma_set_disjoint_lens(D, F); let k = rt.len() as int;
  let lb = choose|lab: Seq<int>| #[trigger] labels(g, all_edges(g), lab, k) && labels(g, F, lab, k); assert(ncomp(g, k)); assert(dimension(g, nf.len() as int));
  assert forall|p: int| 0 <= p < nf.len() implies eid(g, #[trigger] nf[p]) by { assert(nf.contains(nf[p])); assert(D.contains(nf[p])); }
  assert forall|e: int| #[trigger] eid(g, e) implies (nf.contains(e) <==> !ids(f).contains(e)) by { assert(D.contains(e) <==> nf.contains(e)); assert(A.contains(e)); }
  assert(frm_by(g, f, nf, lab, tm, rt)); assert(frm(g, f, nf)) by { reveal(frm); } (f, nf) }
// ---- cycles F with witnesses T, each at most t times as heavy as every cycle odd on its witness, weigh at most t times any basis
pub open spec fn fac_i(g: G, wm: Seq<real>, F: Seq<Seq<Edge>>, T: Seq<Set<int>>, t: real, i: int) -> bool { xr(T[i], cset(F[i]), me(g)) && forall|A: Set<int>| #[trigger] scyc(g, A) && xr(T[i], A, me(g)) ==> wt(wm, F[i]) <= tm(t, ws(wm, A, me(g))) }
#[verifier::opaque]
pub open spec fn fac(g: G, wm: Seq<real>, F: Seq<Seq<Edge>>, T: Seq<Set<int>>, t: real) -> bool { T.len() == F.len() && cycles_of(g, F) && (forall|i: int| 0 <= i < F.len() ==> #[trigger] fac_i(g, wm, F, T, t, i)) && forall|i: int, j: int| 0 <= i < j < F.len() ==> #[trigger] m_orth(g, T, F, i, j) }
proof fn l_wsum_perm(wm: Seq<real>, F: Seq<Seq<Edge>>, pos: Seq<int>) requires pos.no_duplicates(), pos.len() == F.len(), forall|r: int| 0 <= r < pos.len() ==> 0 <= #[trigger] pos[r] < F.len() ensures wsum(wts(wm, F), pos) == tot(wm, F)
{ let d = F.len() as int; let T = pos.to_set(); pos.unique_seq_to_set(); let R = Set::range(0, d); l_range(d); assert forall|x: int| T.contains(x) implies R.contains(x) by { let i = choose|i: int| 0 <= i < pos.len() && pos[i] == x; assert(0 <= pos[i] < d); }
  vstd::set_lib::lemma_subset_equality(T, R); assert forall|i: int| 0 <= i < d implies T.contains(i) by { assert(R.contains(i)); }
  l_ws(wts(wm, F), pos, d); l_ws_all(wm, F, T, d); assert(F.take(d) =~= F); }
proof fn l_factor(g: G, wm: Seq<real>, fs: Seq<Edge>, nf: Seq<int>, F: Seq<Seq<Edge>>, T: Seq<Set<int>>, t: real, B0: Seq<Seq<Edge>>, B: Seq<Seq<Edge>>, pos: Seq<int>)
  requires frm(g, fs, nf), fac(g, wm, F, T, t), F.len() == nf.len(), cycles_of(g, B0), B0.len() == nf.len(), cycles_of(g, B), indep(B), B.len() == nf.len(), placed(B, F, pos),
    forall|r: int| 0 <= r < B.len() && !pos.contains(r) ==> #[trigger] B[r] == B0[r], tot(wm, F.take(pos.len() as int)) <= tm(t, wsum(wts(wm, B0), pos))
  ensures tot(wm, F) <= tm(t, tot(wm, B0)) decreases F.len() - pos.len()
{ let i = pos.len() as int; let d = F.len() as int; let m = me(g);
  if i == d { assert forall|r: int| 0 <= r < pos.len() implies 0 <= #[trigger] pos[r] < B0.len() by {} l_wsum_perm(wm, B0, pos); assert(F.take(d) =~= F); } else {
    assert(fac_i(g, wm, F, T, t, i) && cycle_of(g, F[i])) by { reveal(fac); } let c = F[i]; let S = T[i]; let I = l_span(g, fs, nf, B, c);
    l_xs_set(S, B, I, c, m); l_xs(S, B, I, d, m); let j = l_pip_some(S, B, I, d, m);
    if pos.contains(j) { let r = choose|r: int| 0 <= r < pos.len() && pos[r] == j; assert(B[pos[r]] == F[r]); assert(m_orth(g, T, F, r, i)) by { reveal(fac); } }
    assert(B[j] == B0[j]); assert(cycle_of(g, B0[j])); l_cycle_set(g, B0[j]); l_wt_set(g, wm, B0[j]); assert(wt(wm, c) <= tm(t, wt(wm, B0[j])));
    let B2 = B.update(j, c); let p2 = pos.push(j); l_exch(B, I, c, j); l_wsum_push(wts(wm, B0), pos, j); l_tm_add(t, wsum(wts(wm, B0), pos), wt(wm, B0[j])); assert(F.take(i + 1).drop_last() =~= F.take(i)); assert(F.take(i + 1).last() == c);
    assert forall|r: int| 0 <= r < i implies #[trigger] pos[r] != j by { assert(pos.contains(pos[r])); }
    assert forall|r: int| 0 <= r < p2.len() implies 0 <= #[trigger] p2[r] < B2.len() && B2[p2[r]] == F[r] by { if r < i { assert(p2[r] == pos[r]); } }
    assert(p2.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < p2.len() && 0 <= b < p2.len() && a != b implies p2[a] != p2[b] by { if a < i { assert(pos[a] != j); } if b < i { assert(pos[b] != j); } } }
    assert forall|r: int| 0 <= r < B2.len() implies cycle_of(g, #[trigger] B2[r]) by { if r != j { assert(cycle_of(g, B[r])); } }
    assert forall|r: int| 0 <= r < B2.len() && !p2.contains(r) implies #[trigger] B2[r] == B0[r] by { assert(p2[i] == j); if pos.contains(r) { let q = choose|q: int| 0 <= q < pos.len() && pos[q] == r; assert(p2[q] == r); } assert(B[r] == B0[r]); }
    l_factor(g, wm, fs, nf, F, T, t, B0, B2, p2); } }
// ---- walks of the graph carried over to the spanner
pub open spec fn cby(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, e: Edge, c: Seq<Edge>, p: (Seq<int>, Seq<int>)) -> bool { closing_by(g, wm, sp, mp, e, c, p.0, p.1) }
pub open spec fn cpath(g: G, wm: Seq<real>, sp: G, mp: Map<int, Edge>, e: Edge, c: Seq<Edge>) -> (Seq<int>, Seq<int>) { choose|p: (Seq<int>, Seq<int>)| #[trigger] cby(g, wm, sp, mp, e, c, p) }
// everything known about one run, and the paths of its closing cycles
pub struct Fx { pub g: G, pub wm: Seq<real>, pub k: int, pub sp: G, pub mp: Map<int, Edge>, pub ns: Seq<Edge>, pub ds: Seq<Seq<Edge>> }
pub open spec fn cp(x: Fx, y: int) -> Seq<int> { cpath(x.g, x.wm, x.sp, x.mp, x.ns[y], x.ds[y]).1 }
pub open spec fn cpv(x: Fx, y: int) -> Seq<int> { cpath(x.g, x.wm, x.sp, x.mp, x.ns[y], x.ds[y]).0 }
#[verifier::opaque]
pub open spec fn fx(x: Fx) -> bool { gpre(x.g, x.wm) && x.k >= 1 && spanner_post(x.g, x.wm, x.k, x.sp, x.mp, x.ns) && x.ds.len() == x.ns.len() && closings(x.g, x.wm, x.sp, x.mp, x.ns, x.ds) }
pub open spec fn ft(x: Fx) -> real { (2 * x.k - 1) as real }
proof fn l_fx(x: Fx) requires fx(x) ensures gpre(x.g, x.wm), x.k >= 1, ft(x) >= 1real, sp_any(x.g, x.wm, x.sp, x.mp, x.ns), x.ds.len() == x.ns.len(), wf(x.g), no_loops(x.g), wf(x.sp), x.sp.n == x.g.n, x.wm.len() == me(x.g), x.sp.w.len() == me(x.sp), pos(x.wm), pos(x.sp.w)
{ reveal(fx); reveal(gpre); assert(sp_any(x.g, x.wm, x.sp, x.mp, x.ns)) by { reveal(sp_any); } l_epre(x.g, x.wm, x.sp, x.mp, x.ns); }
proof fn l_fx_k(x: Fx, a: int) requires fx(x), eid(x.sp, a) ensures eid(x.g, x.mp[a].id), x.sp.ends[a] == (x.mp[a].s, x.mp[a].t), edge_ok(x.g, x.mp[a]), x.sp.w[a] == x.wm[x.mp[a].id], x.wm[x.mp[a].id] > 0real { l_fx(x); l_spx(x.g, x.wm, x.sp, x.mp, x.ns, a); }
proof fn l_near_w(sp: G, W: real, p: Seq<int>, s: int, t: int, h: int) -> (r: (Seq<int>, Seq<int>)) requires wf(sp), near_by(sp, W, p, s, t, h) ensures ww(sp, r.0, r.1, s, t), wsum(sp.w, r.1) <= tm((p.len() - 1) as real, W) decreases p.len()
{ let L = light(sp, W); assert(vid(sp, p[0])); if p.len() == 1 { l_tm_1(W); (p, Seq::empty()) } else { let q = p.drop_last(); let v = q.last();
    assert forall|i: int| 0 <= i < q.len() - 1 implies step(sp, L, #[trigger] q[i], q[i + 1]) by { assert(step(sp, L, p[i], p[i + 1])); }
    assert(walk_uv(sp, L, q, s, v)); assert(near_by(sp, W, q, s, v, h)); let (vs, es) = l_near_w(sp, W, q, s, v, h);
    assert(step(sp, L, p[p.len() - 2], p[p.len() - 2 + 1])); let e = choose|e: int| L.contains(e) && #[trigger] joins(sp, e, v, t); assert(sp.w[e] <= W); assert(vid(sp, p[p.len() - 1])); l_ww_push(sp, vs, es, s, v, e, t); l_wsum_push(sp.w, es, e);
    let a = (p.len() - 2) as real; assert((p.len() - 1) as real == a + 1real); l_tm_add(W, a, 1real); l_tm_1(W); (vs.push(t), es.push(e)) } }
proof fn l_ww_push(g: G, vs: Seq<int>, es: Seq<int>, s: int, v: int, e: int, t: int) requires ww(g, vs, es, s, v), joins(g, e, v, t), vid(g, t) ensures ww(g, vs.push(t), es.push(e), s, t)
{ let us = vs.push(t); let fs = es.push(e); assert forall|i: int| 0 <= i < fs.len() implies joins(g, #[trigger] fs[i], us[i], us[i + 1]) && vid(g, us[i + 1]) by { if i < es.len() { assert(fs[i] == es[i] && us[i] == vs[i] && us[i + 1] == vs[i + 1]); } else { assert(vs.last() == vs[es.len() as int]); } } }
// the path that closes a dropped edge
proof fn l_fx_d(x: Fx, y: int) requires fx(x), 0 <= y < x.ns.len()
  ensures eid(x.g, x.ns[y].id), edge_ok(x.g, x.ns[y]), cycle_of(x.g, x.ds[y]), closing(x.g, x.wm, x.sp, x.mp, x.ns[y], x.ds[y]), ww(x.sp, cpv(x, y), cp(x, y), x.ns[y].t, x.ns[y].s), closing_by(x.g, x.wm, x.sp, x.mp, x.ns[y], x.ds[y], cpv(x, y), cp(x, y)), wsum(x.sp.w, cp(x, y)) <= tm(ft(x), x.wm[x.ns[y].id])
{ l_fx(x); l_spy(x.g, x.wm, x.sp, x.mp, x.ns, y); let e = x.ns[y]; assert(closing(x.g, x.wm, x.sp, x.mp, e, x.ds[y])) by { reveal(fx); }
  let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] closing_by(x.g, x.wm, x.sp, x.mp, e, x.ds[y], vs, es); assert(cby(x.g, x.wm, x.sp, x.mp, e, x.ds[y], (vs, es))); assert(cby(x.g, x.wm, x.sp, x.mp, e, x.ds[y], cpath(x.g, x.wm, x.sp, x.mp, e, x.ds[y])));
  let W = x.wm[e.id]; let h = 2 * x.k - 1; assert(near(x.sp, W, e.s, e.t, h)) by { reveal(fx); } let p = choose|p: Seq<int>| #[trigger] near_by(x.sp, W, p, e.s, e.t, h); let (us, fs) = l_near_w(x.sp, W, p, e.s, e.t, h);
  l_tm_mono(W, (p.len() - 1) as real, h as real); assert(dist_is(x.sp, x.sp.w, e.s, e.t, wsum(x.sp.w, cp(x, y)))); assert(wsum(x.sp.w, cp(x, y)) <= wsum(x.sp.w, fs)); }
// a support of the spanner, seen in the graph: odd on a cycle exactly when the support is odd on its image
pub open spec fn lifted(x: Fx, S: Set<int>, e: int) -> bool { (exists|a: int| #[trigger] eid(x.sp, a) && x.mp[a].id == e && S.contains(a)) || (exists|y: int| 0 <= y < x.ns.len() && (#[trigger] x.ns[y]).id == e && par(S, cp(x, y), cp(x, y).len() as int)) }
pub open spec fn lift(x: Fx, S: Set<int>) -> Set<int> { all_edges(x.g).filter(|e: int| lifted(x, S, e)) }
proof fn l_lift_k(x: Fx, S: Set<int>, a: int) requires fx(x), eid(x.sp, a) ensures lift(x, S).contains(x.mp[a].id) == S.contains(a)
{ l_fx(x); l_fx_k(x, a); let e = x.mp[a].id; assert(all_edges(x.g).contains(e)); if lifted(x, S, e) { if exists|b: int| #[trigger] eid(x.sp, b) && x.mp[b].id == e && S.contains(b) { let b = choose|b: int| #[trigger] eid(x.sp, b) && x.mp[b].id == e && S.contains(b); if a != b { l_spxx(x.g, x.wm, x.sp, x.mp, x.ns, a, b); } }
    else { let y = choose|y: int| 0 <= y < x.ns.len() && (#[trigger] x.ns[y]).id == e && par(S, cp(x, y), cp(x, y).len() as int); l_spxy(x.g, x.wm, x.sp, x.mp, x.ns, a, y); } } }
proof fn l_lift_d(x: Fx, S: Set<int>, y: int) requires fx(x), 0 <= y < x.ns.len() ensures lift(x, S).contains(x.ns[y].id) == par(S, cp(x, y), cp(x, y).len() as int)
{ l_fx(x); l_fx_d(x, y); let e = x.ns[y].id; assert(all_edges(x.g).contains(e)); if lifted(x, S, e) { if exists|b: int| #[trigger] eid(x.sp, b) && x.mp[b].id == e && S.contains(b) { let b = choose|b: int| #[trigger] eid(x.sp, b) && x.mp[b].id == e && S.contains(b); l_spxy(x.g, x.wm, x.sp, x.mp, x.ns, b, y); }
    else { let z = choose|z: int| 0 <= z < x.ns.len() && (#[trigger] x.ns[z]).id == e && par(S, cp(x, z), cp(x, z).len() as int); if z != y { l_nsxy(x.g, x.wm, x.sp, x.mp, x.ns, y, z); } } } }
proof fn l_par_lift(x: Fx, S: Set<int>, L: Seq<int>, es: Seq<int>, k: int) requires fx(x), 0 <= k <= es.len(), k <= L.len(), forall|i: int| 0 <= i < k ==> eid(x.sp, #[trigger] es[i]) && L[i] == x.mp[es[i]].id ensures par(lift(x, S), L, k) == par(S, es, k) decreases k
{ if k > 0 { l_par_lift(x, S, L, es, k - 1); assert(eid(x.sp, es[k - 1])); l_lift_k(x, S, es[k - 1]); } }
proof fn l_cyc_par(g: G, S: Set<int>, c: Seq<Edge>) requires cycle_of(g, c) ensures par(S, eids(c), c.len() as int) == xr(S, cset(c), me(g))
{ l_cycle_set(g, c); assert forall|i: int| 0 <= i < eids(c).len() implies 0 <= #[trigger] eids(c)[i] < me(g) by { assert(eids(c).contains(eids(c)[i])); assert(cset(c).contains(eids(c)[i])); } l_par(S, eids(c), me(g)); }
proof fn l_lift_trc(x: Fx, S: Set<int>, c: Seq<Edge>) requires fx(x), cycle_of(x.sp, c) ensures xr(lift(x, S), cset(trc(x.mp, c)), me(x.g)) == xr(S, cset(c), me(x.sp)), cycle_of(x.g, trc(x.mp, c)), wt(x.wm, trc(x.mp, c)) == wt(x.sp.w, c)
{ l_fx(x); let d = trc(x.mp, c); l_trc_cycle(x.g, x.wm, x.sp, x.mp, x.ns, c); l_trc_wt(x.g, x.wm, x.sp, x.mp, x.ns, c); l_cyc_par(x.g, lift(x, S), d); l_cyc_par(x.sp, S, c); let L = eids(d); let E = eids(c);
  assert forall|i: int| 0 <= i < c.len() implies eid(x.sp, #[trigger] E[i]) && L[i] == x.mp[E[i]].id by { assert(edge_ok(x.sp, c[i])); } l_par_lift(x, S, L, E, c.len() as int); }
proof fn l_lift_ds(x: Fx, S: Set<int>, y: int) requires fx(x), 0 <= y < x.ns.len() ensures !xr(lift(x, S), cset(x.ds[y]), me(x.g))
{ l_fx_d(x, y); let c = x.ds[y]; let L = eids(c); let es = cp(x, y); let k = es.len() as int; l_cyc_par(x.g, lift(x, S), c); assert forall|i: int| 0 <= i < k implies eid(x.sp, #[trigger] es[i]) && L[i] == x.mp[es[i]].id by {} l_par_lift(x, S, L, es, k); l_lift_d(x, S, y); assert(c.last() == c[k]); assert(L[k] == x.ns[y].id); }
// an edge of the graph as a walk of the spanner
proof fn l_tw1(x: Fx, S: Set<int>, e: int, a: int, b: int) -> (r: (Seq<int>, Seq<int>)) requires fx(x), joins(x.g, e, a, b) ensures ww(x.sp, r.0, r.1, a, b), par(S, r.1, r.1.len() as int) == lift(x, S).contains(e), wsum(x.sp.w, r.1) <= tm(ft(x), x.wm[e])
{ l_fx(x); assert(eid(x.g, e)); assert(vid(x.g, a) && vid(x.g, b)); assert(kept(x.sp, x.mp, e) || dropped(x.ns, e)) by { reveal(fx); }
  if kept(x.sp, x.mp, e) { let d = choose|d: int| #[trigger] eid(x.sp, d) && x.mp[d].id == e; l_fx_k(x, d); l_lift_k(x, S, d); l_tm_ge(ft(x), x.wm[e]); let v0 = seq![a]; let e0 = Seq::<int>::empty(); assert(ww(x.sp, v0, e0, a, a)); assert(joins(x.sp, d, a, b)); l_ww_push(x.sp, v0, e0, a, a, d, b); l_wsum_push(x.sp.w, e0, d); let r = e0.push(d); assert(r[0] == d); assert(!par(S, r, 0)); assert(par(S, r, 1) == S.contains(d)); assert(r.len() == 1); (v0.push(b), r) }
  else { let y = choose|y: int| 0 <= y < x.ns.len() && (#[trigger] x.ns[y]).id == e; l_fx_d(x, y); l_lift_d(x, S, y); let vs = cpv(x, y); let es = cp(x, y); let s = x.ns[y].s; let t = x.ns[y].t;
    if t == a && s == b { (vs, es) } else { l_ww_rev(x.sp, vs, es, t, s); l_rev_sums(x.sp.w, S, es); (vs.reverse(), es.reverse()) } } }
proof fn l_rev_sums(wm: Seq<real>, S: Set<int>, es: Seq<int>) ensures par(S, es.reverse(), es.len() as int) == par(S, es, es.len() as int), wsum(wm, es.reverse()) == wsum(wm, es) decreases es.len()
{ if es.len() > 0 { let p = es.drop_last(); let x = es.last(); l_rev_sums(wm, S, p); let q = seq![x]; assert(es.reverse() =~= q + p.reverse()); l_wsum_cat(wm, q, p.reverse()); l_par_cat(S, q, p.reverse()); assert(q.drop_last() =~= Seq::<int>::empty()); l_par_ext(S, es, p, p.len() as int); assert(!par(S, q, 0)); assert(par(S, q, 1) == S.contains(q[0])); assert(wsum(wm, q) == wsum(wm, q.drop_last()) + wm[q.last()]); } else { assert(es.reverse() =~= es); } }
proof fn l_tw(x: Fx, S: Set<int>, vs: Seq<int>, es: Seq<int>, a: int, b: int) -> (r: (Seq<int>, Seq<int>)) requires fx(x), ww(x.g, vs, es, a, b) ensures ww(x.sp, r.0, r.1, a, b), par(S, r.1, r.1.len() as int) == par(lift(x, S), es, es.len() as int), wsum(x.sp.w, r.1) <= tm(ft(x), wsum(x.wm, es)) decreases es.len()
{ l_fx(x); if es.len() == 0 { l_tm_1(ft(x)); (vs, es) } else { let n = es.len() as int; let c = vs[n - 1]; l_ww_drop(x.g, vs, es, a, b); let q = es.drop_last(); let e = es.last(); let (us, fs) = l_tw(x, S, vs.drop_last(), q, a, c);
    assert(joins(x.g, es[n - 1], vs[n - 1], vs[n])); assert(vs[n] == b); let (ws, gs) = l_tw1(x, S, e, c, b); l_ww_cat(x.sp, us, fs, a, c, ws, gs, b); l_wsum_cat(x.sp.w, fs, gs); l_par_cat(S, fs, gs); l_par_ext(lift(x, S), es, q, n - 1); l_tm_add(ft(x), wsum(x.wm, q), x.wm[e]);
    (us + ws.skip(1), fs + gs) } }
// a spanner cycle is at most t times as heavy as any cycle that is odd on its lifted witness
proof fn l_low(x: Fx, S: Set<int>, c: Seq<Edge>, A: Set<int>) requires fx(x), cycle_of(x.sp, c), min_odd(x.sp, x.sp.w, S, cset(c), wt(x.sp.w, c)), scyc(x.g, A), xr(lift(x, S), A, me(x.g)) ensures wt(x.sp.w, c) <= tm(ft(x), ws(x.wm, A, me(x.g)))
{ l_fx(x); let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] cyc_set(x.g, vs, es, A); l_cyc_walk(x.g, vs, es, A); l_cyc_rng(x.g, vs, es); assert(es.to_set() == A); l_par(lift(x, S), es, me(x.g)); l_ws(x.wm, es, me(x.g)); let v = vs[0];
  let (us, fs) = l_tw(x, S, vs.push(v), es, v, v); let D = l_odd_cycle(x.sp, x.sp.w, S, us, fs, v); reveal(min_odd); assert(wt(x.sp.w, c) <= ws(x.sp.w, D, me(x.sp))); }
// a closing cycle is at most t times as heavy as any cycle through its dropped edge
proof fn l_low1(x: Fx, y: int, A: Set<int>) requires fx(x), 0 <= y < x.ns.len(), scyc(x.g, A), A.contains(x.ns[y].id) ensures wt(x.wm, x.ds[y]) <= tm(ft(x), ws(x.wm, A, me(x.g)))
{ l_fx(x); l_fx_d(x, y); let e = x.ns[y]; let m = me(x.g); let (vs, es) = l_cyc_open(x.g, A, e.id, e.s, e.t); let (us, fs) = l_tw(x, Set::empty(), vs, es, e.s, e.t); let R = A.remove(e.id); assert(es.to_set() == R);
  l_scyc_under(x.g, A); assert forall|i: int| 0 <= i < es.len() implies 0 <= #[trigger] es[i] < m by { assert(es.contains(es[i])); assert(es.to_set().contains(es[i])); assert(A.contains(es[i])); } l_ws(x.wm, es, m); assert(R.insert(e.id) =~= A); l_ws_ins(x.wm, R, e.id, m);
  assert(dist_is(x.sp, x.sp.w, e.s, e.t, wsum(x.sp.w, cp(x, y)))); assert(wsum(x.sp.w, cp(x, y)) <= wsum(x.sp.w, fs)); assert(x.wm[e.id] > 0real); l_tm_ge(ft(x), x.wm[e.id]); l_tm_add(ft(x), wsum(x.wm, es), x.wm[e.id]); }
pub open spec fn allc(x: Fx, cs: Seq<Seq<Edge>>) -> Seq<Seq<Edge>> { x.ds + trs(x.mp, cs, cs.len() as int) }
pub open spec fn wit(x: Fx, sup: Seq<Set<int>>, i: int) -> Set<int> { if i < x.ns.len() { Set::empty().insert(x.ns[i].id) } else { lift(x, sup[i - x.ns.len()]) } }
pub open spec fn wits(x: Fx, sup: Seq<Set<int>>) -> Seq<Set<int>> { Seq::new((x.ns.len() + sup.len()) as nat, |i: int| wit(x, sup, i)) }
proof fn l_one(x: Fx, y: int, T: Set<int>) requires fx(x), 0 <= y < x.ns.len() ensures xr(Set::empty().insert(x.ns[y].id), T, me(x.g)) == T.contains(x.ns[y].id) { l_fx_d(x, y); l_xr_one(Set::empty().insert(x.ns[y].id), T, me(x.g), x.ns[y].id); }
proof fn l_all_at(x: Fx, cs: Seq<Seq<Edge>>, sup: Seq<Set<int>>, i: int) requires fx(x), pina_by(x.sp, x.sp.w, cs, sup), 0 <= i < allc(x, cs).len() ensures cycle_of(x.g, allc(x, cs)[i]), fac_i(x.g, x.wm, allc(x, cs), wits(x, sup), ft(x), i)
{ l_fx(x); let F = allc(x, cs); let T = wits(x, sup); let n = x.ns.len() as int; let m = me(x.g);
  if i < n { assert(F[i] == x.ds[i]); l_fx_d(x, i); l_clo_hasy(x.g, x.wm, x.sp, x.mp, x.ns, x.ds[i], i, i); l_one(x, i, cset(x.ds[i])); l_uses_set(x.ds[i], x.ns[i].id);
    assert forall|A: Set<int>| #[trigger] scyc(x.g, A) && xr(T[i], A, m) implies wt(x.wm, F[i]) <= tm(ft(x), ws(x.wm, A, m)) by { l_one(x, i, A); l_low1(x, i, A); } }
  else { let j = i - n; let c = cs[j]; let S = sup[j]; assert(F[i] == trc(x.mp, c)); assert(m_cyc(x.sp, x.sp.w, sup, cs, j)); l_lift_trc(x, S, c); assert(xr(S, cset(c), me(x.sp))) by { reveal(min_odd); }
    assert forall|A: Set<int>| #[trigger] scyc(x.g, A) && xr(T[i], A, m) implies wt(x.wm, F[i]) <= tm(ft(x), ws(x.wm, A, m)) by { l_low(x, S, c, A); } } }
proof fn l_all_orth(x: Fx, cs: Seq<Seq<Edge>>, sup: Seq<Set<int>>, i: int, j: int) requires fx(x), pina_by(x.sp, x.sp.w, cs, sup), 0 <= i < j < allc(x, cs).len() ensures m_orth(x.g, wits(x, sup), allc(x, cs), i, j)
{ l_fx(x); let F = allc(x, cs); let T = wits(x, sup); let n = x.ns.len() as int;
  if j < n { assert(F[i] == x.ds[i]); l_fx_d(x, i); l_clo_hasy(x.g, x.wm, x.sp, x.mp, x.ns, x.ds[i], i, j); l_one(x, j, cset(x.ds[i])); l_uses_set(x.ds[i], x.ns[j].id); }
  else if i < n { assert(F[i] == x.ds[i]); l_lift_ds(x, sup[j - n], i); }
  else { let a = i - n; let b = j - n; assert(F[i] == trc(x.mp, cs[a])); assert(m_cyc(x.sp, x.sp.w, sup, cs, a)); assert(m_orth(x.sp, sup, cs, a, b)); l_lift_trc(x, sup[b], cs[a]); } }
pub open spec fn afac(g: G, wm: Seq<real>, k: int, W: real) -> bool { forall|B: Seq<Seq<Edge>>| #[trigger] basis(g, B) ==> W <= tm((2 * k - 1) as real, tot(wm, B)) }
proof fn l_afac(g: G, wm: Seq<real>, k: int, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, cs: Seq<Seq<Edge>>, ds: Seq<Seq<Edge>>)
  requires gpre(g, wm), k >= 1, spanner_post(g, wm, k, sp, mp, ns), basis(sp, cs), pina(sp, sp.w, cs), closings(g, wm, sp, mp, ns, ds), ds.len() == ns.len() ensures afac(g, wm, k, tot(wm, both(mp, cs, ds)))
{ let x = Fx { g: g, wm: wm, k: k, sp: sp, mp: mp, ns: ns, ds: ds }; assert(fx(x)) by { reveal(fx); } l_fx(x); reveal(pina); let sup = choose|sup: Seq<Set<int>>| #[trigger] pina_by(sp, sp.w, cs, sup); let F = allc(x, cs); let T = wits(x, sup); let t = ft(x);
  assert(fac(g, wm, F, T, t)) by { reveal(fac); assert forall|i: int| 0 <= i < F.len() implies cycle_of(g, #[trigger] F[i]) by { l_all_at(x, cs, sup, i); } assert forall|i: int| 0 <= i < F.len() implies #[trigger] fac_i(g, wm, F, T, t, i) by { l_all_at(x, cs, sup, i); } assert forall|i: int, j: int| 0 <= i < j < F.len() implies #[trigger] m_orth(g, T, F, i, j) by { l_all_orth(x, cs, sup, i, j); } }
  let tr = trs(mp, cs, cs.len() as int); l_tot_cat(wm, ds, tr); l_tot_cat(wm, tr, ds); l_both(g, wm, sp, mp, ns, cs, ds); let (fs, nf) = l_frm_ex(g); assert(nf_ok(g, fs, nf)) by { reveal(frm); } l_dim_one(g, nf.len() as int, both(mp, cs, ds).len() as int);
  assert forall|B: Seq<Seq<Edge>>| #[trigger] basis(g, B) implies tot(wm, both(mp, cs, ds)) <= tm((2 * k - 1) as real, tot(wm, B)) by { l_dim_one(g, nf.len() as int, B.len() as int); let e = Seq::<int>::empty(); assert(F.take(0).len() == 0); assert(wsum(wts(wm, B), e) == 0real); l_tm_1(t); l_factor(g, wm, fs, nf, F, T, t, B, B, e); } }
// with k = 1 the basis is a minimum one
proof fn l_afac1(g: G, wm: Seq<real>, W: real) requires afac(g, wm, 1, W) ensures minimum(g, wm, W)
{ reveal(minimum); assert forall|B: Seq<Seq<Edge>>| #[trigger] basis(g, B) implies W <= tot(wm, B) by { l_tm_1(tot(wm, B)); } }
proof fn l_any(g: G, wm: Seq<real>, k: int, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>) requires k >= 1, spanner_post(g, wm, k, sp, mp, ns) ensures sp_any(g, wm, sp, mp, ns) { reveal(sp_any); }
// what run() returns, in whatever order the closing cycles come
proof fn l_run(g: G, wm: Seq<real>, k: int, sp: G, mp: Map<int, Edge>, ns: Seq<Edge>, cs: Seq<Seq<Edge>>, ds: Seq<Seq<Edge>>)
  requires gpre(g, wm), k >= 1, spanner_post(g, wm, k, sp, mp, ns), basis(sp, cs), pina(sp, sp.w, cs), closed_all(g, wm, sp, mp, ns, ds)
  ensures ({ let F = both(mp, cs, ds); basis(g, F) && tot(wm, F) == tot(sp.w, cs) + tot(wm, ds) && afac(g, wm, k, tot(wm, F)) && (k == 1 ==> minimum(g, wm, tot(wm, F))) })
{ let q = choose|q: Seq<int>| #[trigger] closed_by(g, wm, sp, mp, ns, ds, q); let m = viae(ns, q); l_viae(g, wm, k, sp, mp, ns, q); l_any(g, wm, k, sp, mp, m); l_both(g, wm, sp, mp, m, cs, ds); l_afac(g, wm, k, sp, mp, m, cs, ds); if k == 1 { l_afac1(g, wm, tot(wm, both(mp, cs, ds))); } }
