"""greedy_fvs (C13)"""
from trg import TrG as TR
INST = "inst_graph.cpp"
PRELUDES = ["graph.rs"]
LEMMAS = r'''
// entries of a that are not in the set R of removed edges
pub open spec fn cr(a: Seq<int>, R: Set<int>) -> int decreases a.len() { if a.len() == 0 { 0 } else { cr(a.drop_last(), R) + (if R.contains(a.last()) { 0int } else { 1 }) } }
proof fn l_cr0(a: Seq<int>) ensures cr(a, Set::empty()) == a.len() decreases a.len() { if a.len() > 0 { l_cr0(a.drop_last()); } }
proof fn l_cr_nn(a: Seq<int>, R: Set<int>) ensures 0 <= cr(a, R) <= a.len(), cr(a, R) == 0 ==> forall|j: int| 0 <= j < a.len() ==> R.contains(#[trigger] a[j]) decreases a.len()
{ if a.len() > 0 { l_cr_nn(a.drop_last(), R); if cr(a, R) == 0 { assert forall|j: int| 0 <= j < a.len() implies R.contains(#[trigger] a[j]) by { if j < a.len() - 1 { assert(a.drop_last()[j] == a[j]); } } } } }
proof fn l_cr_ins(a: Seq<int>, R: Set<int>, e: int) requires !R.contains(e) ensures cr(a, R.insert(e)) == cr(a, R) - occ(a, e) decreases a.len() { if a.len() > 0 { l_cr_ins(a.drop_last(), R, e); } }
proof fn l_cr1(a: Seq<int>, R: Set<int>, i: int) requires 0 <= i < a.len(), !R.contains(a[i]) ensures cr(a, R) >= 1 decreases a.len()
{ l_cr_nn(a.drop_last(), R); if i < a.len() - 1 { assert(a.drop_last()[i] == a[i]); l_cr1(a.drop_last(), R, i); } }
proof fn l_cr2(a: Seq<int>, R: Set<int>, i: int, j: int) requires 0 <= i < j < a.len(), !R.contains(a[i]), !R.contains(a[j]) ensures cr(a, R) >= 2 decreases a.len()
{ assert(a.drop_last()[i] == a[i]); if j == a.len() - 1 { l_cr1(a.drop_last(), R, i); } else { assert(a.drop_last()[j] == a[j]); l_cr2(a.drop_last(), R, i, j); } }
// two entries outside R
proof fn l_cr_get1(a: Seq<int>, R: Set<int>) -> (i: int) requires cr(a, R) >= 1 ensures 0 <= i < a.len(), !R.contains(a[i]) decreases a.len()
{ if R.contains(a.last()) { l_cr_get1(a.drop_last(), R) } else { a.len() - 1 } }
proof fn l_cr_get2(a: Seq<int>, R: Set<int>) -> (ij: (int, int)) requires cr(a, R) >= 2 ensures 0 <= ij.0 < ij.1 < a.len(), !R.contains(a[ij.0]), !R.contains(a[ij.1]) decreases a.len()
{ if R.contains(a.last()) { l_cr_get2(a.drop_last(), R) } else { let i = l_cr_get1(a.drop_last(), R); (i, a.len() - 1) } }

pub open spec fn nonbr(g: G, ex: Seq<bool>, x: int) -> bool { forall|j: int| 0 <= j < g.adj[x].len() ==> !ex[oth(g, #[trigger] g.adj[x][j], x)] }
pub open spec fn all_ex(ex: Seq<bool>, vs: Seq<int>) -> bool { forall|i: int| 0 <= i < vs.len() ==> ex[#[trigger] vs[i]] }
pub open spec fn hits(vs: Seq<int>, out: Seq<int>) -> bool { exists|i: int| 0 <= i < vs.len() && out.contains(#[trigger] vs[i]) }
pub open spec fn cyc_ok(g: G, ex: Seq<bool>, out: Seq<int>) -> bool { forall|vs: Seq<int>, es: Seq<int>| #[trigger] cyc(g, vs, es) ==> hits(vs, out) || all_ex(ex, vs) }
pub open spec fn qent(g: G, ex: Seq<bool>, dg: Seq<int>, q: Seq<int>, i: int) -> bool { vid(g, q[i]) && (ex[q[i]] ==> dg[q[i]] <= 1) && (!ex[q[i]] ==> nonbr(g, ex, q[i])) }
pub open spec fn qdup(g: G, ex: Seq<bool>, q: Seq<int>, i: int, j: int) -> bool { q[i] == q[j] ==> nonbr(g, ex, q[i]) }
// R: edges already taken away; q: vertices of degree <= 1 waiting; u (if >= 0): the vertex being taken away, its first k edges are done
#[verifier::opaque]
pub open spec fn st(g: G, ex: Seq<bool>, dg: Seq<int>, R: Set<int>, q: Seq<int>, out: Seq<int>, u: int, k: int) -> bool {
  ex.len() == g.n && dg.len() == g.n && (u >= 0 ==> vid(g, u) && !ex[u] && 0 <= k <= g.adj[u].len())
  && (forall|e: int| #[trigger] R.contains(e) ==> eid(g, e) && (!ex[g.ends[e].0] || !ex[g.ends[e].1]))
  && (forall|v: int, j: int| vid(g, v) && !ex[v] && 0 <= j < g.adj[v].len() && !(v == u && j >= k) ==> R.contains(#[trigger] g.adj[v][j]))
  && (forall|w: int| #[trigger] vid(g, w) && ex[w] ==> dg[w] == cr(g.adj[w], R))
  && (forall|i: int| 0 <= i < q.len() ==> #[trigger] qent(g, ex, dg, q, i))
  && (forall|i: int, j: int| 0 <= i < j < q.len() ==> #[trigger] qdup(g, ex, q, i, j))
  && (forall|x: int| #[trigger] vid(g, x) && ex[x] && dg[x] <= 1 ==> q.contains(x))
  && (u >= 0 ==> forall|j: int| k <= j < g.adj[u].len() && ex[oth(g, g.adj[u][j], u)] ==> !R.contains(#[trigger] g.adj[u][j]))
  && cyc_ok(g, ex, out)
  && out.no_duplicates() && (forall|i: int| 0 <= i < out.len() ==> vid(g, #[trigger] out[i]) && !ex[out[i]])
  && (acyclic(g) ==> out.len() == 0) }
// while the degrees are initialised: the vertices below v are done
#[verifier::opaque]
pub open spec fn ini(g: G, ex: Seq<bool>, dg: Seq<int>, q: Seq<int>, v: int) -> bool {
  ex.len() == g.n && dg.len() == g.n && (forall|x: int| 0 <= x < v ==> #[trigger] ex[x]) && (forall|x: int| 0 <= x < v ==> #[trigger] dg[x] == g.adj[x].len())
  && q.no_duplicates() && (forall|i: int| 0 <= i < q.len() ==> 0 <= #[trigger] q[i] < v && dg[q[i]] <= 1) && (forall|x: int| 0 <= x < v && dg[x] <= 1 ==> #[trigger] q.contains(x)) }
proof fn l_front(q: Seq<int>, w: int) ensures (seq![w] + q).len() == q.len() + 1, (seq![w] + q)[0] == w, forall|i: int| 0 <= i < q.len() ==> (seq![w] + q)[i + 1] == #[trigger] q[i], forall|x: int| #[trigger] q.contains(x) ==> (seq![w] + q).contains(x), (seq![w] + q).contains(w)
{ let p = seq![w] + q; assert(p[0] == w); assert forall|x: int| #[trigger] q.contains(x) implies p.contains(x) by { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(p[i + 1] == x); } }
proof fn l_ini0(g: G, ex: Seq<bool>, dg: Seq<int>) requires ex.len() == g.n, dg.len() == g.n ensures ini(g, ex, dg, Seq::empty(), 0) { reveal(ini); }
proof fn l_ini_step(g: G, ex: Seq<bool>, dg: Seq<int>, q: Seq<int>, v: int, ex2: Seq<bool>, dg2: Seq<int>, q2: Seq<int>)
  requires ini(g, ex, dg, q, v), vid(g, v), ex2 =~= ex.update(v, true), dg2 =~= dg.update(v, g.adj[v].len() as int), q2 =~= (if g.adj[v].len() <= 1 { seq![v] + q } else { q })
  ensures ini(g, ex2, dg2, q2, v + 1)
{ reveal(ini); l_front(q, v);
  assert forall|i: int, j: int| 0 <= i < j < q2.len() implies q2[i] != q2[j] by { if g.adj[v].len() <= 1 { if i == 0 { assert(q2[j] == q[j - 1]); assert(0 <= q[j - 1] < v); } else { assert(q2[i] == q[i - 1] && q2[j] == q[j - 1]); } } }
  assert forall|i: int| 0 <= i < q2.len() implies 0 <= #[trigger] q2[i] < v + 1 && dg2[q2[i]] <= 1 by { if g.adj[v].len() <= 1 { if i > 0 { assert(q2[i] == q[i - 1]); assert(0 <= q[i - 1] < v); } } else { assert(q2[i] == q[i]); } }
  assert forall|x: int| 0 <= x < v + 1 && dg2[x] <= 1 implies #[trigger] q2.contains(x) by { if x < v { assert(dg[x] == dg2[x]); assert(q.contains(x)); } }
  assert forall|x: int| 0 <= x < v + 1 implies #[trigger] ex2[x] by { if x < v { assert(ex[x]); } }
  assert forall|x: int| 0 <= x < v + 1 implies #[trigger] dg2[x] == g.adj[x].len() by { if x < v { assert(dg[x] == g.adj[x].len()); } } }
proof fn l_ini_done(g: G, ex: Seq<bool>, dg: Seq<int>, q: Seq<int>) requires wf(g), ini(g, ex, dg, q, g.n) ensures st(g, ex, dg, Set::empty(), q, Seq::empty(), -1, 0)
{ reveal(ini); reveal(st); let R = Set::<int>::empty();
  assert forall|x: int| 0 <= x < g.n implies #[trigger] vid(g, x) && ex[x] && dg[x] == g.adj[x].len() by { assert(ex[x]); assert(dg[x] == g.adj[x].len()); }
  assert forall|w: int| #[trigger] vid(g, w) && ex[w] implies dg[w] == cr(g.adj[w], R) by { l_cr0(g.adj[w]); }
  assert forall|i: int| 0 <= i < q.len() implies #[trigger] qent(g, ex, dg, q, i) by { assert(0 <= q[i] < g.n); assert(ex[q[i]]); }
  assert forall|i: int, j: int| 0 <= i < j < q.len() implies #[trigger] qdup(g, ex, q, i, j) by { assert(q[i] != q[j]); }
  assert forall|vs: Seq<int>, es: Seq<int>| #[trigger] cyc(g, vs, es) implies all_ex(ex, vs) by { l_cyc_v(g, vs, es); } }
proof fn l_cyc_v(g: G, vs: Seq<int>, es: Seq<int>) requires wf(g), cyc(g, vs, es) ensures forall|i: int| 0 <= i < vs.len() ==> vid(g, #[trigger] vs[i])
{ assert forall|i: int| 0 <= i < vs.len() implies vid(g, #[trigger] vs[i]) by { assert(joins(g, es[i], vs[i], vs[nx(i, vs.len() as int)])); assert(eid(g, es[i])); } }
// a vertex on a cycle of existing vertices has two edges that are not taken away
proof fn l_cyc_deg(g: G, ex: Seq<bool>, R: Set<int>, vs: Seq<int>, es: Seq<int>, m: int)
  requires wf(g), no_loops(g), cyc(g, vs, es), all_ex(ex, vs), 0 <= m < vs.len(), forall|e: int| #[trigger] R.contains(e) ==> eid(g, e) && (!ex[g.ends[e].0] || !ex[g.ends[e].1])
  ensures cr(g.adj[vs[m]], R) >= 2
{ l_cyc_v(g, vs, es); let n = vs.len() as int; let v = vs[m]; let p = l_nx(m, n); assert(vid(g, v)); l_adj(g, v);
  assert(joins(g, es[m], vs[m], vs[nx(m, n)])); assert(joins(g, es[p], vs[p], vs[nx(p, n)])); let z = nx(m, n); assert(0 <= z < n);
  assert(ex[vs[m]] && ex[vs[z]] && ex[vs[p]]); assert(eid(g, es[m]));
  assert(n >= 2) by { if n == 1 { assert(g.ends[es[m]].0 == g.ends[es[m]].1); } }
  assert(es[m] != es[p]); assert(!R.contains(es[m]) && !R.contains(es[p]));
  assert(inc(g, es[m], v) && inc(g, es[p], v)); assert(g.adj[v].contains(es[m]) && g.adj[v].contains(es[p]));
  let i = choose|i: int| 0 <= i < g.adj[v].len() && g.adj[v][i] == es[m]; let j = choose|j: int| 0 <= j < g.adj[v].len() && g.adj[v][j] == es[p];
  if i < j { l_cr2(g.adj[v], R, i, j); } else { l_cr2(g.adj[v], R, j, i); } }
// taking a vertex away keeps every clause but those about the cycles and the output
proof fn l_cyc_rm(g: G, ex: Seq<bool>, out: Seq<int>, v: int, o2: Seq<int>) requires wf(g), cyc_ok(g, ex, out), vid(g, v), ex.len() == g.n,
    (forall|x: int| out.contains(x) ==> o2.contains(x)), o2.contains(v) || !ex[v] || forall|vs: Seq<int>, es: Seq<int>| #[trigger] cyc(g, vs, es) && all_ex(ex, vs) ==> !vs.contains(v)
  ensures cyc_ok(g, ex.update(v, false), o2)
{ let e2 = ex.update(v, false);
  assert forall|vs: Seq<int>, es: Seq<int>| #[trigger] cyc(g, vs, es) implies hits(vs, o2) || all_ex(e2, vs) by { l_cyc_v(g, vs, es);
    if hits(vs, out) { let i = choose|i: int| 0 <= i < vs.len() && out.contains(#[trigger] vs[i]); assert(o2.contains(vs[i])); }
    else if !all_ex(e2, vs) { assert(all_ex(ex, vs)); let i = choose|i: int| 0 <= i < vs.len() && !e2[#[trigger] vs[i]]; assert(ex[vs[i]]); assert(vs[i] == v); assert(vs.contains(v)); assert(o2.contains(vs[i])); } } }
proof fn l_pop(g: G, ex: Seq<bool>, dg: Seq<int>, R: Set<int>, q: Seq<int>, out: Seq<int>)
  requires wf(g), no_loops(g), st(g, ex, dg, R, q, out, -1, 0), q.len() > 0
  ensures vid(g, q[0]), st(g, ex.update(q[0], false), dg, R, q.drop_first(), out, q[0], 0)
{ reveal(st); let u = q[0]; let e2 = ex.update(u, false); let q2 = q.drop_first(); assert(qent(g, ex, dg, q, 0)); l_adj(g, u);
  assert forall|x: int| vid(g, x) && nonbr(g, ex, x) implies #[trigger] nonbr(g, e2, x) by { l_adj(g, x); assert forall|j: int| 0 <= j < g.adj[x].len() implies !e2[oth(g, #[trigger] g.adj[x][j], x)] by { assert(vid(g, oth(g, g.adj[x][j], x))); } }
  assert forall|e: int| #[trigger] R.contains(e) implies eid(g, e) && (!e2[g.ends[e].0] || !e2[g.ends[e].1]) by { }
  assert forall|v: int, j: int| vid(g, v) && !e2[v] && 0 <= j < g.adj[v].len() && !(v == u && j >= 0) implies R.contains(#[trigger] g.adj[v][j]) by { assert(v != u); assert(!ex[v]); }
  assert forall|i: int| 0 <= i < q2.len() implies #[trigger] qent(g, e2, dg, q2, i) by { assert(qent(g, ex, dg, q, i + 1)); assert(q2[i] == q[i + 1]); assert(qdup(g, ex, q, 0, i + 1)); if q2[i] == u { assert(nonbr(g, ex, u)); } if !e2[q2[i]] { assert(nonbr(g, ex, q2[i])); assert(nonbr(g, e2, q2[i])); } }
  assert forall|i: int, j: int| 0 <= i < j < q2.len() implies #[trigger] qdup(g, e2, q2, i, j) by { assert(qdup(g, ex, q, i + 1, j + 1)); assert(qent(g, ex, dg, q, i + 1)); if q2[i] == q2[j] { assert(nonbr(g, ex, q2[i])); } }
  assert forall|x: int| #[trigger] vid(g, x) && e2[x] && dg[x] <= 1 implies q2.contains(x) by { assert(q.contains(x)); let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(i != 0); assert(q2[i - 1] == x); }
  assert forall|j: int| 0 <= j < g.adj[u].len() && e2[oth(g, g.adj[u][j], u)] implies !R.contains(#[trigger] g.adj[u][j]) by { let e = g.adj[u][j]; assert(joins(g, e, u, oth(g, e, u))); assert(vid(g, oth(g, e, u))); if R.contains(e) { if ex[u] { assert(!ex[oth(g, e, u)]); } else { assert(nonbr(g, ex, u)); } } }
  assert forall|vs: Seq<int>, es: Seq<int>| #[trigger] cyc(g, vs, es) && all_ex(ex, vs) && ex[u] implies !vs.contains(u) by { if vs.contains(u) { let m = choose|m: int| 0 <= m < vs.len() && vs[m] == u; l_cyc_deg(g, ex, R, vs, es, m); assert(dg[u] == cr(g.adj[u], R)); } }
  l_cyc_rm(g, ex, out, u, out); }
// the next edge of u leads to a vertex already taken away
proof fn l_dead(g: G, ex: Seq<bool>, dg: Seq<int>, R: Set<int>, q: Seq<int>, out: Seq<int>, u: int, k: int)
  requires wf(g), no_loops(g), st(g, ex, dg, R, q, out, u, k), vid(g, u), 0 <= k < g.adj[u].len(), !ex[oth(g, g.adj[u][k], u)]
  ensures st(g, ex, dg, R.insert(g.adj[u][k]), q, out, u, k + 1)
{ reveal(st); l_adj(g, u); let e = g.adj[u][k]; let R2 = R.insert(e); let w = oth(g, e, u); assert(joins(g, e, u, w) && vid(g, w));
  assert forall|x: int| #[trigger] R2.contains(x) implies eid(g, x) && (!ex[g.ends[x].0] || !ex[g.ends[x].1]) by { if x != e { assert(R.contains(x)); } }
  assert forall|v: int, j: int| vid(g, v) && !ex[v] && 0 <= j < g.adj[v].len() && !(v == u && j >= k + 1) implies R2.contains(#[trigger] g.adj[v][j]) by { if v == u && j == k {} else { assert(R.contains(g.adj[v][j])); } }
  assert forall|x: int| #[trigger] vid(g, x) && ex[x] implies dg[x] == cr(g.adj[x], R2) by { if R.contains(e) { assert(R2 =~= R); } else { l_cr_ins(g.adj[x], R, e); l_adj(g, x); l_occ(g.adj[x], e); if occ(g.adj[x], e) > 0 { let i = choose|i: int| 0 <= i < g.adj[x].len() && g.adj[x][i] == e; assert(inc(g, g.adj[x][i], x)); } } }
  assert forall|j: int| k + 1 <= j < g.adj[u].len() && ex[oth(g, g.adj[u][j], u)] implies !R2.contains(#[trigger] g.adj[u][j]) by { assert(!R.contains(g.adj[u][j])); if g.adj[u][j] == e { assert(oth(g, g.adj[u][j], u) == w); } } }
proof fn l_adj_len(g: G, w: int) requires wf(g), no_loops(g), vid(g, w) ensures g.adj[w].len() <= g.ends.len()
{ l_adj(g, w); assert forall|i: int, j: int| 0 <= i < j < g.adj[w].len() implies g.adj[w][i] != g.adj[w][j] by { assert(eid(g, g.adj[w][i]) && eid(g, g.adj[w][j])) by { assert(inc(g, g.adj[w][i], w) && inc(g, g.adj[w][j], w)); } } assert forall|i: int| 0 <= i < g.adj[w].len() implies 0 <= #[trigger] g.adj[w][i] < g.ends.len() by { assert(inc(g, g.adj[w][i], w)); } l_bounded(g.adj[w], g.ends.len() as int); }
// the next edge of u leads to an existing vertex: it is taken away, the degree drops
proof fn l_live(g: G, ex: Seq<bool>, dg: Seq<int>, R: Set<int>, q: Seq<int>, out: Seq<int>, u: int, k: int)
  requires wf(g), no_loops(g), st(g, ex, dg, R, q, out, u, k), vid(g, u), 0 <= k < g.adj[u].len(), ex[oth(g, g.adj[u][k], u)]
  ensures ({ let w = oth(g, g.adj[u][k], u); vid(g, w) && 1 <= dg[w] <= g.ends.len() && st(g, ex, dg.update(w, dg[w] - 1), R.insert(g.adj[u][k]), if dg[w] - 1 <= 1 { seq![w] + q } else { q }, out, u, k + 1) })
{ reveal(st); l_adj(g, u); let e = g.adj[u][k]; let R2 = R.insert(e); let w = oth(g, e, u); assert(joins(g, e, u, w) && vid(g, w)); assert(eid(g, e)); assert(u != w); assert(!R.contains(e));
  let d2 = dg.update(w, dg[w] - 1); let q2 = if dg[w] - 1 <= 1 { seq![w] + q } else { q }; l_front(q, w); l_adj(g, w); l_adj_len(g, w);
  assert(wf_adj(g, w)); assert(occ(g.adj[w], e) == 1); l_cr_ins(g.adj[w], R, e); l_cr_nn(g.adj[w], R2); l_cr_nn(g.adj[w], R); assert(dg[w] == cr(g.adj[w], R));
  assert forall|x: int| #[trigger] R2.contains(x) implies eid(g, x) && (!ex[g.ends[x].0] || !ex[g.ends[x].1]) by { if x != e { assert(R.contains(x)); } }
  assert forall|v: int, j: int| vid(g, v) && !ex[v] && 0 <= j < g.adj[v].len() && !(v == u && j >= k + 1) implies R2.contains(#[trigger] g.adj[v][j]) by { if v == u && j == k {} else { assert(R.contains(g.adj[v][j])); } }
  assert forall|x: int| #[trigger] vid(g, x) && ex[x] implies d2[x] == cr(g.adj[x], R2) by { l_cr_ins(g.adj[x], R, e); l_occ(g.adj[x], e); if x != w && occ(g.adj[x], e) > 0 { l_adj(g, x); let i = choose|i: int| 0 <= i < g.adj[x].len() && g.adj[x][i] == e; assert(inc(g, g.adj[x][i], x)); } }
  if d2[w] == 0 { assert forall|j: int| 0 <= j < g.adj[w].len() implies !ex[oth(g, #[trigger] g.adj[w][j], w)] by { let x = g.adj[w][j]; assert(R2.contains(x)); assert(joins(g, x, w, oth(g, x, w))); } assert(nonbr(g, ex, w)); }
  assert forall|i: int| 0 <= i < q2.len() implies #[trigger] qent(g, ex, d2, q2, i) by { if dg[w] - 1 <= 1 { if i > 0 { assert(q2[i] == q[i - 1]); assert(qent(g, ex, dg, q, i - 1)); } } else { assert(qent(g, ex, dg, q, i)); } }
  assert forall|i: int, j: int| 0 <= i < j < q2.len() implies #[trigger] qdup(g, ex, q2, i, j) by { if dg[w] - 1 <= 1 { assert(q2[j] == q[j - 1]); if i > 0 { assert(q2[i] == q[i - 1]); assert(qdup(g, ex, q, i - 1, j - 1)); } else if q2[j] == w { assert(qent(g, ex, dg, q, j - 1)); assert(dg[w] <= 1); assert(d2[w] == 0); } } else { assert(qdup(g, ex, q, i, j)); } }
  assert forall|x: int| #[trigger] vid(g, x) && ex[x] && d2[x] <= 1 implies q2.contains(x) by { if x != w { assert(q.contains(x)); } }
  assert forall|j: int| k + 1 <= j < g.adj[u].len() && ex[oth(g, g.adj[u][j], u)] implies !R2.contains(#[trigger] g.adj[u][j]) by { assert(!R.contains(g.adj[u][j])); if g.adj[u][j] == e { assert(g.adj[u][k] == g.adj[u][j]); } } }
proof fn l_scanned(g: G, ex: Seq<bool>, dg: Seq<int>, R: Set<int>, q: Seq<int>, out: Seq<int>, u: int)
  requires st(g, ex, dg, R, q, out, u, g.adj[u].len() as int) ensures st(g, ex, dg, R, q, out, -1, 0) { reveal(st); }
proof fn l_emit(g: G, ex: Seq<bool>, dg: Seq<int>, R: Set<int>, out: Seq<int>, v: int)
  requires wf(g), no_loops(g), st(g, ex, dg, R, Seq::empty(), out, -1, 0), vid(g, v), ex[v]
  ensures st(g, ex.update(v, false), dg, R, Seq::empty(), out.push(v), v, 0)
{ reveal(st); let e2 = ex.update(v, false); let o2 = out.push(v); l_adj(g, v); let q = Seq::<int>::empty();
  assert forall|x: int| #[trigger] out.contains(x) implies o2.contains(x) by { let i = choose|i: int| 0 <= i < out.len() && out[i] == x; assert(o2[i] == x); }
  assert(o2[out.len() as int] == v);
  assert forall|w: int| #[trigger] vid(g, w) && ex[w] implies dg[w] >= 2 by { assert(!q.contains(w)); }
  l_cyc_rm(g, ex, out, v, o2);
  assert forall|e: int| #[trigger] R.contains(e) implies eid(g, e) && (!e2[g.ends[e].0] || !e2[g.ends[e].1]) by { }
  assert forall|j: int| 0 <= j < g.adj[v].len() && e2[oth(g, g.adj[v][j], v)] implies !R.contains(#[trigger] g.adj[v][j]) by { let e = g.adj[v][j]; assert(joins(g, e, v, oth(g, e, v))); assert(vid(g, oth(g, e, v))); }
  assert forall|i: int| 0 <= i < o2.len() implies vid(g, #[trigger] o2[i]) && !e2[o2[i]] by { if i < out.len() { assert(o2[i] == out[i]); } }
  assert forall|i: int, j: int| 0 <= i < j < o2.len() implies o2[i] != o2[j] by { if j == out.len() { assert(!ex[out[i]]); } }
  if acyclic(g) { l_core(g, ex, dg, R, v); } }
// existing vertices all have two edges to existing vertices: there is a cycle
pub open spec fn two(g: G, ex: Seq<bool>, v: int, i: int, j: int) -> bool { 0 <= i < j < g.adj[v].len() && g.adj[v][i] != g.adj[v][j] && ex[oth(g, g.adj[v][i], v)] && ex[oth(g, g.adj[v][j], v)] }
pub open spec fn core(g: G, ex: Seq<bool>) -> bool { forall|v: int| #[trigger] vid(g, v) && ex[v] ==> exists|i: int, j: int| #[trigger] two(g, ex, v, i, j) }
pub open spec fn epath(g: G, ex: Seq<bool>, p: Seq<int>, es: Seq<int>) -> bool { p.len() >= 1 && es.len() == p.len() - 1 && p.no_duplicates() && (forall|i: int| 0 <= i < p.len() ==> vid(g, #[trigger] p[i]) && ex[p[i]]) && forall|i: int| 0 <= i < es.len() ==> joins(g, #[trigger] es[i], p[i], p[i + 1]) }
proof fn l_grow(g: G, ex: Seq<bool>, p: Seq<int>, es: Seq<int>) requires wf(g), no_loops(g), ex.len() == g.n, core(g, ex), epath(g, ex, p, es) ensures !acyclic(g) decreases g.n - p.len()
{ l_bounded(p, g.n); let v = p.last(); assert(vid(g, p[p.len() - 1]) && ex[p[p.len() - 1]]); assert(vid(g, v) && ex[v]); l_adj(g, v);
  let (i, j) = choose|i: int, j: int| #[trigger] two(g, ex, v, i, j);
  let e = if es.len() > 0 && g.adj[v][i] == es.last() { g.adj[v][j] } else { g.adj[v][i] }; let w = oth(g, e, v);
  assert(joins(g, g.adj[v][i], v, oth(g, g.adj[v][i], v)) && joins(g, g.adj[v][j], v, oth(g, g.adj[v][j], v)));
  assert(joins(g, e, v, w) && vid(g, w) && ex[w]); assert(eid(g, e)); assert(w != v);
  if p.contains(w) {
    let a = choose|a: int| 0 <= a < p.len() && p[a] == w; let n = p.len() as int; let vs = p.subrange(a, n); let fs = es.subrange(a, n - 1).push(e); let k = vs.len() as int;
    assert(a < n - 1); assert(vs.no_duplicates());
    assert forall|i: int| 0 <= i < k implies joins(g, #[trigger] fs[i], vs[i], vs[nx(i, k)]) by { if i < k - 1 { assert(fs[i] == es[a + i]); assert(vs[i] == p[a + i] && vs[i + 1] == p[a + i + 1]); } else { assert(vs[i] == v && vs[0] == w); } }
    assert forall|x: int, y: int| 0 <= x < y < k implies fs[x] != fs[y] by { assert(joins(g, fs[x], vs[x], vs[nx(x, k)]) && joins(g, fs[y], vs[y], vs[nx(y, k)])); let nx_ = nx(x, k); let ny = nx(y, k); assert(vs[x] != vs[y]); if fs[x] == fs[y] { assert(vs[x] == vs[ny] && vs[y] == vs[nx_]); assert(x == ny && y == nx_); assert(k == 2); assert(fs[0] == es[n - 2]); } }
    assert(cyc(g, vs, fs));
  } else {
    let p2 = p.push(w); let e2 = es.push(e);
    assert forall|i: int, j: int| 0 <= i < j < p2.len() implies p2[i] != p2[j] by { if j == p.len() { assert(p.contains(p[i])); } }
    assert forall|i: int| 0 <= i < p2.len() implies vid(g, #[trigger] p2[i]) && ex[p2[i]] by { if i < p.len() { assert(p2[i] == p[i]); } }
    assert forall|i: int| 0 <= i < e2.len() implies joins(g, #[trigger] e2[i], p2[i], p2[i + 1]) by { if i < es.len() { assert(e2[i] == es[i]); assert(p2[i] == p[i] && p2[i + 1] == p[i + 1]); } }
    l_bounded(p2, g.n); l_grow(g, ex, p2, e2); } }
proof fn l_core(g: G, ex: Seq<bool>, dg: Seq<int>, R: Set<int>, v: int)
  requires wf(g), no_loops(g), vid(g, v), ex[v], ex.len() == g.n, (forall|w: int| #[trigger] vid(g, w) && ex[w] ==> dg[w] >= 2), (forall|w: int| #[trigger] vid(g, w) && ex[w] ==> dg[w] == cr(g.adj[w], R)),
    forall|v: int, j: int| vid(g, v) && !ex[v] && 0 <= j < g.adj[v].len() ==> R.contains(#[trigger] g.adj[v][j])
  ensures !acyclic(g)
{ assert forall|x: int| #[trigger] vid(g, x) && ex[x] implies exists|i: int, j: int| #[trigger] two(g, ex, x, i, j) by { let (i, j) = l_cr_get2(g.adj[x], R); l_adj(g, x); l_core1(g, ex, R, x, i); l_core1(g, ex, R, x, j); if g.adj[x][i] == g.adj[x][j] { assert(eid(g, g.adj[x][i])); } assert(two(g, ex, x, i, j)); }
  let p = seq![v]; let es = Seq::<int>::empty(); assert(epath(g, ex, p, es)); l_grow(g, ex, p, es); }
proof fn l_core1(g: G, ex: Seq<bool>, R: Set<int>, x: int, i: int) requires wf(g), vid(g, x), 0 <= i < g.adj[x].len(), !R.contains(g.adj[x][i]), forall|v: int, j: int| vid(g, v) && !ex[v] && 0 <= j < g.adj[v].len() ==> R.contains(#[trigger] g.adj[v][j])
  ensures ex[oth(g, g.adj[x][i], x)], eid(g, g.adj[x][i])
{ l_adj(g, x); let e = g.adj[x][i]; let w = oth(g, e, x); assert(joins(g, e, x, w) && vid(g, w)); l_adj(g, w); assert(inc(g, e, w)); assert(g.adj[w].contains(e)); let j = choose|j: int| 0 <= j < g.adj[w].len() && g.adj[w][j] == e; }
pub open spec fn fvs_post(g: G, out: Seq<int>) -> bool { out.no_duplicates() && (forall|i: int| 0 <= i < out.len() ==> vid(g, #[trigger] out[i])) && acyclic_wo(g, out) && (acyclic(g) ==> out.len() == 0) }
proof fn l_done(g: G, ex: Seq<bool>, dg: Seq<int>, R: Set<int>, q: Seq<int>, out: Seq<int>) requires wf(g), st(g, ex, dg, R, q, out, -1, 0), forall|x: int| vid(g, x) ==> !ex[x] ensures fvs_post(g, out)
{ reveal(st); assert forall|vs: Seq<int>, es: Seq<int>| #[trigger] cyc(g, vs, es) implies exists|i: int| 0 <= i < vs.len() && out.contains(#[trigger] vs[i]) by { l_cyc_v(g, vs, es); if all_ex(ex, vs) { assert(vid(g, vs[0])); assert(ex[vs[0]]); } assert(hits(vs, out)); } }
// every existing vertex below k is in the heap, under its handle
#[verifier::opaque]
pub open spec fn hp(g: G, ex: Seq<bool>, heap: Set<int>, hd: Seq<int>, k: int) -> bool { hd.len() == g.n && (forall|x: int| #[trigger] heap.contains(x) ==> vid(g, x) && x < k && hd[x] == x) && forall|x: int| 0 <= x < k && ex[x] ==> #[trigger] heap.contains(x) }
proof fn l_hp0(g: G, ex: Seq<bool>, hd: Seq<int>) requires hd.len() == g.n ensures hp(g, ex, Set::empty(), hd, 0) { reveal(hp); }
proof fn l_hp_step(g: G, ex: Seq<bool>, h: Set<int>, hd: Seq<int>, k: int, h2: Set<int>, hd2: Seq<int>) requires hp(g, ex, h, hd, k), vid(g, k), (ex[k] && h2 =~= h.insert(k) && hd2 =~= hd.update(k, k)) || (!ex[k] && h2 =~= h && hd2 =~= hd) ensures hp(g, ex, h2, hd2, k + 1) { reveal(hp); }
proof fn l_hp_new(g: G, ex: Seq<bool>, h: Set<int>, hd: Seq<int>, k: int) requires hp(g, ex, h, hd, k) ensures !h.contains(k), hd.len() == g.n { reveal(hp); }
proof fn l_hp_has(g: G, ex: Seq<bool>, h: Set<int>, hd: Seq<int>, w: int) requires hp(g, ex, h, hd, g.n), vid(g, w), ex[w] ensures h.contains(hd[w]), hd.len() == g.n { reveal(hp); assert(h.contains(w)); }
proof fn l_hp_pop(g: G, ex: Seq<bool>, h: Set<int>, hd: Seq<int>, v: int, x2: Seq<bool>) requires hp(g, ex, h, hd, g.n), h.contains(v), ex.len() == g.n ensures vid(g, v), x2 =~= ex.update(v, false) ==> hp(g, x2, h.remove(v), hd, g.n) { reveal(hp); }
proof fn l_hp_rm(g: G, ex: Seq<bool>, h: Set<int>, hd: Seq<int>, v: int, x2: Seq<bool>) requires hp(g, ex, h, hd, g.n), vid(g, v), ex.len() == g.n, x2 =~= ex.update(v, false) ensures hp(g, x2, h, hd, g.n) { reveal(hp); }
proof fn l_len(g: G, ex: Seq<bool>, dg: Seq<int>, R: Set<int>, q: Seq<int>, out: Seq<int>, u: int, k: int) requires st(g, ex, dg, R, q, out, u, k) ensures ex.len() == g.n, dg.len() == g.n { reveal(st); }
proof fn l_hp_none(g: G, ex: Seq<bool>, h: Set<int>, hd: Seq<int>) requires hp(g, ex, h, hd, g.n), h.len() == 0 ensures forall|x: int| vid(g, x) ==> !ex[x] { reveal(hp); assert(h =~= Set::<int>::empty()); assert forall|x: int| vid(g, x) implies !ex[x] by { if ex[x] { assert(h.contains(x)); } } }
'''
A = "exists_, degree, R, forRemoval, out"
LEN = ["exists_.len() == g.n", "degree.len() == g.n"]
HP = ["hp(g, exists_, heap, handle, g.n)"]


def outer(hp):
    return dict(inv=["st(g, %s, -1, 0)" % A] + LEN + (HP if hp else []),
        begin="let x0 = exists_; l_pop(g, %s);" % A, gbegin="let ghost x0 = exists_;")


def inner(u, hp):
    E = "g.adj[%s][e0]" % u
    return dict(inv=["st(g, %s, %s, ei)" % (A, u), "vid(g, %s)" % u, "0 <= ei <= ei_c.len()", "ei_c == g_out(g, %s)" % u, "eiRange_second == ei_c.len()"] + LEN + (HP if hp else []),
        before=("l_hp_rm(g, x0, heap, handle, %s, exists_);" % u if hp == 1 else ""),
        begin="assert(ei_c[ei] == out_edge(g, %s, ei)); l_adj(g, %s); assert(vid(g, oth(g, g.adj[%s][ei], %s))); if exists_[oth(g, g.adj[%s][ei], %s)] { l_live(g, %s, %s, ei); %s }" % (u, u, u, u, u, u, A, u, "l_hp_has(g, exists_, heap, handle, oth(g, g.adj[%s][ei], %s));" % (u, u) if hp else ""),
        gbegin="let ghost e0 = ei; let ghost d0 = degree; let ghost q0 = forRemoval;",
        end="let w9 = oth(g, %s, %s); if exists_[w9] { l_live(g, exists_, d0, R, q0, out, %s, e0); assert(degree =~= d0.update(w9, d0[w9] - 1)); assert(forRemoval =~= if d0[w9] - 1 <= 1 { seq![w9] + q0 } else { q0 }); } else { l_dead(g, exists_, d0, R, q0, out, %s, e0); assert(degree =~= d0); assert(forRemoval =~= q0); } R = R.insert(%s);" % (E, u, u, u, E),
        after="l_scanned(g, %s, %s);" % (A, u))


FUNCS = [dict(name="greedy_fvs", find="parmcb::greedy_fvs", nloops=8, requires=["wf(g)", "no_loops(g)"],
  ensures=["fvs_post(g, out)"],
  ghost="let ghost mut R: Set<int> = Set::empty();",
  loops={
   0: dict(before="assert(forRemoval =~= Seq::empty()); l_ini0(g, exists_, degree);", inv=["ini(g, exists_, degree, forRemoval, vi)", "0 <= vi <= g.n", "viend == g.n"] + LEN,
       gbegin="let ghost x0 = exists_; let ghost d0 = degree; let ghost q0 = forRemoval; let ghost v0 = vi;", begin="assert(vid(g, vi));",
       end="l_ini_step(g, x0, d0, q0, v0, exists_, degree, forRemoval);", after="l_ini_done(g, exists_, degree, forRemoval); assert(out =~= Seq::empty());"),
   1: outer(False), 2: inner("u", 0),
   3: dict(before="l_hp0(g, exists_, handle);", inv=["hp(g, exists_, heap, handle, vi)", "0 <= vi <= g.n", "viend == g.n"] + LEN, begin="assert(vid(g, vi)); l_hp_new(g, exists_, heap, handle, vi);",
       gbegin="let ghost h0 = heap; let ghost hd0 = handle; let ghost v0 = vi;", end="l_hp_step(g, exists_, h0, hd0, v0, heap, handle);"),
   4: dict(inv=["st(g, %s, -1, 0)" % A, "forRemoval.len() == 0"] + LEN + HP,
       begin="ax_heap_top(heap); l_hp_pop(g, exists_, heap, handle, heap_top(heap), exists_.update(heap_top(heap), false)); if !exists_[heap_top(heap)] { assert(exists_.update(heap_top(heap), false) =~= exists_); }",
       gbegin="let ghost x4 = exists_; let ghost h4 = heap; let ghost o4 = out;",
       after="l_hp_none(g, exists_, heap, handle); l_done(g, %s);" % A),
   5: inner("v", 2), 6: outer(True), 7: inner("u", 1)})]
FUNCS[0]["loops"][1]["begin"] = FUNCS[0]["loops"][6]["begin"] = "l_pop(g, %s);" % A
FUNCS[0]["loops"][5]["before"] = "assert(forRemoval =~= Seq::empty()); assert(out =~= o4.push(v)); l_emit(g, x4, degree, R, o4, v); l_hp_pop(g, x4, h4, handle, v, exists_); assert(exists_ =~= x4.update(v, false));"
