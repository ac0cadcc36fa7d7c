"""spanning_forest and ForestIndex (C16)"""
from trg import TrG as TR
INST = "inst_graph.cpp"
PRELUDES = ["graph.rs"]
F = "spanning_forest_edges"
LEMMAS = r'''
pub open spec fn rch(g: G, un: Set<int>, v: int) -> bool { vid(g, v) && !un.contains(v) }
// the partial construction is consistent on the reached vertices; un: the vertices still unreached
#[verifier::opaque]
pub open spec fn part(g: G, un: Set<int>, f: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>) -> bool {
  lab.len() == g.n && tm.len() == g.n && (forall|x: int| #[trigger] un.contains(x) ==> vid(g, x))
  && (forall|v: int| #[trigger] rch(g, un, v) ==> sfw_v(g, f, lab, tm, rt, v))
  && (forall|i: int| 0 <= i < f.len() ==> sfw_e(g, f, lab, tm, i) && (#[trigger] f[i]).id >= 0 && rch(g, un, f[i].s) && rch(g, un, f[i].t))
  && (forall|c: int| 0 <= c < rt.len() ==> rch(g, un, #[trigger] rt[c]) && lab[rt[c]] == c)
  && f.len() + rt.len() == g.n - un.len() }
pub open spec fn nb(g: G, un: Set<int>, lab: Seq<int>, v: int, j: int) -> bool { let w = oth(g, g.adj[v][j], v); rch(g, un, w) && lab[w] == lab[v] }
// all the neighbours of v are reached and in the component of v
pub open spec fn done(g: G, un: Set<int>, lab: Seq<int>, v: int) -> bool { forall|j: int| 0 <= j < g.adj[v].len() ==> #[trigger] nb(g, un, lab, v, j) }
#[verifier::opaque]
pub open spec fn scan(g: G, un: Set<int>, lab: Seq<int>, v: int, k: int) -> bool { forall|j: int| 0 <= j < k ==> #[trigger] nb(g, un, lab, v, j) }
// the queue holds reached vertices of component c; every reached vertex is done, waiting in the queue, or u (the one being scanned, in component c)
#[verifier::opaque]
pub open spec fn pend(g: G, un: Set<int>, lab: Seq<int>, q: Seq<int>, c: int, u: int) -> bool {
  (forall|i: int| 0 <= i < q.len() ==> rch(g, un, #[trigger] q[i]) && lab[q[i]] == c)
  && (u >= 0 ==> rch(g, un, u) && lab[u] == c)
  && (forall|x: int| #[trigger] rch(g, un, x) ==> done(g, un, lab, x) || q.contains(x) || x == u) }
proof fn l_begin(g: G, un: Set<int>, lab: Seq<int>, tm: Seq<int>)
  requires forall|x: int| un.contains(x) <==> 0 <= x < g.n, un.len() == g.n, lab.len() == g.n, tm.len() == g.n
  ensures part(g, un, Seq::empty(), lab, tm, Seq::empty()), pend(g, un, lab, Seq::empty(), 0, -1) { reveal(part); reveal(pend); }
proof fn l_start(g: G, un: Set<int>, f: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>, v: int, c0: int)
  requires part(g, un, f, lab, tm, rt), un.contains(v), pend(g, un, lab, Seq::empty(), c0, -1)
  ensures part(g, un.remove(v), f, lab.update(v, rt.len() as int), tm.update(v, -1), rt.push(v)), vid(g, v),
    pend(g, un.remove(v), lab.update(v, rt.len() as int), seq![v], rt.len() as int, -1)
{ reveal(part); reveal(pend); let u2 = un.remove(v); let l2 = lab.update(v, rt.len() as int); let t2 = tm.update(v, -1); let r2 = rt.push(v); assert(vid(g, v));
  assert forall|x: int| #[trigger] rch(g, u2, x) implies sfw_v(g, f, l2, t2, r2, x) by { if x != v { assert(rch(g, un, x)); } }
  assert forall|i: int| 0 <= i < f.len() implies sfw_e(g, f, l2, t2, i) && (#[trigger] f[i]).id >= 0 && rch(g, u2, f[i].s) && rch(g, u2, f[i].t) by { assert(f[i].id >= 0); }
  assert forall|c: int| 0 <= c < r2.len() implies rch(g, u2, #[trigger] r2[c]) && l2[r2[c]] == c by { if c < rt.len() { assert(r2[c] == rt[c]); assert(rch(g, un, rt[c])); } }
  let q = seq![v]; assert(q[0] == v); let e = Seq::<int>::empty();
  assert forall|x: int| #[trigger] rch(g, u2, x) implies done(g, u2, l2, x) || q.contains(x) by { if x != v { assert(rch(g, un, x)); assert(!e.contains(x)); assert(done(g, un, lab, x)); assert forall|j: int| 0 <= j < g.adj[x].len() implies #[trigger] nb(g, u2, l2, x, j) by { assert(nb(g, un, lab, x, j)); } } } }
proof fn l_pop(g: G, un: Set<int>, lab: Seq<int>, q: Seq<int>, c: int)
  requires pend(g, un, lab, q, c, -1), q.len() > 0
  ensures pend(g, un, lab, q.drop_first(), c, q[0]), scan(g, un, lab, q[0], 0), vid(g, q[0])
{ reveal(pend); reveal(scan); assert(rch(g, un, q[0])); let r = q.drop_first();
  assert forall|x: int| #[trigger] rch(g, un, x) implies done(g, un, lab, x) || r.contains(x) || x == q[0] by { if q.contains(x) && x != q[0] { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(r[i - 1] == x); } } }
// an edge that leads to a reached vertex
proof fn l_skip(g: G, un: Set<int>, f: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>, q: Seq<int>, c: int, u: int, j: int)
  requires wf(g), part(g, un, f, lab, tm, rt), pend(g, un, lab, q, c, u), scan(g, un, lab, u, j), vid(g, u), 0 <= j < g.adj[u].len(), !un.contains(oth(g, g.adj[u][j], u))
  ensures scan(g, un, lab, u, j + 1)
{ reveal(pend); reveal(scan); l_adj(g, u); let e = g.adj[u][j]; let w = oth(g, e, u); assert(joins(g, e, u, w) && vid(g, w)); assert(rch(g, un, w)); assert(rch(g, un, u));
  if w != u && done(g, un, lab, w) { l_adj(g, w); assert(inc(g, e, w)); assert(g.adj[w].contains(e)); let i = choose|i: int| 0 <= i < g.adj[w].len() && g.adj[w][i] == e; assert(nb(g, un, lab, w, i)); }
  if q.contains(w) { let i = choose|i: int| 0 <= i < q.len() && q[i] == w; assert(rch(g, un, q[i])); }
  assert(nb(g, un, lab, u, j)); }
// an edge that discovers a vertex
proof fn l_disc(g: G, un: Set<int>, f: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>, q: Seq<int>, c: int, u: int, j: int)
  requires wf(g), part(g, un, f, lab, tm, rt), pend(g, un, lab, q, c, u), scan(g, un, lab, u, j), vid(g, u), 0 <= j < g.adj[u].len(), un.contains(oth(g, g.adj[u][j], u))
  ensures ({ let e = out_edge(g, u, j); let u2 = un.remove(e.t); let l2 = lab.update(e.t, c);
    part(g, u2, f.push(e), l2, tm.update(e.t, f.len() as int), rt) && pend(g, u2, l2, q.push(e.t), c, u) && scan(g, u2, l2, u, j + 1) })
{ reveal(part); reveal(pend); reveal(scan); l_adj(g, u); let e = out_edge(g, u, j); let v = e.t; let u2 = un.remove(v); let l2 = lab.update(v, c); let t2 = tm.update(v, f.len() as int); let f2 = f.push(e);
  assert(joins(g, e.id, u, v)); assert(edge_ok(g, e)); assert(vid(g, v)); assert(rch(g, un, u)); assert(sfw_v(g, f, lab, tm, rt, e.s));
  assert forall|x: int| #[trigger] rch(g, u2, x) implies sfw_v(g, f2, l2, t2, rt, x) by { if x != v { assert(rch(g, un, x)); assert(sfw_v(g, f, lab, tm, rt, x)); } }
  assert forall|i: int| 0 <= i < f2.len() implies sfw_e(g, f2, l2, t2, i) && (#[trigger] f2[i]).id >= 0 && rch(g, u2, f2[i].s) && rch(g, u2, f2[i].t) by { if i < f.len() { assert(f2[i] == f[i]); assert(f[i].id >= 0); } else { assert(eid(g, e.id)); } }
  assert forall|d: int| 0 <= d < rt.len() implies rch(g, u2, #[trigger] rt[d]) && l2[rt[d]] == d by { assert(rch(g, un, rt[d])); }
  let p = q.push(v);
  assert forall|i: int| 0 <= i < p.len() implies rch(g, u2, #[trigger] p[i]) && l2[p[i]] == c by { if i < q.len() { assert(p[i] == q[i]); assert(rch(g, un, q[i])); } }
  assert forall|x: int| #[trigger] rch(g, u2, x) implies done(g, u2, l2, x) || p.contains(x) || x == u by {
    if x == v { assert(p[q.len() as int] == v); } else { assert(rch(g, un, x));
      if done(g, un, lab, x) { assert forall|j: int| 0 <= j < g.adj[x].len() implies #[trigger] nb(g, u2, l2, x, j) by { assert(nb(g, un, lab, x, j)); } }
      else if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(p[i] == x); } } }
  assert forall|i: int| 0 <= i < j + 1 implies #[trigger] nb(g, u2, l2, u, i) by { if i < j { assert(nb(g, un, lab, u, i)); } } }
proof fn l_scanned(g: G, un: Set<int>, lab: Seq<int>, q: Seq<int>, c: int, u: int)
  requires pend(g, un, lab, q, c, u), vid(g, u), scan(g, un, lab, u, g.adj[u].len() as int) ensures pend(g, un, lab, q, c, -1)
{ reveal(pend); reveal(scan); assert forall|x: int| #[trigger] rch(g, un, x) implies done(g, un, lab, x) || q.contains(x) by { if x == u { assert(done(g, un, lab, u)); } } }
proof fn l_finish(g: G, un: Set<int>, f: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>, c: int)
  requires wf(g), part(g, un, f, lab, tm, rt), un.len() == 0, pend(g, un, lab, Seq::empty(), c, -1)
  ensures sfw(g, f, lab, tm, rt), f.len() == g.n - rt.len(), rt.len() <= g.n
{ reveal(part); reveal(pend); assert(un =~= Set::<int>::empty()); let q = Seq::<int>::empty();
  assert forall|v: int| #[trigger] vid(g, v) implies sfw_v(g, f, lab, tm, rt, v) by { assert(rch(g, un, v)); }
  assert forall|i: int| 0 <= i < f.len() implies sfw_e(g, f, lab, tm, i) && (#[trigger] f[i]).id >= 0 by {}
  assert forall|c: int| 0 <= c < rt.len() implies vid(g, #[trigger] rt[c]) && lab[rt[c]] == c by { assert(rch(g, un, rt[c])); }
  assert forall|e: int| #[trigger] eid(g, e) implies lab[g.ends[e].0] == lab[g.ends[e].1] by { let v = g.ends[e].0; assert(vid(g, v)); l_adj(g, v); assert(inc(g, e, v)); assert(g.adj[v].contains(e)); let j = choose|j: int| 0 <= j < g.adj[v].len() && g.adj[v][j] == e; assert(rch(g, un, v)); assert(!q.contains(v)); assert(nb(g, un, lab, v, j)); } }
pub open spec fn fw_by(g: G, S: Set<int>, f: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>) -> bool { ids(f) == S && sfw(g, f, lab, tm, rt) }
// S is the set of edges of a forest together with the labelling, times and roots that certify it
#[verifier::opaque]
pub open spec fn fwit(g: G, S: Set<int>) -> bool { exists|f: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>| #[trigger] fw_by(g, S, f, lab, tm, rt) }
pub open spec fn forest_post(g: G, f: Seq<Edge>, r: int) -> bool { sforest(g, ids(f), r) && fwit(g, ids(f)) && distinct_ids(f) && 0 <= r <= g.n && forall|i: int| 0 <= i < f.len() ==> edge_ok(g, #[trigger] f[i]) }
proof fn l_post(g: G, un: Set<int>, f: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>, c: int)
  requires wf(g), part(g, un, f, lab, tm, rt), un.len() == 0, pend(g, un, lab, Seq::empty(), c, -1) ensures forest_post(g, f, rt.len() as int)
{ l_finish(g, un, f, lab, tm, rt, c); l_sf(g, f, lab, tm, rt); reveal(fwit); assert(fw_by(g, ids(f), f, lab, tm, rt)); }
// what one round of the scan does, from snapshots at its beginning
pub open spec fn same_un(a: Set<int>, b: Set<int>) -> bool { a =~= b }
'''
UN = "unreached"
FUNCS = [
 dict(name="spanning_forest", find=r"parmcb::detail::spanning_forest", nloops=4,
  requires=["wf(g)"],
  ensures=["forest_post(g, %s, r)" % F],
  ghost="let ghost mut lab: Seq<int> = Seq::new(g.n as nat, |i: int| 0int); let ghost mut tm: Seq<int> = Seq::new(g.n as nat, |i: int| 0int); let ghost mut rt: Seq<int> = Seq::empty();",
  at_return="if g.n == 0 { assert(lab.len() == 0); assert(%s =~= Seq::empty() && rt =~= Seq::empty()); l_begin(g, Set::empty(), lab, tm); l_post(g, Set::empty(), %s, lab, tm, rt, 0); }" % (F, F),
  loops={
   0: dict(inv=["forall|x: int| #[trigger] unreached.contains(x) <==> 0 <= x < ui", "unreached.len() == ui", "0 <= ui <= g.n", "uiend == g.n"]),
   1: dict(inv=["part(g, unreached, %s, lab, tm, rt)" % F, "rt.len() == c", "queue.len() == 0", "pend(g, unreached, lab, queue, c - 1, -1)", "c >= 0"],
           before="l_begin(g, unreached, lab, tm); assert(queue =~= Seq::empty()); reveal(pend);", gbegin="let ghost un1 = unreached;",
           after="assert(queue =~= Seq::empty()); l_post(g, unreached, %s, lab, tm, rt, c - 1);" % F),
   2: dict(inv=["part(g, unreached, %s, lab, tm, rt)" % F, "rt.len() == c + 1", "pend(g, unreached, lab, queue, c, -1)"],
           before="assert(queue =~= seq![v]); assert(un1.contains(v)); assert(unreached =~= un1.remove(v)); l_start(g, un1, %s, lab, tm, rt, v, c - 1); lab = lab.update(v, c); tm = tm.update(v, -1); rt = rt.push(v);" % F,
           begin="l_pop(g, unreached, lab, queue, c);"),
   3: dict(inv=["part(g, unreached, %s, lab, tm, rt)" % F, "rt.len() == c + 1", "pend(g, unreached, lab, queue, c, u)", "vid(g, u)", "0 <= ei <= ei_c.len()", "ei_c == g_out(g, u)", "eiRange_second == ei_c.len()",
              "scan(g, unreached, lab, u, ei)"],
           begin="assert(ei_c[ei] == out_edge(g, u, ei)); l_adj(g, u);",
           gbegin="let ghost un0 = unreached; let ghost q0 = queue; let ghost f0 = %s; let ghost ei0 = ei;" % F,
           end="if un0.contains(oth(g, g.adj[u][ei0], u)) { l_disc(g, un0, f0, lab, tm, rt, q0, c, u, ei0); let w9 = oth(g, g.adj[u][ei0], u); assert(unreached =~= un0.remove(w9)); assert(queue =~= q0.push(w9)); assert(%s =~= f0.push(out_edge(g, u, ei0))); lab = lab.update(w9, c); tm = tm.update(w9, f0.len() as int); } else { l_skip(g, un0, f0, lab, tm, rt, q0, c, u, ei0); assert(unreached =~= un0); assert(queue =~= q0); assert(%s =~= f0); }" % (F, F),
           after="l_scanned(g, unreached, lab, queue, c, u);")}),
]
FI = r"parmcb::ForestIndex<.*>::"
LEMMAS += r"""
pub open spec fn cnt(f: Set<int>, i: int) -> int decreases i { if i <= 0 { 0 } else { cnt(f, i - 1) + (if f.contains(i - 1) { 1int } else { 0 }) } }
proof fn l_cnt(f: Set<int>, i: int, m: int) requires 0 <= i <= m ensures 0 <= cnt(f, i) <= i, 0 <= cnt(f, m) - cnt(f, i) <= m - i decreases m - i + m
{ if m > 0 { if i < m { l_cnt(f, i, m - 1); } else { l_cnt(f, i - 1, m - 1); } } }
proof fn l_cnt_len(f: Set<int>, m: int) requires 0 <= m, forall|e: int| f.contains(e) ==> 0 <= e < m ensures cnt(f, m) == f.len() decreases m
{ if m == 0 { assert(f =~= Set::empty()); } else { let h = f.remove(m - 1); assert forall|e: int| h.contains(e) implies 0 <= e < m - 1 by {} l_cnt_len(h, m - 1); l_cnt_ext(f, h, m - 1); } }
proof fn l_cnt_ext(f: Set<int>, h: Set<int>, i: int) requires forall|e: int| 0 <= e < i ==> (f.contains(e) <==> h.contains(e)) ensures cnt(f, i) == cnt(h, i) decreases i { if i > 0 { l_cnt_ext(f, h, i - 1); } }
pub open spec fn ipos(f: Set<int>, csd: int, e: int) -> int { if f.contains(e) { csd + cnt(f, e) } else { e - cnt(f, e) } }
pub open spec fn fi_e(g: G, t: ForestIndex, f: Set<int>, csd: int, e: int) -> bool {
  t.index.contains_key(e) && t.index[e] == ipos(f, csd, e) && 0 <= t.index[e] < t.m && t.reverse_index[t.index[e]] == edge_of(g, e) && (f.contains(e) <==> t.index[e] >= csd) }
#[verifier::opaque]
pub open spec fn fipart(g: G, t: ForestIndex, f: Set<int>, csd: int, k: int) -> bool {
  t.m == g.ends.len() && t.reverse_index.len() == t.m && (forall|e: int| t.index.contains_key(e) ==> 0 <= e < k)
  && (forall|e: int| 0 <= e < k ==> #[trigger] fi_e(g, t, f, csd, e)) }
// index: edge ids -> positions, reverse_index: positions -> edges, inverse to each other; non-forest edges first
pub open spec fn fiok_f(g: G, t: ForestIndex, f: Set<int>) -> bool {
  sforest(g, f, t.k) && fwit(g, f) && forall|e: int| #[trigger] eid(g, e) ==> (f.contains(e) <==> t.index[e] >= t.m - t.n + t.k) }
pub open spec fn rev_ok(g: G, t: ForestIndex, i: int) -> bool { eid(g, t.reverse_index[i].id) && edge_ok(g, t.reverse_index[i]) && t.index[t.reverse_index[i].id] == i }
#[verifier::opaque]
pub open spec fn fiok(g: G, t: ForestIndex) -> bool {
  t.n == g.n && t.m == g.ends.len() && 0 <= t.k <= g.n && 0 <= t.m - t.n + t.k <= t.m && ncomp(g, t.k)
  && t.reverse_index.len() == t.m
  && (forall|e: int| #[trigger] t.index.contains_key(e) <==> eid(g, e))
  && (forall|e: int| #[trigger] eid(g, e) ==> 0 <= t.index[e] < t.m && t.reverse_index[t.index[e]].id == e)
  && (forall|i: int| 0 <= i < t.m ==> #[trigger] rev_ok(g, t, i))
  && exists|f: Set<int>| #[trigger] fiok_f(g, t, f) }
proof fn l_fi_bounds(g: G, f: Set<int>, k: int, m: int, n: int)
  requires wf(g), sforest(g, f, k), m == g.ends.len(), n == g.n, 0 <= k <= n
  ensures 0 <= m - n + k <= m, m - n + k == m - f.len(), cnt(f, m) == f.len()
{ assert forall|e: int| f.contains(e) implies 0 <= e < m by { assert(eid(g, e)); } l_cnt_len(f, m); l_cnt(f, 0, m); }
proof fn l_fi_step(g: G, t: ForestIndex, u: ForestIndex, f: Set<int>, csd: int, e: int, p: int)
  requires fipart(g, t, f, csd, e), 0 <= e < g.ends.len(), csd == g.ends.len() - f.len(), cnt(f, g.ends.len() as int) == f.len(), p == ipos(f, csd, e),
    u.m == t.m, u.index =~= t.index.insert(e, p), u.reverse_index =~= t.reverse_index.update(p, edge_of(g, e))
  ensures fipart(g, u, f, csd, e + 1), 0 <= p < g.ends.len()
{ reveal(fipart); l_fi_pos(g, f, csd, e); 
  assert forall|x: int| 0 <= x < e + 1 implies #[trigger] fi_e(g, u, f, csd, x) by { l_fi_pos(g, f, csd, x); if x < e { assert(fi_e(g, t, f, csd, x)); l_fi_inj(g, f, csd, x, e); } } }
proof fn l_fi_pos(g: G, f: Set<int>, csd: int, e: int) requires 0 <= e < g.ends.len(), csd == g.ends.len() - f.len(), cnt(f, g.ends.len() as int) == f.len()
  ensures 0 <= ipos(f, csd, e) < g.ends.len(), f.contains(e) <==> ipos(f, csd, e) >= csd
{ let m = g.ends.len() as int; l_cnt(f, e, m); l_cnt(f, e + 1, m); }
proof fn l_fi_inj(g: G, f: Set<int>, csd: int, x: int, e: int) requires 0 <= x < e < g.ends.len(), csd == g.ends.len() - f.len(), cnt(f, g.ends.len() as int) == f.len() ensures ipos(f, csd, x) != ipos(f, csd, e)
{ l_fi_pos(g, f, csd, x); l_fi_pos(g, f, csd, e); l_cnt(f, x + 1, e); }
proof fn l_fi_done(g: G, t: ForestIndex, fe: Seq<Edge>, f: Set<int>, csd: int)
  requires wf(g), fipart(g, t, f, csd, g.ends.len() as int), sforest(g, f, t.k), fwit(g, f), t.n == g.n, 0 <= t.k <= t.n, csd == t.m - t.n + t.k
  ensures fiok(g, t)
{ reveal(fipart); reveal(fiok); let m = g.ends.len() as int; l_fi_bounds(g, f, t.k, m, t.n);
  assert(ncomp(g, t.k));
  assert forall|e: int| #[trigger] eid(g, e) implies 0 <= t.index[e] < t.m && t.reverse_index[t.index[e]].id == e && t.index.contains_key(e) by { assert(fi_e(g, t, f, csd, e)); }
  assert(fiok_f(g, t, f)) by { assert forall|e: int| #[trigger] eid(g, e) implies (f.contains(e) <==> t.index[e] >= t.m - t.n + t.k) by { assert(fi_e(g, t, f, csd, e)); } }
  assert forall|i: int| 0 <= i < m implies #[trigger] rev_ok(g, t, i) by { let e = l_fi_sur(g, f, csd, i, m); assert(fi_e(g, t, f, csd, e)); assert(eid(g, e)); } }
// every position is taken
proof fn l_sur1(f: Set<int>, i: int, m: int) -> (e: int) requires 0 <= i < m - cnt(f, m), 0 <= m ensures 0 <= e < m, !f.contains(e), e - cnt(f, e) == i decreases m
{ if m == 0 { 0 } else { if !f.contains(m - 1) && m - 1 - cnt(f, m - 1) == i { m - 1 } else { l_sur1(f, i, m - 1) } } }
proof fn l_sur2(f: Set<int>, i: int, m: int) -> (e: int) requires 0 <= i < cnt(f, m), 0 <= m ensures 0 <= e < m, f.contains(e), cnt(f, e) == i decreases m
{ if m == 0 { 0 } else { if f.contains(m - 1) && cnt(f, m - 1) == i { m - 1 } else { l_sur2(f, i, m - 1) } } }
proof fn l_fi_sur(g: G, f: Set<int>, csd: int, i: int, m: int) -> (e: int) requires m == g.ends.len(), csd == m - f.len(), cnt(f, m) == f.len(), 0 <= i < m ensures 0 <= e < m, ipos(f, csd, e) == i
{ if i < csd { l_sur1(f, i, m) } else { l_sur2(f, i - csd, m) } }
"""
FUNCS += [
 dict(name="fi_create", find=FI + "create_index", nloops=1, requires=["wf(g)"], ensures=["fiok(g, this_)"],
  loops={0: dict(ghost="let ghost f = forest; let ghost fe: Seq<Edge> = Seq::empty();",
      before="assert(forest =~= ids(c_spanning_forest_1@.1)); l_fi_bounds(g, forest, this_.k, this_.m, this_.n); assert(csd == this_.m - forest.len()); reveal(fipart); assert(fipart(g, this_, forest, csd, 0));",
      inv=["fipart(g, this_, f, csd, ei)", "forest == f", "sforest(g, f, this_.k)", "fwit(g, f)", "low == ei - cnt(f, ei)", "high == csd + cnt(f, ei)", "0 <= ei <= g.ends.len()", "ei_c == g_edges(g)", "eiend == g.ends.len()",
           "this_.n == g.n", "this_.m == g.ends.len()", "0 <= this_.k <= this_.n", "csd == this_.m - this_.n + this_.k", "csd == this_.m - f.len()", "cnt(f, g.ends.len() as int) == f.len()", "0 <= csd <= this_.m", "this_.reverse_index.len() == this_.m"],
      gbegin="let ghost t0 = this_; let ghost e0 = ei;", begin="l_fi_pos(g, f, csd, ei); assert(ei_c[ei] == edge_of(g, ei)); l_cnt(f, ei, g.ends.len() as int); l_cnt(f, ei + 1, g.ends.len() as int);",
      end="assert(cnt(f, e0 + 1) == cnt(f, e0) + if f.contains(e0) { 1int } else { 0 }); l_fi_step(g, t0, this_, f, csd, e0, ipos(f, csd, e0));",
      after="l_fi_done(g, this_, fe, f, csd);")}),
 dict(name="fi_ctor", find=FI + "ForestIndex", sig=r"void \(const Graph|adjacency_list<.*> &\)$", requires=["wf(g)"], ensures=["fiok(g, this_)"]),
 dict(name="fi_copy", find=FI + "ForestIndex", sig=r"ForestIndex", requires=[], ensures=["this_ == ei"]),
 dict(name="fi_assign", find=FI + "operator=", requires=[], ensures=["this_ == ei", "r == ei"]),
 dict(name="fi_edge", find=FI + r"operator\(\)", sig=r"size_type &\) const|unsigned long &\) const", gparams=[("g", "G")], requires=["fiok(g, this_)", "i < g.ends.len()"], ensures=["edge_ok(g, r)", "r == this_.reverse_index[i]"], begin="reveal(fiok); assert(rev_ok(g, this_, i));"),
 dict(name="fi_index", find=FI + r"operator\(\)", sig=r"Edge &\) const|edge_desc.* &\) const", gparams=[("g", "G")], requires=["fiok(g, this_)", "eid(g, e.id)"], ensures=["r == this_.index[e.id]", "0 <= r < g.ends.len()"], begin="reveal(fiok);"),
 dict(name="fi_csd", find=FI + "cycle_space_dimension", gparams=[("g", "G")], requires=["fiok(g, this_)", "wf(g)"], ensures=["r == this_.m - this_.n + this_.k"], begin="reveal(fiok);"),
 dict(name="fi_on_forest", find=FI + "is_on_forest", gparams=[("g", "G")], requires=["fiok(g, this_)", "wf(g)", "eid(g, e.id)"], ensures=["r <==> this_.index[e.id] >= this_.m - this_.n + this_.k"], begin="reveal(fiok);"),
 dict(name="fi_wcc", find=FI + "weak_connected_components", requires=[], ensures=["r == this_.k"]),
]
