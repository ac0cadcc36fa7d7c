// ---- graphs: boost::adjacency_list<vecS, vecS, undirectedS>.  An edge descriptor is (id, source, target);
// two descriptors are equal iff their ids are (boost compares the address of the edge's property).
pub struct Edge { pub id: int, pub s: int, pub t: int }
pub struct G { pub n: int, pub ends: Seq<(int, int)>, pub adj: Seq<Seq<int>>, pub w: Seq<real> }
pub open spec fn edge0() -> Edge { Edge { id: -1, s: 0, t: 0 } }
pub open spec fn g_empty() -> G { G { n: 0, ends: Seq::empty(), adj: Seq::empty(), w: Seq::empty() } }
pub open spec fn eid(g: G, e: int) -> bool { 0 <= e < g.ends.len() }
pub open spec fn vid(g: G, v: int) -> bool { 0 <= v < g.n }
pub open spec fn edge_of(g: G, i: int) -> Edge { Edge { id: i, s: g.ends[i].0, t: g.ends[i].1 } }
pub open spec fn g_edges(g: G) -> Seq<Edge> { Seq::new(g.ends.len(), |i: int| edge_of(g, i)) }
pub open spec fn oth(g: G, e: int, v: int) -> int { if g.ends[e].0 == v { g.ends[e].1 } else { g.ends[e].0 } }
pub open spec fn out_edge(g: G, v: int, j: int) -> Edge { Edge { id: g.adj[v][j], s: v, t: oth(g, g.adj[v][j], v) } }
pub open spec fn g_out(g: G, v: int) -> Seq<Edge> { Seq::new(g.adj[v].len(), |j: int| out_edge(g, v, j)) }
pub open spec fn g_opp(e: Edge, v: int) -> int { if e.s == v { e.t } else { e.s } }
pub open spec fn g_add_vertex(g: G) -> G { G { n: g.n + 1, ends: g.ends, adj: g.adj.push(Seq::empty()), w: g.w } }
pub open spec fn g_add_edge(g: G, u: int, v: int) -> G {
  let a = g.adj.update(u, g.adj[u].push(g.ends.len() as int));
  G { n: g.n, ends: g.ends.push((u, v)), adj: a.update(v, a[v].push(g.ends.len() as int)), w: g.w.push(0real) } }
pub open spec fn ids(s: Seq<Edge>) -> Set<int> { Seq::new(s.len(), |i: int| s[i].id).to_set() }
pub open spec fn seq_set(s: Seq<int>) -> Set<int> { s.to_set() }
pub open spec fn enumerates(q: Seq<int>, s: Set<int>) -> bool { q.len() == s.len() && q.no_duplicates() && forall|x: int| #[trigger] s.contains(x) <==> q.contains(x) }
// number of occurrences
pub open spec fn occ(s: Seq<int>, x: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { occ(s.drop_last(), x) + (if s.last() == x { 1int } else { 0 }) } }
pub open spec fn wf_adj(g: G, v: int) -> bool {
  (forall|j: int| 0 <= j < g.adj[v].len() ==> #[trigger] eid(g, g.adj[v][j]))
  && (forall|e: int| #[trigger] eid(g, e) ==> occ(g.adj[v], e) == (if g.ends[e].0 == v { 1int } else { 0 }) + (if g.ends[e].1 == v { 1int } else { 0 })) }
// representation invariant of the adjacency list: every edge is in the incidence list of each of its ends, once per end
pub open spec fn wf(g: G) -> bool {
  0 <= g.n < 4611686018427387904 && g.ends.len() < 4611686018427387904 && g.adj.len() == g.n && g.w.len() == g.ends.len()
  && (forall|e: int| #[trigger] eid(g, e) ==> 0 <= g.ends[e].0 < g.n && 0 <= g.ends[e].1 < g.n)
  && (forall|v: int| #[trigger] vid(g, v) ==> wf_adj(g, v)) }
pub open spec fn no_loops(g: G) -> bool { forall|e: int| #[trigger] eid(g, e) ==> g.ends[e].0 != g.ends[e].1 }
pub open spec fn inc(g: G, e: int, v: int) -> bool { eid(g, e) && (g.ends[e].0 == v || g.ends[e].1 == v) }
pub open spec fn joins(g: G, e: int, u: int, v: int) -> bool { eid(g, e) && ((g.ends[e].0 == u && g.ends[e].1 == v) || (g.ends[e].0 == v && g.ends[e].1 == u)) }
// a descriptor valid for g, in either orientation
pub open spec fn edge_ok(g: G, e: Edge) -> bool { joins(g, e.id, e.s, e.t) }
// a (simple) cycle: distinct vertices, distinct edges, cyclically joined; a self-loop is one of length 1, parallel edges one of length 2
pub open spec fn nx(i: int, k: int) -> int { if i + 1 == k { 0 } else { i + 1 } }
pub open spec fn cyc(g: G, vs: Seq<int>, es: Seq<int>) -> bool {
  vs.len() >= 1 && es.len() == vs.len() && vs.no_duplicates() && es.no_duplicates()
  && forall|i: int| 0 <= i < vs.len() ==> joins(g, #[trigger] es[i], vs[i], vs[nx(i, vs.len() as int)]) }
pub open spec fn acyclic_in(g: G, s: Set<int>) -> bool { forall|vs: Seq<int>, es: Seq<int>| #[trigger] cyc(g, vs, es) ==> exists|i: int| 0 <= i < es.len() && !s.contains(#[trigger] es[i]) }
pub open spec fn acyclic(g: G) -> bool { forall|vs: Seq<int>, es: Seq<int>| !#[trigger] cyc(g, vs, es) }
pub open spec fn acyclic_wo(g: G, x: Seq<int>) -> bool { forall|vs: Seq<int>, es: Seq<int>| #[trigger] cyc(g, vs, es) ==> exists|i: int| 0 <= i < vs.len() && x.contains(#[trigger] vs[i]) }
pub open spec fn step(g: G, s: Set<int>, u: int, v: int) -> bool { exists|e: int| s.contains(e) && #[trigger] joins(g, e, u, v) }
pub open spec fn walk(g: G, s: Set<int>, p: Seq<int>) -> bool { p.len() >= 1 && (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < g.n) && forall|i: int| 0 <= i < p.len() - 1 ==> step(g, s, #[trigger] p[i], p[i + 1]) }
pub open spec fn walk_uv(g: G, s: Set<int>, p: Seq<int>, u: int, v: int) -> bool { walk(g, s, p) && p[0] == u && p.last() == v }
pub open spec fn conn(g: G, s: Set<int>, u: int, v: int) -> bool { exists|p: Seq<int>| #[trigger] walk_uv(g, s, p, u, v) }
pub open spec fn all_edges(g: G) -> Set<int> { Set::range(0, g.ends.len() as int) }

proof fn l_occ(s: Seq<int>, x: int) ensures occ(s, x) >= 0, s.contains(x) <==> occ(s, x) > 0 decreases s.len()
{ if s.len() > 0 { l_occ(s.drop_last(), x);
    if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; if j < s.len() - 1 { assert(s.drop_last()[j] == x); } }
    if s.drop_last().contains(x) { let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == x; assert(s[j] == x); }
    if s.last() == x { assert(s[s.len() - 1] == x); } } }
proof fn l_occ_push(s: Seq<int>, y: int, x: int) ensures occ(s.push(y), x) == occ(s, x) + (if x == y { 1int } else { 0 }) { assert(s.push(y).drop_last() =~= s); }
proof fn l_occ2(s: Seq<int>, i: int, j: int) requires 0 <= i < j < s.len(), s[i] == s[j] ensures occ(s, s[i]) >= 2 decreases s.len()
{ if j == s.len() - 1 { assert(s.drop_last()[i] == s[i]); l_occ(s.drop_last(), s[i]); } else { assert(s.drop_last()[i] == s[i] && s.drop_last()[j] == s[j]); l_occ2(s.drop_last(), i, j); } }
proof fn l_occ1(s: Seq<int>, x: int) -> (ij: (int, int)) requires occ(s, x) >= 2 ensures 0 <= ij.0 < ij.1 < s.len(), s[ij.0] == x, s[ij.1] == x decreases s.len()
{ if s.last() == x { l_occ(s.drop_last(), x); let i = choose|i: int| 0 <= i < s.drop_last().len() && s.drop_last()[i] == x; (i, s.len() - 1) } else { let r = l_occ1(s.drop_last(), x); r } }
// the out-edges of a vertex are exactly its incident edges
proof fn l_adj(g: G, v: int) requires wf(g), vid(g, v)
  ensures forall|j: int| 0 <= j < g.adj[v].len() ==> inc(g, #[trigger] g.adj[v][j], v),
    forall|j: int| 0 <= j < g.adj[v].len() ==> joins(g, #[trigger] g.adj[v][j], v, oth(g, g.adj[v][j], v)) && vid(g, oth(g, g.adj[v][j], v)),
    forall|e: int| inc(g, e, v) ==> #[trigger] g.adj[v].contains(e),
    forall|i: int, j: int| 0 <= i < j < g.adj[v].len() && g.adj[v][i] == #[trigger] g.adj[v][j] ==> #[trigger] g.adj[v][i] == g.adj[v][j] && g.ends[g.adj[v][i]].0 == g.ends[g.adj[v][i]].1
{ assert(wf_adj(g, v));
  assert forall|j: int| 0 <= j < g.adj[v].len() implies inc(g, #[trigger] g.adj[v][j], v) by { let e = g.adj[v][j]; assert(eid(g, e)); l_occ(g.adj[v], e); assert(g.adj[v].contains(e)); }
  assert forall|j: int| 0 <= j < g.adj[v].len() implies joins(g, #[trigger] g.adj[v][j], v, oth(g, g.adj[v][j], v)) && vid(g, oth(g, g.adj[v][j], v)) by { let e = g.adj[v][j]; assert(inc(g, e, v)); assert(eid(g, e)); }
  assert forall|e: int| inc(g, e, v) implies #[trigger] g.adj[v].contains(e) by { assert(eid(g, e)); l_occ(g.adj[v], e); }
  assert forall|i: int, j: int| 0 <= i < j < g.adj[v].len() && g.adj[v][i] == #[trigger] g.adj[v][j] implies #[trigger] g.adj[v][i] == g.adj[v][j] && g.ends[g.adj[v][i]].0 == g.ends[g.adj[v][i]].1 by { l_occ2(g.adj[v], i, j); assert(eid(g, g.adj[v][i])); } }
proof fn l_adj_all(g: G) requires wf(g)
  ensures forall|v: int, j: int| 0 <= v < g.n && 0 <= j < g.adj[v].len() ==> joins(g, #[trigger] g.adj[v][j], v, oth(g, g.adj[v][j], v)) && vid(g, oth(g, g.adj[v][j], v))
{ assert forall|v: int, j: int| 0 <= v < g.n && 0 <= j < g.adj[v].len() implies joins(g, #[trigger] g.adj[v][j], v, oth(g, g.adj[v][j], v)) && vid(g, oth(g, g.adj[v][j], v)) by { assert(vid(g, v)); l_adj(g, v); } }
proof fn l_wf_add_vertex(g: G) requires wf(g), g.n + 1 < 4611686018427387904 ensures wf(g_add_vertex(g))
{ let h = g_add_vertex(g);
  assert forall|e: int| #[trigger] eid(h, e) implies 0 <= h.ends[e].0 < h.n && 0 <= h.ends[e].1 < h.n by { assert(eid(g, e)); }
  assert forall|v: int| #[trigger] vid(h, v) implies wf_adj(h, v) by {
    if v < g.n { assert(vid(g, v)); assert(h.adj[v] == g.adj[v]); assert forall|j: int| 0 <= j < h.adj[v].len() implies #[trigger] eid(h, h.adj[v][j]) by { assert(eid(g, g.adj[v][j])); }
      assert forall|e: int| #[trigger] eid(h, e) implies occ(h.adj[v], e) == (if h.ends[e].0 == v { 1int } else { 0 }) + (if h.ends[e].1 == v { 1int } else { 0 }) by { assert(eid(g, e)); } }
    else { assert forall|e: int| #[trigger] eid(h, e) implies occ(h.adj[v], e) == (if h.ends[e].0 == v { 1int } else { 0 }) + (if h.ends[e].1 == v { 1int } else { 0 }) by { assert(eid(g, e)); } } } }
proof fn l_wf_add_edge(g: G, a: int, b: int) requires wf(g), vid(g, a), vid(g, b), g.ends.len() + 1 < 4611686018427387904 ensures wf(g_add_edge(g, a, b))
{ let h = g_add_edge(g, a, b); let m = g.ends.len() as int;
  assert forall|e: int| #[trigger] eid(h, e) implies 0 <= h.ends[e].0 < h.n && 0 <= h.ends[e].1 < h.n by { if e < m { assert(eid(g, e)); } }
  assert forall|v: int| #[trigger] vid(h, v) implies wf_adj(h, v) by {
    assert(vid(g, v)); assert(wf_adj(g, v));
    assert forall|e: int| 0 <= e < m implies #[trigger] occ(g.adj[v], e) == (if g.ends[e].0 == v { 1int } else { 0 }) + (if g.ends[e].1 == v { 1int } else { 0 }) by { assert(eid(g, e)); }
    if occ(g.adj[v], m) > 0 { l_occ(g.adj[v], m); let j = choose|j: int| 0 <= j < g.adj[v].len() && g.adj[v][j] == m; assert(eid(g, g.adj[v][j])); }
    l_occ(g.adj[v], m);
    assert forall|j: int| 0 <= j < h.adj[v].len() implies #[trigger] eid(h, h.adj[v][j]) by { if j < g.adj[v].len() { assert(eid(g, g.adj[v][j])); } }
    assert forall|e: int| #[trigger] eid(h, e) implies occ(h.adj[v], e) == (if h.ends[e].0 == v { 1int } else { 0 }) + (if h.ends[e].1 == v { 1int } else { 0 }) by {
      if e < m { assert(eid(g, e)); } l_occ_push(g.adj[v], m, e); l_occ_push(g.adj[v].push(m), m, e); } } }
// ---- heaps
pub uninterp spec fn heap_top(s: Set<int>) -> int;
// TRUSTED: top() of a non-empty heap is one of its elements
#[verifier::external_body]
proof fn ax_heap_top(s: Set<int>) ensures s.len() > 0 ==> s.contains(heap_top(s)) {}
pub uninterp spec fn mheap_top<K, A>(h: Map<K, A>) -> K;
// ---- connectivity and spanning forests
// lab numbers the connected components of (V, s) by 0..k-1
pub open spec fn labels(g: G, s: Set<int>, lab: Seq<int>, k: int) -> bool {
  lab.len() == g.n && (forall|v: int| #[trigger] vid(g, v) ==> 0 <= lab[v] < k)
  && (forall|c: int| 0 <= c < k ==> #[trigger] lab.contains(c))
  && (forall|u: int, v: int| vid(g, u) && vid(g, v) ==> (#[trigger] conn(g, s, u, v) <==> lab[u] == lab[v])) }
pub open spec fn ncomp(g: G, k: int) -> bool { exists|lab: Seq<int>| #[trigger] labels(g, all_edges(g), lab, k) }
// f is a spanning forest and k the number of connected components
pub open spec fn sforest(g: G, f: Set<int>, k: int) -> bool {
  (forall|e: int| #[trigger] f.contains(e) ==> eid(g, e)) && f.len() == g.n - k && acyclic_in(g, f)
  && exists|lab: Seq<int>| #[trigger] labels(g, all_edges(g), lab, k) && labels(g, f, lab, k) }
// construction witness: lab = component, tm[v] = position of the edge that discovered v (-1: root), rt[c] = root of component c
pub open spec fn sfw_v(g: G, f: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>, v: int) -> bool {
  0 <= lab[v] < rt.len() && ((tm[v] == -1 && rt[lab[v]] == v) || (0 <= tm[v] < f.len() && f[tm[v]].t == v)) }
pub open spec fn sfw_e(g: G, f: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, i: int) -> bool {
  edge_ok(g, f[i]) && tm[f[i].t] == i && tm[f[i].s] < i && lab[f[i].s] == lab[f[i].t] }
pub open spec fn sfw(g: G, f: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>) -> bool {
  lab.len() == g.n && tm.len() == g.n && (forall|v: int| #[trigger] vid(g, v) ==> sfw_v(g, f, lab, tm, rt, v))
  && (forall|i: int| 0 <= i < f.len() ==> sfw_e(g, f, lab, tm, i) && (#[trigger] f[i]).id >= 0)
  && (forall|c: int| 0 <= c < rt.len() ==> vid(g, #[trigger] rt[c]) && lab[rt[c]] == c)
  && (forall|e: int| #[trigger] eid(g, e) ==> lab[g.ends[e].0] == lab[g.ends[e].1]) }
proof fn l_walk1(g: G, s: Set<int>, v: int) requires vid(g, v) ensures conn(g, s, v, v) { let p = seq![v]; assert(walk_uv(g, s, p, v, v)); }
proof fn l_conn_step(g: G, s: Set<int>, u: int, v: int, e: int) requires s.contains(e), joins(g, e, u, v), vid(g, u), vid(g, v) ensures conn(g, s, u, v), conn(g, s, v, u)
{ let p = seq![u, v]; assert(step(g, s, u, v)); assert(walk_uv(g, s, p, u, v)); let q = seq![v, u]; assert(joins(g, e, v, u)); assert(step(g, s, v, u)); assert(walk_uv(g, s, q, v, u)); }
proof fn l_conn_trans(g: G, s: Set<int>, u: int, v: int, w: int) requires conn(g, s, u, v), conn(g, s, v, w) ensures conn(g, s, u, w)
{ let p = choose|p: Seq<int>| #[trigger] walk_uv(g, s, p, u, v); let q = choose|q: Seq<int>| #[trigger] walk_uv(g, s, q, v, w);
  let r = p + q.subrange(1, q.len() as int);
  assert forall|i: int| 0 <= i < r.len() implies 0 <= #[trigger] r[i] < g.n by { if i < p.len() { assert(r[i] == p[i]); } else { assert(r[i] == q[i - p.len() + 1]); } }
  assert forall|i: int| 0 <= i < r.len() - 1 implies step(g, s, #[trigger] r[i], r[i + 1]) by {
    if i < p.len() - 1 { assert(r[i] == p[i] && r[i + 1] == p[i + 1]); } else { assert(r[i] == q[i - (p.len() - 1)]); assert(r[i + 1] == q[i + 1 - (p.len() - 1)]); assert(step(g, s, q[i - (p.len() - 1)], q[i - (p.len() - 1) + 1])); } }
  assert(r.last() == w) by { if q.len() == 1 { assert(r =~= p); } else { assert(r[r.len() - 1] == q[q.len() - 1]); } }
  assert(walk_uv(g, s, r, u, w)); }
proof fn l_conn_sym(g: G, s: Set<int>, u: int, v: int) requires conn(g, s, u, v) ensures conn(g, s, v, u)
{ let p = choose|p: Seq<int>| #[trigger] walk_uv(g, s, p, u, v); let q = Seq::new(p.len(), |i: int| p[p.len() - 1 - i]);
  assert forall|i: int| 0 <= i < q.len() - 1 implies step(g, s, #[trigger] q[i], q[i + 1]) by { let j = p.len() - 2 - i; assert(step(g, s, p[j], p[j + 1])); let e = choose|e: int| s.contains(e) && #[trigger] joins(g, e, p[j], p[j + 1]); assert(joins(g, e, q[i], q[i + 1])); }
  assert(walk_uv(g, s, q, v, u)); }
proof fn l_conn_mono(g: G, s: Set<int>, t: Set<int>, u: int, v: int) requires conn(g, s, u, v), forall|e: int| s.contains(e) ==> t.contains(e) ensures conn(g, t, u, v)
{ let p = choose|p: Seq<int>| #[trigger] walk_uv(g, s, p, u, v);
  assert forall|i: int| 0 <= i < p.len() - 1 implies step(g, t, #[trigger] p[i], p[i + 1]) by { let e = choose|e: int| s.contains(e) && #[trigger] joins(g, e, p[i], p[i + 1]); assert(t.contains(e) && joins(g, e, p[i], p[i + 1])); }
  assert(walk_uv(g, t, p, u, v)); }
// a labelling that is constant along the edges is constant along walks
proof fn l_walk_lab(g: G, s: Set<int>, lab: Seq<int>, p: Seq<int>, k: int)
  requires wf(g), walk(g, s, p), 0 <= k < p.len(), forall|e: int| #[trigger] eid(g, e) ==> lab[g.ends[e].0] == lab[g.ends[e].1]
  ensures lab[p[0]] == lab[p[k]] decreases k
{ if k > 0 { l_walk_lab(g, s, lab, p, k - 1); assert(step(g, s, p[k - 1], p[k - 1 + 1])); let e = choose|e: int| s.contains(e) && #[trigger] joins(g, e, p[k - 1], p[k]); assert(eid(g, e)); } }
proof fn l_sf_root(g: G, f: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>, v: int)
  requires wf(g), sfw(g, f, lab, tm, rt), vid(g, v) ensures conn(g, ids(f), v, rt[lab[v]]) decreases tm[v] + 1
{ assert(sfw_v(g, f, lab, tm, rt, v));
  if tm[v] == -1 { l_walk1(g, ids(f), v); }
  else { let i = tm[v]; assert(sfw_e(g, f, lab, tm, i) && f[i].id >= 0); let u = f[i].s; assert(eid(g, f[i].id)); assert(vid(g, u)); assert(sfw_v(g, f, lab, tm, rt, u));
    l_sf_root(g, f, lab, tm, rt, u); l_ids(f, i); l_conn_step(g, ids(f), v, u, f[i].id); l_conn_trans(g, ids(f), v, u, rt[lab[v]]); } }
proof fn l_ids(f: Seq<Edge>, i: int) requires 0 <= i < f.len() ensures ids(f).contains(f[i].id) { let q = Seq::new(f.len(), |i: int| f[i].id); assert(q[i] == f[i].id); assert(q.contains(f[i].id)); }
proof fn l_ids_inv(f: Seq<Edge>, x: int) -> (i: int) requires ids(f).contains(x) ensures 0 <= i < f.len(), f[i].id == x { let q = Seq::new(f.len(), |i: int| f[i].id); let i = choose|i: int| 0 <= i < q.len() && q[i] == x; i }
pub open spec fn distinct_ids(f: Seq<Edge>) -> bool { forall|i: int, j: int| 0 <= i < j < f.len() ==> f[i].id != f[j].id }
proof fn l_ids_len(f: Seq<Edge>) requires distinct_ids(f) ensures ids(f).len() == f.len() { let q = Seq::new(f.len(), |i: int| f[i].id); assert(q.no_duplicates()); q.unique_seq_to_set(); }
proof fn l_min(q: Seq<int>) -> (i: int) requires q.len() > 0 ensures 0 <= i < q.len(), forall|j: int| 0 <= j < q.len() ==> q[i] <= #[trigger] q[j] decreases q.len()
{ if q.len() == 1 { 0 } else { let i = l_min(q.drop_last()); assert(forall|j: int| 0 <= j < q.len() - 1 ==> q.drop_last()[j] == #[trigger] q[j]); if q[i] <= q.last() { i } else { q.len() - 1 } } }
proof fn l_max(q: Seq<int>) -> (i: int) requires q.len() > 0 ensures 0 <= i < q.len(), forall|j: int| 0 <= j < q.len() ==> q[i] >= #[trigger] q[j] decreases q.len()
{ if q.len() == 1 { 0 } else { let i = l_max(q.drop_last()); assert(forall|j: int| 0 <= j < q.len() - 1 ==> q.drop_last()[j] == #[trigger] q[j]); if q[i] >= q.last() { i } else { q.len() - 1 } } }
proof fn l_nx(i: int, k: int) -> (p: int) requires 0 <= i < k ensures 0 <= p < k, nx(p, k) == i, k >= 2 ==> p != i { if i == 0 { k - 1 } else { i - 1 } }
proof fn l_sf_distinct(g: G, f: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>) requires wf(g), sfw(g, f, lab, tm, rt) ensures distinct_ids(f)
{ assert forall|i: int, j: int| 0 <= i < j < f.len() implies f[i].id != f[j].id by { if f[i].id == f[j].id { assert(sfw_e(g, f, lab, tm, i) && f[i].id >= 0); assert(sfw_e(g, f, lab, tm, j) && f[j].id >= 0); } } }
// acyclic: the cycle edge discovered last leads to a vertex no earlier edge touches
proof fn l_sf_acyclic(g: G, f: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>) requires wf(g), sfw(g, f, lab, tm, rt) ensures acyclic_in(g, ids(f))
{ let s = ids(f);
  assert forall|vs: Seq<int>, es: Seq<int>| #[trigger] cyc(g, vs, es) implies exists|i: int| 0 <= i < es.len() && !s.contains(#[trigger] es[i]) by {
    if forall|i: int| 0 <= i < es.len() ==> s.contains(#[trigger] es[i]) {
      let k = vs.len() as int;
      let q = Seq::new(vs.len(), |i: int| tm[vs[i]]);
      let m = l_max(q); let v = vs[m];
      let p = l_nx(m, k);
      assert(s.contains(es[m]) && s.contains(es[p]));
      let a = l_ids_inv(f, es[m]); let b = l_ids_inv(f, es[p]);
      assert(sfw_e(g, f, lab, tm, a) && f[a].id >= 0); assert(sfw_e(g, f, lab, tm, b) && f[b].id >= 0);
      assert(joins(g, es[m], vs[m], vs[nx(m, k)])); assert(joins(g, es[p], vs[p], vs[nx(p, k)]));
      let z = nx(m, k); assert(0 <= z < k); assert(q[z] <= q[m]); assert(q[p] <= q[m]);
      assert(tm[vs[z]] <= tm[v]); assert(tm[vs[p]] <= tm[v]);
      if k >= 2 { assert(es[m] != es[p]); assert(a != b); }
    } } }
proof fn l_sf(g: G, f: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>)
  requires wf(g), sfw(g, f, lab, tm, rt), f.len() == g.n - rt.len()
  ensures sforest(g, ids(f), rt.len() as int), distinct_ids(f), forall|i: int| 0 <= i < f.len() ==> edge_ok(g, #[trigger] f[i])
{ l_sf_distinct(g, f, lab, tm, rt); l_ids_len(f); l_sf_acyclic(g, f, lab, tm, rt);
  let s = ids(f); let k = rt.len() as int;
  assert forall|i: int| 0 <= i < f.len() implies edge_ok(g, #[trigger] f[i]) by { assert(sfw_e(g, f, lab, tm, i) && f[i].id >= 0); }
  assert forall|e: int| #[trigger] s.contains(e) implies eid(g, e) by { let i = l_ids_inv(f, e); assert(edge_ok(g, f[i])); }
  assert forall|c: int| 0 <= c < k implies #[trigger] lab.contains(c) by { assert(vid(g, rt[c]) && lab[rt[c]] == c); assert(lab[rt[c]] == c); }
  assert forall|v: int| #[trigger] vid(g, v) implies 0 <= lab[v] < k by { assert(sfw_v(g, f, lab, tm, rt, v)); }
  assert forall|u: int, v: int| vid(g, u) && vid(g, v) implies (#[trigger] conn(g, s, u, v) <==> lab[u] == lab[v]) by {
    if conn(g, s, u, v) { let p = choose|p: Seq<int>| #[trigger] walk_uv(g, s, p, u, v); l_walk_lab(g, s, lab, p, p.len() - 1); }
    if lab[u] == lab[v] { l_sf_root(g, f, lab, tm, rt, u); l_sf_root(g, f, lab, tm, rt, v); l_conn_sym(g, s, v, rt[lab[v]]); l_conn_trans(g, s, u, rt[lab[u]], v); } }
  let t = all_edges(g);
  assert forall|u: int, v: int| vid(g, u) && vid(g, v) implies (#[trigger] conn(g, t, u, v) <==> lab[u] == lab[v]) by {
    if conn(g, t, u, v) { let p = choose|p: Seq<int>| #[trigger] walk_uv(g, t, p, u, v); l_walk_lab(g, t, lab, p, p.len() - 1); }
    if lab[u] == lab[v] { assert(conn(g, s, u, v)); assert forall|e: int| s.contains(e) implies t.contains(e) by { assert(eid(g, e)); } l_conn_mono(g, s, t, u, v); } }
  assert(labels(g, s, lab, k)); assert(labels(g, t, lab, k)); }
proof fn l_bounded(p: Seq<int>, n: int) requires p.no_duplicates(), forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < n, n >= 0 ensures p.len() <= n
{ p.unique_seq_to_set(); let s = Set::range(0, n); assert(s.len() == n) by { l_range(n); } assert(p.to_set().subset_of(s)) by { assert forall|x: int| p.to_set().contains(x) implies s.contains(x) by { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; } } vstd::set_lib::lemma_len_subset(p.to_set(), s); }
proof fn l_range(n: int) requires n >= 0 ensures Set::range(0, n).len() == n decreases n { if n == 0 { assert(Set::range(0, 0) =~= Set::<int>::empty()); } else { l_range(n - 1); assert(Set::range(0, n) =~= Set::range(0, n - 1).insert(n - 1)); } }
pub open spec fn perm_by<A>(a: Seq<A>, b: Seq<A>, p: Seq<int>) -> bool { a.len() == b.len() && p.len() == a.len() && p.no_duplicates() && forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < b.len() && a[i] == b[p[i]] }

// iterating a std::set of edge descriptors of g: an order of its edges that depends on the set alone (descriptors are compared by the address of the edge)
pub uninterp spec fn id_order(s: Set<int>) -> Seq<int>;
// TRUSTED: every element once; what remains keeps its order
#[verifier::external_body]
proof fn ax_id_order(s: Set<int>) ensures id_order(s).no_duplicates(), id_order(s).len() == s.len(), forall|x: int| #[trigger] s.contains(x) <==> id_order(s).contains(x), s.len() > 0 ==> id_order(s.remove(id_order(s)[0])) == id_order(s).drop_first() {}
pub open spec fn edge_enum(g: G, s: Set<int>, h: Seq<Edge>) -> bool { h.len() == s.len() && h.len() == id_order(s).len() && forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).id == id_order(s)[i] && (eid(g, h[i].id) ==> edge_ok(g, h[i])) }
