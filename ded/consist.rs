// ---- paths of different trees agree: the labels of the search order the simple walks, and the tree paths are the least ones
pub open spec fn lab(wm: Seq<real>, vs: Seq<int>, es: Seq<int>) -> LexDistance { LexDistance { distance: wsum(wm, es), edge_count: es.len() as int, vertex_indices: vs.to_set() } }
pub open spec fn tlx(t: SPTree, lex: Seq<LexDistance>) -> bool { lfin(t._g, t._weight_map, t._source, lex, tpred(t)) }
pub open spec fn tlab(t: SPTree, lex: Seq<LexDistance>, v: int) -> bool { lex[v] == lab(t._weight_map, rpv(t, v), rpe(t, v)) && lok(lex[v]) }
proof fn l_wcons(wm: Seq<real>, e: int, es: Seq<int>) ensures wsum(wm, seq![e] + es) == wm[e] + wsum(wm, es) { l_wsum_cat(wm, seq![e], es); l_w1(wm, e); }
proof fn l_scons(v: int, vs: Seq<int>) ensures (seq![v] + vs).to_set() == vs.to_set().insert(v)
{ let q = seq![v] + vs; assert forall|x: int| q.to_set().contains(x) <==> vs.to_set().insert(v).contains(x) by { if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; if i > 0 { assert(vs[i - 1] == x); } } if vs.contains(x) { let i = choose|i: int| 0 <= i < vs.len() && vs[i] == x; assert(q[i + 1] == x); } if x == v { assert(q[0] == v); } } assert(q.to_set() =~= vs.to_set().insert(v)); }
proof fn l_tlx_at(t: SPTree, lex: Seq<LexDistance>, v: int) requires tsk(t), tlx(t, lex), live(t, v)
  ensures lok(lex[v]), lex[t._source] == lab0(t._source), v != t._source ==> ({ let c = nod(t, v); lex[v] == lcomb(lex[parent(t, c)], t._weight_map[t.hp[c]._pred.id], v) }),
    forall|x: int| #[trigger] lex[v].vertex_indices.contains(x) ==> lex[x].distance <= lex[v].distance,
    forall|j: int| 0 <= j < t._g.adj[v].len() ==> #[trigger] lrel(t._g, t._weight_map, t._source, lex, v, j)
{ l_tv(t, v); l_nodef(t, nod(t, v)); let P = tpred(t); let V = choose|V: Set<int>| #[trigger] lfin_by(t._g, t._weight_map, t._source, lex, P, V); reveal(lst); assert(dvis(t._source, P, v)); assert(V.contains(v)); assert(lnode(t._g, t._weight_map, t._source, lex, P, V, v));
  assert forall|x: int| #[trigger] lex[v].vertex_indices.contains(x) implies lex[x].distance <= lex[v].distance by { assert(lin(t._g, t._source, lex, P, V, v, x)); } }
proof fn l_tlab(t: SPTree, lex: Seq<LexDistance>) requires tsk(t), tlx(t, lex) ensures forall|v: int| live(t, v) ==> #[trigger] tlab(t, lex, v)
{ let wm = t._weight_map; let s = t._source; let P = |v: int| tlab(t, lex, v); l_troot(t); assert(live(t, s)); l_rp(t, s); l_tlx_at(t, lex, s);
  assert(tlab(t, lex, s)) by { assert(rpv(t, s) =~= seq![s] + Seq::<int>::empty()); l_scons(s, Seq::empty()); assert(Seq::<int>::empty().to_set() =~= Set::<int>::empty()); }
  assert forall|v: int| live(t, v) && v != s && P(parent(t, nod(t, v))) implies #[trigger] P(v) by { l_rp(t, v); l_tlx_at(t, lex, v); let c = nod(t, v); let p = parent(t, c); let e = t.hp[c]._pred.id; l_wcons(wm, e, rpe(t, p)); l_scons(v, rpv(t, p)); assert(tlab(t, lex, p)); assert(tlab(t, lex, v)); }
  l_tree_v(t, P); assert forall|v: int| live(t, v) implies #[trigger] tlab(t, lex, v) by { assert(P(v)); } }
// adding a vertex to both labels keeps their order
proof fn l_lex_mono(a: LexDistance, b: LexDistance, w: real, v: int) requires lok(a), lok(b), !a.vertex_indices.contains(v), !b.vertex_indices.contains(v), !lexlt(a, b) ensures !lexlt(lcomb(a, w, v), lcomb(b, w, v)), lok(lcomb(a, w, v)), lok(lcomb(b, w, v))
{ let A = a.vertex_indices; let B = b.vertex_indices; let c = A.insert(v); let d = B.insert(v);
  if lexlt(lcomb(a, w, v), lcomb(b, w, v)) { assert(a.distance == b.distance && a.edge_count == b.edge_count); assert(setlt(c, d)); l_setlt_ex(c, d); let x = choose|x: int| #[trigger] fdiff(c, d, x); assert(x != v);
    assert(fdiff(A, B, x)) by { assert forall|y: int| y < x implies (#[trigger] A.contains(y) <==> B.contains(y)) by { assert(c.contains(y) <==> d.contains(y)); } } l_setlt_ex(A, B); } }
proof fn l_ndlen(vs: Seq<int>) requires vs.no_duplicates() ensures vs.to_set().len() == vs.len() { vs.unique_seq_to_set(); }
// no simple walk is less than the path of the tree
proof fn l_opt_rel(t: SPTree, lex: Seq<LexDistance>, v: int, u: int, e: int) requires tsk(t), tlx(t, lex), live(t, v), live(t, u), joins(t._g, e, u, v), u != v, v != t._source ensures !lexlt(lcomb(lex[u], t._weight_map[e], v), lex[v]), t._weight_map[e] > 0real
{ let g = t._g; l_troot(t); l_tlx_at(t, lex, u); l_adj(g, u); assert(inc(g, e, u)); assert(g.adj[u].contains(e)); let j = choose|j: int| 0 <= j < g.adj[u].len() && g.adj[u][j] == e; assert(lrel(g, t._weight_map, t._source, lex, u, j)); assert(oth(g, e, u) == v); }
proof fn l_opt_lex(a: LexDistance, b: LexDistance, c: LexDistance, w: real, v: int) requires lok(a), lok(b), lok(c), w > 0real, !a.vertex_indices.contains(v), c.distance <= b.distance + w, !lexlt(a, b), !lexlt(lcomb(b, w, v), c), b.distance < c.distance ==> !b.vertex_indices.contains(v) ensures !lexlt(lcomb(a, w, v), c)
{ let l = lcomb(a, w, v); assert(a.distance >= b.distance); if l.distance <= c.distance { l_lex_mono(a, b, w, v); l_lex_ntrans(l, lcomb(b, w, v), c); } }
proof fn l_opt_step(t: SPTree, v: int, vs: Seq<int>, es: Seq<int>) requires tsk(t), live(t, v), ww(t._g, vs, es, v, t._source), vs.no_duplicates(), es.len() > 0
  ensures ({ let us = vs.skip(1); let fs = es.skip(1); let wm = t._weight_map; ww(t._g, us, fs, vs[1], t._source) && live(t, vs[1]) && us.no_duplicates() && joins(t._g, es[0], vs[1], v) && vs[1] != v && v != t._source && !us.to_set().contains(v) && lab(wm, vs, es) == lcomb(lab(wm, us, fs), wm[es[0]], v) })
{ let g = t._g; let wm = t._weight_map; let s = t._source; l_ww_tail(g, vs, es, v, s); let u = vs[1]; let e = es[0]; let us = vs.skip(1); let fs = es.skip(1); l_ww_rev(g, us, fs, u, s); l_tv(t, u); assert(conned(g, s, u)); assert(vs =~= seq![v] + us); assert(es =~= seq![e] + fs); l_wcons(wm, e, fs); l_scons(v, us); assert(vs[0] != vs[1]); assert(vs[0] != vs[vs.len() - 1]);
  assert(!us.to_set().contains(v)) by { if us.contains(v) { let i = choose|i: int| 0 <= i < us.len() && us[i] == v; assert(vs[i + 1] == vs[0]); } } }
proof fn l_opt(t: SPTree, lex: Seq<LexDistance>, v: int, vs: Seq<int>, es: Seq<int>) requires tsk(t), tlx(t, lex), live(t, v), ww(t._g, vs, es, v, t._source), vs.no_duplicates()
  ensures !lexlt(lab(t._weight_map, vs, es), lex[v]), lok(lab(t._weight_map, vs, es)) decreases es.len()
{ let wm = t._weight_map; let s = t._source; let l = lab(wm, vs, es); l_ndlen(vs); l_tlx_at(t, lex, v);
  if es.len() == 0 { assert(vs =~= seq![s] + Seq::<int>::empty()); l_scons(s, Seq::empty()); assert(Seq::<int>::empty().to_set() =~= Set::<int>::empty()); assert(l == lab0(s)); l_lex_total(l, l); }
  else { l_opt_step(t, v, vs, es); let u = vs[1]; l_opt(t, lex, u, vs.skip(1), es.skip(1)); l_tlx_at(t, lex, u); l_opt_rel(t, lex, v, u, es[0]); if lex[u].distance < lex[v].distance { assert(!lex[u].vertex_indices.contains(v)); } l_opt_lex(lab(wm, vs.skip(1), es.skip(1)), lex[u], lex[v], wm[es[0]], v); } }
// a walk to the root that is as light as possible: every part of it is
pub open spec fn tight(t: SPTree, v: int, vs: Seq<int>, es: Seq<int>) -> bool { live(t, v) && ww(t._g, vs, es, v, t._source) && wsum(t._weight_map, es) == t.hp[nod(t, v)]._weight }
proof fn l_tight(t: SPTree, v: int, vs: Seq<int>, es: Seq<int>) requires tsk(t), tight(t, v, vs, es), es.len() > 0 ensures tight(t, vs[1], vs.skip(1), es.skip(1)), t.hp[nod(t, vs[1])]._weight < t.hp[nod(t, v)]._weight
{ let g = t._g; let wm = t._weight_map; let s = t._source; l_ww_tail(g, vs, es, v, s); let u = vs[1]; let e = es[0]; let us = vs.skip(1); let fs = es.skip(1); l_ww_rev(g, us, fs, u, s); l_tv(t, u); assert(conned(g, s, u)); assert(live(t, u)); l_troot(t);
  assert(es =~= seq![e] + fs); l_wcons(wm, e, fs); assert(wm[e] > 0real); l_rp(t, u); l_rp_w(t); l_wsum_rev(wm, fs); assert(wsum(wm, rpe(t, u)) == t.hp[nod(t, u)]._weight); assert(t.hp[nod(t, u)]._weight <= wsum(wm, fs.reverse()));
  l_ww_cons(g, rpv(t, u), rpe(t, u), u, s, e, v); let ps = seq![e] + rpe(t, u); l_ww_rev(g, seq![v] + rpv(t, u), ps, v, s); l_wsum_rev(wm, ps); l_wcons(wm, e, rpe(t, u)); l_tv(t, v); assert(t.hp[nod(t, v)]._weight <= wsum(wm, ps.reverse())); }
proof fn l_below(t: SPTree, v: int, vs: Seq<int>, es: Seq<int>) requires tsk(t), tight(t, v, vs, es) ensures forall|i: int| 0 < i < vs.len() ==> t.hp[nod(t, #[trigger] vs[i])]._weight < t.hp[nod(t, v)]._weight, vs.no_duplicates() decreases es.len()
{ if es.len() > 0 { l_tight(t, v, vs, es); let us = vs.skip(1); l_below(t, vs[1], us, es.skip(1));
    assert forall|i: int| 0 < i < vs.len() implies t.hp[nod(t, #[trigger] vs[i])]._weight < t.hp[nod(t, v)]._weight by { if i > 1 { assert(vs[i] == us[i - 1]); } }
    assert forall|i: int, j: int| 0 <= i < j < vs.len() implies vs[i] != vs[j] by { if i > 0 { assert(vs[i] == us[i - 1] && vs[j] == us[j - 1]); } } } }
proof fn l_head(t: SPTree, v: int, vs: Seq<int>, es: Seq<int>, us: Seq<int>, fs: Seq<int>) requires tsk(t), tight(t, v, vs, es), tight(t, v, us, fs), vs.to_set() == us.to_set(), us.len() > 1
  ensures vs.len() > 1, t.hp[nod(t, us[1])]._weight <= t.hp[nod(t, vs[1])]._weight, us[1] == vs[1] || t.hp[nod(t, us[1])]._weight < t.hp[nod(t, vs[1])]._weight, forall|x: int| #[trigger] vs.skip(1).to_set().contains(x) ==> vs.to_set().contains(x) && x != v, forall|x: int| vs.to_set().contains(x) && x != v ==> #[trigger] vs.skip(1).to_set().contains(x)
{ l_below(t, v, vs, es); l_below(t, v, us, fs); let q = us[1]; assert(us.to_set().contains(q)); assert(vs.contains(q)); let i = choose|i: int| 0 <= i < vs.len() && vs[i] == q; assert(i > 0); l_tight(t, v, vs, es); let ws = vs.skip(1); l_below(t, vs[1], ws, es.skip(1)); if i > 1 { assert(ws[i - 1] == q); }
  assert forall|x: int| #[trigger] ws.to_set().contains(x) implies vs.to_set().contains(x) && x != v by { let k = choose|k: int| 0 <= k < ws.len() && ws[k] == x; assert(vs[k + 1] == x); }
  assert forall|x: int| vs.to_set().contains(x) && x != v implies #[trigger] ws.to_set().contains(x) by { let k = choose|k: int| 0 <= k < vs.len() && vs[k] == x; assert(ws[k - 1] == x); } }
proof fn l_same(t: SPTree, v: int, vs: Seq<int>, es: Seq<int>, us: Seq<int>, fs: Seq<int>) requires tsk(t), simple(t._g), tight(t, v, vs, es), tight(t, v, us, fs), vs.to_set() == us.to_set() ensures vs == us, es == fs decreases es.len()
{ if us.len() > 1 { l_head(t, v, vs, es, us, fs); } if vs.len() > 1 { l_head(t, v, us, fs, vs, es); l_tight(t, v, vs, es); l_tight(t, v, us, fs); let a = vs.skip(1); let b = us.skip(1); assert(vs[1] == us[1]); assert(a.to_set() =~= b.to_set());
    l_same(t, vs[1], a, es.skip(1), b, fs.skip(1)); assert(joins(t._g, es[0], vs[0], vs[1]) && joins(t._g, fs[0], us[0], us[1])); assert(es[0] == fs[0]); assert(vs =~= seq![v] + a); assert(us =~= seq![v] + b); assert(es =~= seq![es[0]] + es.skip(1)); assert(fs =~= seq![es[0]] + fs.skip(1)); }
  else { assert(vs =~= seq![v]); assert(us =~= seq![v]); assert(es =~= fs); } }
proof fn l_revset(vs: Seq<int>) ensures vs.reverse().to_set() == vs.to_set(), vs.no_duplicates() ==> vs.reverse().no_duplicates()
{ let q = vs.reverse(); assert forall|x: int| q.to_set().contains(x) <==> vs.to_set().contains(x) by { if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(vs[q.len() - 1 - i] == x); } if vs.contains(x) { let i = choose|i: int| 0 <= i < vs.len() && vs[i] == x; assert(q[q.len() - 1 - i] == x); } } assert(q.to_set() =~= vs.to_set()); }
// C12: the path from u to v in one tree is the path from v to u in the other, reversed
proof fn l_c12_rev(a: SPTree, b: SPTree) requires tsk(a), tsk(b), a._g == b._g, a._weight_map == b._weight_map, simple(a._g), live(a, b._source)
  ensures live(b, a._source), rpv(a, b._source) == rpv(b, a._source).reverse(), rpe(a, b._source) == rpe(b, a._source).reverse()
{ let g = a._g; let wm = a._weight_map; let s = a._source; let v = b._source; l_troot(a); l_troot(b); l_rp(a, v); let P = rpv(a, v); let E = rpe(a, v); assert(ww(g, P, E, v, s)); l_tv(b, s); assert(conned(g, v, s)); assert(live(b, s)); l_rp(b, s); let Q = rpv(b, s); let F = rpe(b, s);
  let la = choose|lex: Seq<LexDistance>| #[trigger] tlx(a, lex); let lb = choose|lex: Seq<LexDistance>| #[trigger] tlx(b, lex); assert(tlx(a, la) && tlx(b, lb)) by { reveal(tsk); let x = choose|lex: Seq<LexDistance>| #[trigger] lfin(g, wm, s, lex, tpred(a)); assert(tlx(a, x)); let y = choose|lex: Seq<LexDistance>| #[trigger] lfin(g, wm, v, lex, tpred(b)); assert(tlx(b, y)); }
  l_tlab(a, la); l_tlab(b, lb); assert(tlab(a, la, v)); assert(tlab(b, lb, s)); l_rp_w(a); l_rp_w(b); assert(wsum(wm, E) == a.hp[nod(a, v)]._weight); assert(wsum(wm, F) == b.hp[nod(b, s)]._weight); assert(tight(a, v, P, E)); assert(tight(b, s, Q, F)); l_below(a, v, P, E); l_below(b, s, Q, F);
  l_ww_rev(g, P, E, v, s); l_ww_rev(g, Q, F, s, v); l_revset(P); l_revset(Q); l_wsum_rev(wm, E); l_wsum_rev(wm, F); l_opt(a, la, v, Q.reverse(), F.reverse()); l_opt(b, lb, s, P.reverse(), E.reverse());
  assert(lab(wm, Q.reverse(), F.reverse()) == lab(wm, Q, F)); assert(lab(wm, P.reverse(), E.reverse()) == lab(wm, P, E)); l_lex_total(lab(wm, P, E), lab(wm, Q, F)); l_same(a, v, P, E, Q.reverse(), F.reverse()); }
// the path of a vertex on a path is the rest of it
proof fn l_suffix(t: SPTree, v: int, i: int) requires tsk(t), live(t, v), 0 <= i < rpv(t, v).len() ensures live(t, rpv(t, v)[i]), rpv(t, rpv(t, v)[i]) == rpv(t, v).skip(i), rpe(t, rpv(t, v)[i]) == rpe(t, v).skip(i) decreases i
{ l_rp(t, v); if i == 0 { assert(rpv(t, v).skip(0) =~= rpv(t, v)); assert(rpe(t, v).skip(0) =~= rpe(t, v)); assert(rpv(t, v)[0] == v); } else { let p = parent(t, nod(t, v)); l_suffix(t, p, i - 1); assert(rpv(t, v)[i] == rpv(t, p)[i - 1]); assert(rpv(t, p).skip(i - 1) =~= rpv(t, v).skip(i)); assert(rpe(t, p).skip(i - 1) =~= rpe(t, v).skip(i)); } }
// C12: every part of the path of a tree, from its i-th to its j-th vertex, is the path of the tree of its last vertex
proof fn l_c12_sub(t: SPTree, a: SPTree, b: SPTree, v: int, i: int, j: int) requires tsk(t), tsk(a), tsk(b), a._g == t._g, b._g == t._g, a._weight_map == t._weight_map, b._weight_map == t._weight_map, simple(t._g), live(t, v), 0 <= i <= j < rpv(t, v).len(), a._source == rpv(t, v)[i], b._source == rpv(t, v)[j]
  ensures live(b, a._source), rpv(b, a._source) == rpv(t, v).subrange(i, j + 1), rpe(b, a._source) == rpe(t, v).subrange(i, j)
{ let P = rpv(t, v); let E = rpe(t, v); l_rp(t, v); let x = P[i]; let y = P[j]; l_suffix(t, v, i); let A = P.skip(i); let C = E.skip(i); l_c12_rev(t, a); let R = rpv(a, t._source); let S = rpe(a, t._source); assert(R =~= A.reverse()) by { assert(A.reverse() == R.reverse().reverse()); assert(R.reverse().reverse() =~= R); } assert(S =~= C.reverse()) by { assert(C.reverse() == S.reverse().reverse()); assert(S.reverse().reverse() =~= S); }
  let k = A.len() - 1 - (j - i); assert(R[k] == A[j - i]); assert(A[j - i] == y); l_suffix(a, t._source, k); l_c12_rev(a, b); let U = rpv(b, x); let W = rpe(b, x);
  assert(U =~= R.skip(k).reverse()) by { assert(rpv(a, y).reverse() == U.reverse().reverse()); assert(U.reverse().reverse() =~= U); } assert(W =~= S.skip(k).reverse()) by { assert(rpe(a, y).reverse() == W.reverse().reverse()); assert(W.reverse().reverse() =~= W); }
  assert(U =~= P.subrange(i, j + 1)); assert(W =~= E.subrange(i, j)); }
// ---- C14: a candidate stands for a simple cycle through the root: two root paths that share the root only, and an edge that is not in the tree
pub open spec fn genuine(t: SPTree, e: int) -> bool { let (vs, es) = cwalk(t, e);
  ends_live(t, e) && !tedge(t, t._g.n, e) && cyc(t._g, vs.drop_last(), es) && vs.drop_last().contains(t._source) && es.to_set() == cl(t, e).to_set() && cl(t, e).no_duplicates() && wsum(t._weight_map, es) == cand_w(t, e) && cand_w(t, e) == wsum(t._weight_map, cl(t, e)) }
proof fn l_last_at(t: SPTree, u: int, x: int) requires tsk(t), live(t, u), rpv(t, u).contains(x), x != t._source ensures u != t._source, rpe(t, x).len() > 0, rpe(t, u).len() > 0, rpe(t, u).last() == rpe(t, x).last()
{ l_rp(t, u); let i = choose|i: int| 0 <= i < rpv(t, u).len() && rpv(t, u)[i] == x; l_suffix(t, u, i); l_rp(t, x); if u == t._source { assert(rpv(t, u)[0] == u); } }
proof fn l_common(t: SPTree, u: int, v: int, x: int) requires tsk(t), first_ok(t), live(t, u), live(t, v), t._first_in_path[u] != t._first_in_path[v], rpv(t, u).contains(x), rpv(t, v).contains(x) ensures x == t._source
{ if x != t._source { l_last_at(t, u, x); l_last_at(t, v, x); l_first(t); assert(first_edge(t, u) && first_edge(t, v)); let a = t._first_in_path[u]; let b = t._first_in_path[v]; l_tv(t, a); l_tv(t, b); l_nodef(t, nod(t, a)); l_nodef(t, nod(t, b)); assert(false); } }
proof fn l_rp_nd(t: SPTree, u: int) requires tsk(t), live(t, u) ensures rpv(t, u).no_duplicates(), rpv(t, u).len() == rpe(t, u).len() + 1, rpv(t, u)[0] == u, rpv(t, u).last() == t._source, forall|i: int| 0 <= i < rpe(t, u).len() ==> joins(t._g, #[trigger] rpe(t, u)[i], rpv(t, u)[i], rpv(t, u)[i + 1]) && tedge(t, t._g.n, rpe(t, u)[i])
{ l_rp(t, u); l_rp_w(t); assert(wsum(t._weight_map, rpe(t, u)) == t.hp[nod(t, u)]._weight); l_below(t, u, rpv(t, u), rpe(t, u)); let A = rpe(t, u); let V = rpv(t, u); l_troot(t);
  assert forall|i: int| 0 <= i < A.len() implies joins(t._g, #[trigger] A[i], V[i], V[i + 1]) && tedge(t, t._g.n, A[i]) by { assert(rstep(t, V, A, i)); assert(tedge_at(t, V[i], A[i])); l_suffix(t, u, i); assert(live(t, V[i])); } }
proof fn l_cl_nd(t: SPTree, e: int) requires tsk(t), first_ok(t), no_loops(t._g), iscand(t, e) ensures ends_live(t, e), cl(t, e).no_duplicates()
{ let g = t._g; let u = g.ends[e].0; let v = g.ends[e].1; l_troot(t); assert(vid(g, u) && vid(g, v)) by { assert(eid(g, e)); } l_rp_nd(t, u); l_rp_nd(t, v); let A = rpe(t, u); let B = rpe(t, v); let P = rpv(t, u); let Q = rpv(t, v); let L = cl(t, e); let a = A.len() as int; let b = B.len() as int;
  assert forall|i: int, j: int| 0 <= i < a && 0 <= j < b implies A[i] != B[j] by { if A[i] == B[j] { assert(joins(g, A[i], P[i], P[i + 1]) && joins(g, B[j], Q[j], Q[j + 1])); assert(Q.contains(Q[j]) && Q.contains(Q[j + 1])); assert(P.contains(P[i]) && P.contains(P[i + 1])); l_common(t, u, v, P[i]); l_common(t, u, v, P[i + 1]); assert(eid(g, A[i])); } }
  assert forall|i: int, j: int| 0 <= i < j < a implies A[i] != A[j] by { if A[i] == A[j] { assert(joins(g, A[i], P[i], P[i + 1]) && joins(g, A[j], P[j], P[j + 1])); assert(P[i] != P[j] && P[i] != P[j + 1]); } }
  assert forall|i: int, j: int| 0 <= i < j < b implies B[i] != B[j] by { if B[i] == B[j] { assert(joins(g, B[i], Q[i], Q[i + 1]) && joins(g, B[j], Q[j], Q[j + 1])); assert(Q[i] != Q[j] && Q[i] != Q[j + 1]); } }
  assert forall|i: int, j: int| 0 <= i < j < L.len() implies L[i] != L[j] by { if i == 0 { if j <= a { assert(L[j] == A[j - 1]); } else { assert(L[j] == B[j - 1 - a]); } } else if j <= a { assert(L[i] == A[i - 1] && L[j] == A[j - 1]); } else if i <= a { assert(L[i] == A[i - 1] && L[j] == B[j - 1 - a]); } else { assert(L[i] == B[i - 1 - a] && L[j] == B[j - 1 - a]); } } }
proof fn l_cv_nd(t: SPTree, e: int) requires tsk(t), first_ok(t), iscand(t, e), ends_live(t, e) ensures cwalk(t, e).0.drop_last().no_duplicates(), cwalk(t, e).0.drop_last().contains(t._source)
{ let g = t._g; let u = g.ends[e].0; let v = g.ends[e].1; l_rp_nd(t, u); l_rp_nd(t, v); let P = rpv(t, u); let Q = rpv(t, v); let s = t._source; let W = cwalk(t, e).0; let X = W.drop_last(); let a = P.len() as int; let b = Q.len() as int; let R = P.reverse(); assert(W.len() == a + b);
  assert forall|i: int| 0 <= i < a + b - 1 implies X[i] == (if i == 0 { P[0] } else if i <= b { Q[i - 1] } else { P[a - 1 - (i - b)] }) by { if i > b { assert(W[i] == R.skip(1)[i - 1 - b]); assert(R[i - b] == P[a - 1 - (i - b)]); } }
  assert forall|p: int, q: int| 0 <= p < a && 0 <= q < b && P[p] == Q[q] implies p == a - 1 && q == b - 1 by { assert(P.contains(P[p]) && Q.contains(Q[q])); l_common(t, u, v, P[p]); assert(P[a - 1] == s && Q[b - 1] == s); }
  assert forall|i: int, j: int| 0 <= i < j < X.len() implies X[i] != X[j] by { if X[i] == X[j] { if i == 0 { if j <= b { assert(P[0] == Q[j - 1]); assert(false); } else { assert(P[0] == P[a - 1 - (j - b)]); assert(false); } } else if j <= b { assert(Q[i - 1] == Q[j - 1]); assert(false); } else if i <= b { assert(Q[i - 1] == P[a - 1 - (j - b)]); assert(false); } else { assert(P[a - 1 - (i - b)] == P[a - 1 - (j - b)]); assert(false); } } }
  if a == 1 { assert(X[0] == s); } else { assert(X[b] == Q[b - 1]); } }
proof fn l_c14(t: SPTree, e: int) requires tsk(t), first_ok(t), no_loops(t._g), iscand(t, e) ensures genuine(t, e)
{ let g = t._g; let u = g.ends[e].0; l_cl_nd(t, e); l_cv_nd(t, e); l_cwalk(t, Set::empty(), e); let (W, es) = cwalk(t, e); let X = W.drop_last(); let k = es.len() as int; assert(X.len() == k); assert(W.last() == u && W[0] == u);
  assert forall|i: int| 0 <= i < X.len() implies joins(g, #[trigger] es[i], X[i], X[nx(i, X.len() as int)]) by { assert(joins(g, es[i], W[i], W[i + 1])); if i + 1 == k { assert(W[k] == W.last()); } } }
pub open spec fn sound_c(t: SPTree, out: Seq<CandidateCycle>) -> bool { forall|i: int| 0 <= i < out.len() ==> genuine(t, (#[trigger] out[i])._e.id) && out[i]._weight == wsum(t._weight_map, cwalk(t, out[i]._e.id).1) && out[i]._tree == t._id && out[i]._e == edge_of(t._g, out[i]._e.id) }
proof fn l_c14_all(t: SPTree, out: Seq<CandidateCycle>, k: int) requires tsk(t), cands(t, out, k) ensures first_ok(t) && no_loops(t._g) ==> sound_c(t, out)
{ reveal(cands); if first_ok(t) && no_loops(t._g) { assert forall|i: int| 0 <= i < out.len() implies genuine(t, (#[trigger] out[i])._e.id) && out[i]._weight == wsum(t._weight_map, cwalk(t, out[i]._e.id).1) && out[i]._tree == t._id && out[i]._e == edge_of(t._g, out[i]._e.id) by { assert(cand_of(t, out[i])); l_c14(t, out[i]._e.id); } } }
