// ---- the path from a vertex to the root of a tree
pub open spec fn rstep(t: SPTree, vs: Seq<int>, es: Seq<int>, i: int) -> bool { let c = nod(t, vs[i]); c != -1 && t.hp[c]._has_pred && t.hp[c]._pred.id == es[i] }
pub open spec fn rpath(t: SPTree, v: int, vs: Seq<int>, es: Seq<int>) -> bool { ww(t._g, vs, es, v, t._source) && forall|i: int| 0 <= i < es.len() ==> #[trigger] rstep(t, vs, es, i) }
pub open spec fn rp(t: SPTree, v: int) -> (Seq<int>, Seq<int>) { let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] rpath(t, v, vs, es); (vs, es) }
#[verifier::opaque]
pub open spec fn rpv(t: SPTree, v: int) -> Seq<int> { rp(t, v).0 }
#[verifier::opaque]
pub open spec fn rpe(t: SPTree, v: int) -> Seq<int> { rp(t, v).1 }
pub open spec fn haspath(t: SPTree, v: int) -> bool { exists|vs: Seq<int>, es: Seq<int>| #[trigger] rpath(t, v, vs, es) }
pub open spec fn live(t: SPTree, v: int) -> bool { vid(t._g, v) && nod(t, v) != -1 }
proof fn l_ww_cons(g: G, vs: Seq<int>, es: Seq<int>, s: int, t: int, e: int, u: int) requires ww(g, vs, es, s, t), joins(g, e, u, s), vid(g, u) ensures ww(g, seq![u] + vs, seq![e] + es, u, t)
{ let us = seq![u] + vs; let fs = seq![e] + es; assert(us.last() == vs.last()); assert forall|i: int| 0 <= i < fs.len() implies joins(g, #[trigger] fs[i], us[i], us[i + 1]) && vid(g, us[i + 1]) by { if i > 0 { let j = i - 1; assert(fs[i] == es[j]); assert(joins(g, es[j], vs[j], vs[j + 1])); assert(us[i] == vs[j] && us[i + 1] == vs[j + 1]); } else { assert(us[1] == vs[0]); } } }
proof fn l_ww_tail(g: G, vs: Seq<int>, es: Seq<int>, s: int, t: int) requires ww(g, vs, es, s, t), es.len() > 0 ensures ww(g, vs.skip(1), es.skip(1), vs[1], t), vid(g, vs[1]), joins(g, es[0], s, vs[1])
{ let us = vs.skip(1); let fs = es.skip(1); assert(joins(g, es[0], vs[0], vs[1]) && vid(g, vs[1])); assert(us.last() == vs.last()); assert forall|i: int| 0 <= i < fs.len() implies joins(g, #[trigger] fs[i], us[i], us[i + 1]) && vid(g, us[i + 1]) by { let j = i + 1; assert(fs[i] == es[j]); assert(joins(g, es[j], vs[j], vs[j + 1]) && vid(g, vs[j + 1])); assert(us[i] == vs[j] && us[i + 1] == vs[j + 1]); } }
proof fn l_rp_cons(t: SPTree, c: int, vs: Seq<int>, es: Seq<int>) requires tsk(t), 0 <= c < t.hp.len(), t.hp[c]._has_pred, rpath(t, parent(t, c), vs, es) ensures rpath(t, t.hp[c]._vertex, seq![t.hp[c]._vertex] + vs, seq![t.hp[c]._pred.id] + es)
{ l_nodef(t, c); let v = t.hp[c]._vertex; let e = t.hp[c]._pred.id; l_ww_cons(t._g, vs, es, parent(t, c), t._source, e, v); let us = seq![v] + vs; let fs = seq![e] + es;
  assert forall|i: int| 0 <= i < fs.len() implies #[trigger] rstep(t, us, fs, i) by { if i > 0 { assert(rstep(t, vs, es, i - 1)); assert(us[i] == vs[i - 1] && fs[i] == es[i - 1]); } } }
proof fn l_rp_ex(t: SPTree) requires tsk(t) ensures forall|c: int| 0 <= c < t.hp.len() ==> haspath(t, #[trigger] t.hp[c]._vertex)
{ let P = |c: int| haspath(t, t.hp[c]._vertex); l_troot(t); let s = t._source; assert(rpath(t, s, seq![s], Seq::<int>::empty())); assert(P(t._root));
  assert forall|c: int| 0 <= c < t.hp.len() && t.hp[c]._has_pred && P(nod(t, parent(t, c))) implies #[trigger] P(c) by { l_nodef(t, c); let p = parent(t, c); let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] rpath(t, p, vs, es); l_rp_cons(t, c, vs, es); }
  l_tree_ind(t, P); assert forall|c: int| 0 <= c < t.hp.len() implies haspath(t, #[trigger] t.hp[c]._vertex) by { assert(P(c)); } }
proof fn l_rp_uniq(t: SPTree, v: int, vs: Seq<int>, es: Seq<int>, us: Seq<int>, fs: Seq<int>) requires tsk(t), rpath(t, v, vs, es), rpath(t, v, us, fs) ensures vs == us, es == fs decreases es.len()
{ l_troot(t); assert(!(v == t._source && es.len() > 0)) by { if es.len() > 0 { assert(rstep(t, vs, es, 0)); } } assert(!(v == t._source && fs.len() > 0)) by { if fs.len() > 0 { assert(rstep(t, us, fs, 0)); } }
  if v == t._source { assert(vs =~= us); assert(es =~= fs); } else { assert(es.len() > 0 && fs.len() > 0); assert(rstep(t, vs, es, 0) && rstep(t, us, fs, 0)); l_ww_tail(t._g, vs, es, v, t._source); l_ww_tail(t._g, us, fs, v, t._source);
    assert(es[0] == fs[0]); assert(vs[1] == us[1]); let a = vs.skip(1); let b = es.skip(1); let p = us.skip(1); let q = fs.skip(1);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] rstep(t, a, b, i) by { assert(rstep(t, vs, es, i + 1)); } assert forall|i: int| 0 <= i < q.len() implies #[trigger] rstep(t, p, q, i) by { assert(rstep(t, us, fs, i + 1)); }
    l_rp_uniq(t, vs[1], a, b, p, q); assert(vs =~= seq![v] + a); assert(us =~= seq![v] + p); assert(es =~= seq![es[0]] + b); assert(fs =~= seq![es[0]] + q); } }
proof fn l_rp(t: SPTree, v: int) requires tsk(t), live(t, v)
  ensures rpath(t, v, rpv(t, v), rpe(t, v)), 0 <= nod(t, v) < t.hp.len(), t.hp[nod(t, v)]._vertex == v, nodef(t, nod(t, v)), v == t._source <==> rpe(t, v).len() == 0,
    v != t._source ==> ({ let c = nod(t, v); t.hp[c]._has_pred && live(t, parent(t, c)) && rpe(t, v) == seq![t.hp[c]._pred.id] + rpe(t, parent(t, c)) && rpv(t, v) == seq![v] + rpv(t, parent(t, c)) })
{ reveal(rpv); reveal(rpe); l_rp_ex(t); l_tv(t, v); let c = nod(t, v); l_nodef(t, c); assert(haspath(t, t.hp[c]._vertex)); assert(rpath(t, v, rpv(t, v), rpe(t, v))); l_troot(t);
  if v == t._source { if rpe(t, v).len() > 0 { assert(rstep(t, rpv(t, v), rpe(t, v), 0)); } } else { let p = parent(t, c); l_tv(t, p); let d = nod(t, p); assert(haspath(t, t.hp[d]._vertex)); l_rp_cons(t, c, rpv(t, p), rpe(t, p)); l_rp_uniq(t, v, rpv(t, v), rpe(t, v), seq![v] + rpv(t, p), seq![t.hp[c]._pred.id] + rpe(t, p)); } }
proof fn l_w1(wm: Seq<real>, e: int) ensures wsum(wm, seq![e]) == wm[e] { assert(seq![e].drop_last() =~= Seq::<int>::empty()); assert(wsum(wm, Seq::<int>::empty()) == 0real); }
proof fn l_p1(S: Set<int>, e: int) ensures par(S, seq![e], 1) == S.contains(e) { reveal_with_fuel(par, 2); }
// facts that hold along the tree
proof fn l_tree_v(t: SPTree, P: spec_fn(int) -> bool) requires tsk(t), P(t._source), forall|v: int| live(t, v) && v != t._source && P(parent(t, nod(t, v))) ==> #[trigger] P(v) ensures forall|v: int| live(t, v) ==> #[trigger] P(v)
{ let Q = |c: int| P(t.hp[c]._vertex); l_troot(t);
  assert forall|c: int| 0 <= c < t.hp.len() && t.hp[c]._has_pred && Q(nod(t, parent(t, c))) implies #[trigger] Q(c) by { l_nodef(t, c); let v = t.hp[c]._vertex; assert(live(t, v)); assert(P(v)); }
  l_tree_ind(t, Q); assert forall|v: int| live(t, v) implies #[trigger] P(v) by { l_tv(t, v); assert(Q(nod(t, v))); } }
proof fn l_rp_w(t: SPTree) requires tsk(t) ensures forall|v: int| live(t, v) ==> #[trigger] wsum(t._weight_map, rpe(t, v)) == t.hp[nod(t, v)]._weight
{ let wm = t._weight_map; let P = |v: int| wsum(wm, rpe(t, v)) == t.hp[nod(t, v)]._weight; l_troot(t); assert(live(t, t._source)); l_rp(t, t._source); assert(P(t._source));
  assert forall|v: int| live(t, v) && v != t._source && P(parent(t, nod(t, v))) implies #[trigger] P(v) by { l_rp(t, v); let c = nod(t, v); let e = t.hp[c]._pred.id; l_wsum_cat(wm, seq![e], rpe(t, parent(t, c))); l_w1(wm, e); }
  l_tree_v(t, P); assert forall|v: int| live(t, v) implies #[trigger] wsum(wm, rpe(t, v)) == t.hp[nod(t, v)]._weight by { assert(P(v)); } }
pub open spec fn parv(S: Set<int>, es: Seq<int>) -> bool { par(S, es, es.len() as int) }
proof fn l_rp_par(t: SPTree, S: Set<int>) requires tsk(t), par_ok(t, S) ensures forall|v: int| live(t, v) ==> #[trigger] parv(S, rpe(t, v)) == t.hp[nod(t, v)]._parity
{ reveal(par_ok); let P = |v: int| parv(S, rpe(t, v)) == t.hp[nod(t, v)]._parity; l_troot(t); assert(live(t, t._source)); l_rp(t, t._source); assert(par_at(t, S, t._root)); assert(P(t._source));
  assert forall|v: int| live(t, v) && v != t._source && P(parent(t, nod(t, v))) implies #[trigger] P(v) by { l_rp(t, v); let c = nod(t, v); let e = t.hp[c]._pred.id; l_par_cat(S, seq![e], rpe(t, parent(t, c))); l_p1(S, e); assert(par_at(t, S, c)); }
  l_tree_v(t, P); assert forall|v: int| live(t, v) implies #[trigger] parv(S, rpe(t, v)) == t.hp[nod(t, v)]._parity by { assert(P(v)); } }
// the last edge of the path is the one to the first vertex
pub open spec fn first_edge(t: SPTree, v: int) -> bool { let f = t._first_in_path[v]; if v == t._source { f == v } else { live(t, f) && f != t._source && t.hp[nod(t, f)]._has_pred && parent(t, nod(t, f)) == t._source && rpe(t, v).last() == t.hp[nod(t, f)]._pred.id && rpv(t, v).contains(f) } }
proof fn l_first(t: SPTree) requires tsk(t), first_ok(t) ensures forall|v: int| live(t, v) ==> #[trigger] first_edge(t, v)
{ reveal(first_ok); let P = |v: int| first_edge(t, v); l_troot(t); assert(first_at(t, t._root)); assert(P(t._source));
  assert forall|v: int| live(t, v) && v != t._source && P(parent(t, nod(t, v))) implies #[trigger] P(v) by { l_rp(t, v); let c = nod(t, v); let p = parent(t, c); assert(first_at(t, c)); assert(rpv(t, v)[0] == v); if p == t._source { l_rp(t, p); } else { l_rp(t, p); assert(rpe(t, v).last() == rpe(t, p).last()); let f = t._first_in_path[p]; let i = choose|i: int| 0 <= i < rpv(t, p).len() && rpv(t, p)[i] == f; assert(rpv(t, v)[i + 1] == f); } }
  l_tree_v(t, P); assert forall|v: int| live(t, v) implies #[trigger] first_edge(t, v) by { assert(P(v)); } }
// ---- the cycle of an edge in a tree: the edge and the two paths to the root
pub open spec fn cl(t: SPTree, e: int) -> Seq<int> { seq![e] + rpe(t, t._g.ends[e].0) + rpe(t, t._g.ends[e].1) }
pub open spec fn ends_live(t: SPTree, e: int) -> bool { eid(t._g, e) && live(t, t._g.ends[e].0) && live(t, t._g.ends[e].1) }
pub open spec fn good(t: SPTree, S: Set<int>, e: int) -> bool { ends_live(t, e) && parv(S, cl(t, e)) && cl(t, e).no_duplicates() }
// as a closed walk
pub open spec fn cwalk(t: SPTree, e: int) -> (Seq<int>, Seq<int>) { let u = t._g.ends[e].0; let v = t._g.ends[e].1; (seq![u] + rpv(t, v) + rpv(t, u).reverse().skip(1), seq![e] + rpe(t, v) + rpe(t, u).reverse()) }
proof fn l_par_rev(S: Set<int>, L: Seq<int>) ensures parv(S, L.reverse()) == parv(S, L) decreases L.len()
{ if L.len() > 0 { let P = L.drop_last(); l_par_rev(S, P); assert(L.reverse() =~= seq![L.last()] + P.reverse()); l_par_cat(S, seq![L.last()], P.reverse()); l_p1(S, L.last()); assert(L =~= P + seq![L.last()]); l_par_cat(S, P, seq![L.last()]); } else { assert(L.reverse() =~= L); } }
proof fn l_wsum_rev(wm: Seq<real>, L: Seq<int>) ensures wsum(wm, L.reverse()) == wsum(wm, L) decreases L.len()
{ if L.len() > 0 { let P = L.drop_last(); l_wsum_rev(wm, P); assert(L.reverse() =~= seq![L.last()] + P.reverse()); l_wsum_cat(wm, seq![L.last()], P.reverse()); l_w1(wm, L.last()); } else { assert(L.reverse() =~= L); } }
proof fn l_cwalk(t: SPTree, S: Set<int>, e: int) requires tsk(t), ends_live(t, e)
  ensures ({ let (vs, es) = cwalk(t, e); let u = t._g.ends[e].0; ww(t._g, vs, es, u, u) && parv(S, es) == parv(S, cl(t, e)) && wsum(t._weight_map, es) == wsum(t._weight_map, cl(t, e)) && es.to_set() == cl(t, e).to_set() && (es.no_duplicates() <==> cl(t, e).no_duplicates()) && wsum(t._weight_map, cl(t, e)) == cand_w(t, e)
    && parv(S, cl(t, e)) == (S.contains(e) != (parv(S, rpe(t, u)) != parv(S, rpe(t, t._g.ends[e].1)))) })
{ let g = t._g; let wm = t._weight_map; let u = g.ends[e].0; let v = g.ends[e].1; let s = t._source; l_rp(t, u); l_rp(t, v); let A = rpe(t, u); let B = rpe(t, v); let R = A.reverse(); let H = seq![e];
  l_ww_cons(g, rpv(t, v), B, v, s, e, u); l_ww_rev(g, rpv(t, u), A, u, s); l_ww_cat(g, seq![u] + rpv(t, v), H + B, u, s, rpv(t, u).reverse(), R, u);
  l_par_cat(S, H + B, R); l_par_cat(S, H, B); l_par_rev(S, A); l_par_cat(S, H + A, B); l_par_cat(S, H, A); l_p1(S, e);
  l_wsum_cat(wm, H + B, R); l_wsum_cat(wm, H, B); l_wsum_rev(wm, A); l_wsum_cat(wm, H + A, B); l_wsum_cat(wm, H, A); l_w1(wm, e); l_rp_w(t); assert(wsum(wm, A) == t.hp[nod(t, u)]._weight); assert(wsum(wm, B) == t.hp[nod(t, v)]._weight);
  let L = cl(t, e); let M = cwalk(t, e).1; l_perm_set(H, A, B); }
// the same elements in another order
proof fn l_perm_set(H: Seq<int>, A: Seq<int>, B: Seq<int>) ensures ({ let L = H + A + B; let M = H + B + A.reverse(); M.to_set() == L.to_set() && (M.no_duplicates() <==> L.no_duplicates()) })
{ let L = H + A + B; let M = H + B + A.reverse(); let h = H.len() as int; let a = A.len() as int; let b = B.len() as int;
  let f = |i: int| if i < h { i } else if i < h + a { h + b + (a - 1 - (i - h)) } else { i - a };
  let k = |j: int| if j < h { j } else if j < h + b { j + a } else { h + (a - 1 - (j - h - b)) };
  assert forall|i: int| 0 <= i < L.len() implies 0 <= f(i) < M.len() && M[#[trigger] f(i)] == L[i] && k(f(i)) == i by {}
  assert forall|j: int| 0 <= j < M.len() implies 0 <= k(j) < L.len() && L[#[trigger] k(j)] == M[j] && f(k(j)) == j by {}
  assert forall|x: int| M.to_set().contains(x) <==> L.to_set().contains(x) by { if L.contains(x) { let i = choose|i: int| 0 <= i < L.len() && L[i] == x; assert(M[f(i)] == x); } if M.contains(x) { let j = choose|j: int| 0 <= j < M.len() && M[j] == x; assert(L[k(j)] == x); } } assert(M.to_set() =~= L.to_set());
  if L.no_duplicates() { assert forall|i: int, j: int| 0 <= i < M.len() && 0 <= j < M.len() && i != j implies M[i] != M[j] by { assert(L[k(i)] == M[i] && L[k(j)] == M[j]); assert(f(k(i)) == i && f(k(j)) == j); } }
  if M.no_duplicates() { assert forall|i: int, j: int| 0 <= i < L.len() && 0 <= j < L.len() && i != j implies L[i] != L[j] by { assert(M[f(i)] == L[i] && M[f(j)] == L[j]); assert(k(f(i)) == i && k(f(j)) == j); } } }
// no edge twice: it is a candidate
proof fn l_good_cand(t: SPTree, e: int) requires tsk(t), first_ok(t), no_loops(t._g), ends_live(t, e), cl(t, e).no_duplicates() ensures iscand(t, e)
{ let g = t._g; let u = g.ends[e].0; let v = g.ends[e].1; let s = t._source; l_rp(t, u); l_rp(t, v); l_first(t); assert(first_edge(t, u) && first_edge(t, v)); let A = rpe(t, u); let B = rpe(t, v); let L = cl(t, e); let a = A.len() as int; let b = B.len() as int; assert(u != v) by { assert(eid(g, e)); }
  assert(L.len() == 1 + a + b); assert(L[0] == e);
  if tedge(t, g.n, e) { let x = choose|x: int| 0 <= x < g.n && #[trigger] tedge_at(t, x, e); l_tv(t, x); l_nodef(t, nod(t, x)); assert(joins(g, e, parent(t, nod(t, x)), x)); if x == u { assert(A[0] == e); assert(L[1] == e); } else { assert(x == v); assert(B[0] == e); assert(L[1 + a] == e); } assert(false); }
  if t._first_in_path[u] == t._first_in_path[v] { assert(u != s && v != s); assert(L[a] == A[a - 1]); assert(L[a + b] == B[b - 1]); assert(false); } }
// a minimum odd cycle through the root of a tree is matched by a candidate of the tree
proof fn l_crossing(t: SPTree, S: Set<int>, us: Seq<int>, fs: Seq<int>, k: int) -> (i: int) requires tsk(t), ww(t._g, us, fs, t._source, t._source), 0 <= k <= fs.len(), par(S, fs, k) != parv(S, rpe(t, us[k])) ensures 0 <= i < k, (par(S, fs, i) == parv(S, rpe(t, us[i]))), par(S, fs, i + 1) != parv(S, rpe(t, us[i + 1])) decreases k
{ if k == 0 { l_troot(t); assert(live(t, t._source)); l_rp(t, t._source); assert(false); 0 } else if par(S, fs, k - 1) != parv(S, rpe(t, us[k - 1])) { l_crossing(t, S, us, fs, k - 1) } else { k - 1 } }
proof fn l_ww_take(g: G, vs: Seq<int>, es: Seq<int>, s: int, t: int, k: int) requires ww(g, vs, es, s, t), 0 <= k <= es.len() ensures ww(g, vs.take(k + 1), es.take(k), s, vs[k]), ww(g, vs.skip(k), es.skip(k), vs[k], t)
{ let a = vs.take(k + 1); let b = es.take(k); assert(b.len() == k); assert forall|i: int| 0 <= i < b.len() implies joins(g, #[trigger] b[i], a[i], a[i + 1]) && vid(g, a[i + 1]) by { let j = i; let x = es[j]; assert(joins(g, x, vs[j], vs[j + 1]) && vid(g, vs[j + 1])); assert(b[i] == es[j]); assert(a[i] == vs[j] && a[i + 1] == vs[j + 1]); }
  l_ww_ids(g, vs, es, s, t); assert(vid(g, vs[k])); let c = vs.skip(k); let d = es.skip(k); assert forall|i: int| 0 <= i < d.len() implies joins(g, #[trigger] d[i], c[i], c[i + 1]) && vid(g, c[i + 1]) by { let j = i + k; assert(joins(g, es[j], vs[j], vs[j + 1]) && vid(g, vs[j + 1])); assert(d[i] == es[j]); } }
proof fn l_reaches(t: SPTree, vs: Seq<int>, es: Seq<int>, v: int) requires tsk(t), ww(t._g, vs, es, t._source, v), vid(t._g, v) ensures live(t, v), t.hp[nod(t, v)]._weight <= wsum(t._weight_map, es) { l_tv(t, v); assert(conned(t._g, t._source, v)); }
proof fn l_matched(t: SPTree, S: Set<int>, D: Set<int>) -> (e: int)
  requires tsk(t), first_ok(t), no_loops(t._g), min_odd(t._g, t._weight_map, S, D, ws(t._weight_map, D, me(t._g))), on(t._g, D, t._source)
  ensures iscand(t, e), good(t, S, e), cand_w(t, e) <= ws(t._weight_map, D, me(t._g))
{ let g = t._g; let wm = t._weight_map; let s = t._source; l_troot(t); let (vs, fs) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] cyc_set(g, vs, es, D) && vs[0] == s; l_cyc_walk(g, vs, fs, D); let us = vs.push(vs[0]); let n = fs.len() as int; l_cyc_rng(g, vs, fs); l_par(S, fs, me(g)); l_ws(wm, fs, me(g)); assert(fs.to_set() =~= D);
  assert(xr(S, D, me(g))) by { reveal(min_odd); } assert(par(S, fs, n)); assert(live(t, s)); l_rp(t, s); assert(us[n] == s); let i = l_crossing(t, S, us, fs, n); let e = fs[i]; let a = us[i]; let b = us[i + 1]; assert(joins(g, fs[i], us[i], us[i + 1])); l_ww_ids(g, us, fs, s, s);
  l_ww_take(g, us, fs, s, s, i); l_ww_take(g, us, fs, s, s, i + 1); let A = fs.take(i); let B = fs.skip(i + 1); l_reaches(t, us.take(i + 1), A, a); l_ww_rev(g, us.skip(i + 1), B, b, s); l_reaches(t, us.skip(i + 1).reverse(), B.reverse(), b); l_wsum_rev(wm, B);
  assert(fs =~= A + seq![e] + B); l_wsum_cat(wm, A + seq![e], B); l_wsum_cat(wm, A, seq![e]); l_w1(wm, e); assert(ends_live(t, e)); assert(cand_w(t, e) <= wsum(wm, fs));
  l_cwalk(t, S, e); assert(par(S, fs, i + 1) == (par(S, fs, i) != S.contains(e))); assert(parv(S, cl(t, e))); let (ws_, es) = cwalk(t, e); l_no_lighter(g, wm, S, D, ws_, es, g.ends[e].0); l_good_cand(t, e); e }
