// ---- signed searches: a shortest odd closed walk is a minimum-weight odd cycle
pub open spec fn sgw(g: G, H: Set<int>, S: Set<int>, s: int, t: int, o: bool, vs: Seq<int>, es: Seq<int>) -> bool {
  ww(g, vs, es, s, t) && (forall|i: int| 0 <= i < es.len() ==> !H.contains(#[trigger] es[i])) && par(S, es, es.len() as int) == o }
pub open spec fn smin(g: G, wm: Seq<real>, H: Set<int>, S: Set<int>, s: int, t: int, o: bool, vs: Seq<int>, es: Seq<int>) -> bool {
  sgw(g, H, S, s, t, o, vs, es) && forall|us: Seq<int>, fs: Seq<int>| #[trigger] sgw(g, H, S, s, t, o, us, fs) ==> wsum(wm, es) <= wsum(wm, fs) }
pub open spec fn bsd_found(g: G, wm: Seq<real>, H: Set<int>, S: Set<int>, s: int, t: int, o: bool, T: Set<int>, W: real) -> bool {
  exists|vs: Seq<int>, es: Seq<int>| #[trigger] smin(g, wm, H, S, s, t, o, vs, es) && es.no_duplicates() && T == es.to_set() && W == wsum(wm, es) }
pub open spec fn bsd_dup(g: G, wm: Seq<real>, H: Set<int>, S: Set<int>, s: int, t: int, o: bool) -> bool {
  exists|vs: Seq<int>, es: Seq<int>| #[trigger] smin(g, wm, H, S, s, t, o, vs, es) && !es.no_duplicates() }
pub open spec fn bsd_none(g: G, wm: Seq<real>, H: Set<int>, S: Set<int>, s: int, t: int, o: bool, ul: bool, lim: real) -> bool {
  forall|vs: Seq<int>, es: Seq<int>| #[trigger] sgw(g, H, S, s, t, o, vs, es) ==> ul && wsum(wm, es) >= lim }
// the answer of the signed search from s to t with parity o, avoiding H, below the limit
#[verifier::opaque]
pub open spec fn bsd_post(g: G, wm: Seq<real>, H: Set<int>, S: Set<int>, s: int, t: int, o: bool, ul: bool, lim: real, T: Set<int>, W: real, f: bool) -> bool {
  if f { bsd_found(g, wm, H, S, s, t, o, T, W) && (ul ==> W < lim) } else { bsd_dup(g, wm, H, S, s, t, o) || bsd_none(g, wm, H, S, s, t, o, ul, lim) } }

proof fn l_par_cat(S: Set<int>, A: Seq<int>, B: Seq<int>) ensures par(S, A + B, (A + B).len() as int) == (par(S, A, A.len() as int) != par(S, B, B.len() as int)) decreases B.len()
{ if B.len() == 0 { assert(A + B =~= A); } else { let C = B.drop_last(); l_par_cat(S, A, C); let n = (A + B).len() as int; assert((A + B).drop_last() =~= A + C); l_par_ext(S, A + B, A + C, n - 1); l_par_ext(S, B, C, B.len() - 1); assert((A + B)[n - 1] == B[B.len() - 1]); } }
proof fn l_wsum_cat(wm: Seq<real>, A: Seq<int>, B: Seq<int>) ensures wsum(wm, A + B) == wsum(wm, A) + wsum(wm, B) decreases B.len()
{ if B.len() == 0 { assert(A + B =~= A); } else { l_wsum_cat(wm, A, B.drop_last()); assert((A + B).drop_last() =~= A + B.drop_last()); assert((A + B).last() == B.last()); } }
proof fn l_wsum_gt(g: G, wm: Seq<real>, es: Seq<int>) requires pos(wm), forall|i: int| 0 <= i < es.len() ==> 0 <= #[trigger] es[i] < wm.len() ensures wsum(wm, es) >= 0real, es.len() > 0 ==> wsum(wm, es) > 0real decreases es.len()
{ if es.len() > 0 { let p = es.drop_last(); assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] p[i] < wm.len() by { assert(p[i] == es[i]); } l_wsum_gt(g, wm, p); assert(wm[es.last()] > 0real); } }
proof fn l_ww_ids(g: G, vs: Seq<int>, es: Seq<int>, s: int, t: int) requires ww(g, vs, es, s, t) ensures forall|i: int| 0 <= i < es.len() ==> 0 <= #[trigger] es[i] < me(g), forall|i: int| 0 <= i < vs.len() ==> vid(g, #[trigger] vs[i])
{ assert forall|i: int| 0 <= i < es.len() implies 0 <= #[trigger] es[i] < me(g) by { assert(joins(g, es[i], vs[i], vs[i + 1])); }
  assert forall|i: int| 0 <= i < vs.len() implies vid(g, #[trigger] vs[i]) by { if i > 0 { let j = i - 1; let e = es[j]; assert(joins(g, es[j], vs[j], vs[j + 1])); assert(vid(g, vs[j + 1])); } } }
// a closed walk without repeated vertices and with an odd number of edges in S is a simple cycle
proof fn l_closed_simple(g: G, S: Set<int>, vs: Seq<int>, es: Seq<int>, v: int)
  requires ww(g, vs, es, v, v), par(S, es, es.len() as int), vs.drop_last().no_duplicates() ensures cyc(g, vs.drop_last(), es)
{ let k = es.len() as int; let us = vs.drop_last();
  assert(k >= 1);
  assert(es.no_duplicates()) by { if !es.no_duplicates() { let (i, j) = choose|i: int, j: int| 0 <= i < k && 0 <= j < k && i != j && es[i] == es[j]; if i < j { l_closed_dup(g, S, vs, es, v, i, j); } else { l_closed_dup(g, S, vs, es, v, j, i); } } }
  assert forall|i: int| 0 <= i < us.len() implies joins(g, #[trigger] es[i], us[i], us[nx(i, us.len() as int)]) by { assert(joins(g, es[i], vs[i], vs[i + 1])); if i + 1 == k { assert(vs[k] == vs[0]); } } }
proof fn l_closed_dup(g: G, S: Set<int>, vs: Seq<int>, es: Seq<int>, v: int, i: int, j: int)
  requires ww(g, vs, es, v, v), par(S, es, es.len() as int), vs.drop_last().no_duplicates(), 0 <= i < j < es.len(), es[i] == es[j] ensures false
{ let k = es.len() as int; let us = vs.drop_last(); assert(joins(g, es[i], vs[i], vs[i + 1])); assert(joins(g, es[j], vs[j], vs[j + 1]));
  assert(us[i] == vs[i] && us[j] == vs[j]); assert(vs[k] == vs[0]); assert(us[0] == vs[0]); if i + 1 < k { assert(us[i + 1] == vs[i + 1]); } if j + 1 < k { assert(us[j + 1] == vs[j + 1]); }
  assert(vs[i] == vs[j + 1]); assert(j + 1 == k && i == 0); assert(vs[i + 1] == vs[j]); assert(i + 1 == j); assert(k == 2);
  reveal_with_fuel(par, 3); assert(par(S, es, 2) == (S.contains(es[0]) != S.contains(es[1]))); }
// a closed walk that visits a vertex twice is two closed walks
proof fn l_split(g: G, wm: Seq<real>, S: Set<int>, vs: Seq<int>, es: Seq<int>, v: int, i: int, j: int)
  requires pos(wm), wm.len() == me(g), ww(g, vs, es, v, v), 0 <= i < j < es.len(), vs[i] == vs[j]
  ensures ({ let k = es.len() as int; let va = vs.subrange(i, j + 1); let vb = vs.subrange(0, i + 1) + vs.subrange(j + 1, k + 1); let A = es.subrange(i, j); let B = es.subrange(0, i) + es.subrange(j, k);
    ww(g, va, A, vs[i], vs[i]) && ww(g, vb, B, v, v) && A.len() < k && B.len() < k && par(S, es, k) == (par(S, A, A.len() as int) != par(S, B, B.len() as int)) && wsum(wm, A) < wsum(wm, es) && wsum(wm, B) < wsum(wm, es) })
{   let k = es.len() as int;
    l_split_sum(g, wm, S, vs, es, v, i, j); l_split_a(g, vs, es, v, i, j); l_split_b(g, vs, es, v, i, j); }
proof fn l_split_sum(g: G, wm: Seq<real>, S: Set<int>, vs: Seq<int>, es: Seq<int>, v: int, i: int, j: int)
  requires pos(wm), wm.len() == me(g), ww(g, vs, es, v, v), 0 <= i < j < es.len()
  ensures ({ let k = es.len() as int; let A = es.subrange(i, j); let B = es.subrange(0, i) + es.subrange(j, k); A.len() < k && B.len() < k && par(S, es, k) == (par(S, A, A.len() as int) != par(S, B, B.len() as int)) && wsum(wm, A) < wsum(wm, es) && wsum(wm, B) < wsum(wm, es) })
{   let k = es.len() as int; let P = es.subrange(0, i); let A = es.subrange(i, j); let Q = es.subrange(j, k); let B = P + Q; l_ww_ids(g, vs, es, v, v);
    assert(es =~= (P + A) + Q); l_par_cat(S, P + A, Q); l_par_cat(S, P, A); l_par_cat(S, P, Q); l_wsum_cat(wm, P + A, Q); l_wsum_cat(wm, P, A); l_wsum_cat(wm, P, Q);
    assert forall|x: int| 0 <= x < A.len() implies 0 <= #[trigger] A[x] < wm.len() by { assert(A[x] == es[i + x]); }
    assert forall|x: int| 0 <= x < B.len() implies 0 <= #[trigger] B[x] < wm.len() by { if x < i { assert(B[x] == es[x]); } else { assert(B[x] == es[x - i + j]); } }
    l_wsum_gt(g, wm, A); l_wsum_gt(g, wm, B); assert(B.len() == k - (j - i)); }
proof fn l_split_a(g: G, vs: Seq<int>, es: Seq<int>, v: int, i: int, j: int)
  requires ww(g, vs, es, v, v), 0 <= i < j < es.len(), vs[i] == vs[j] ensures ww(g, vs.subrange(i, j + 1), es.subrange(i, j), vs[i], vs[i])
{   let A = es.subrange(i, j); let va = vs.subrange(i, j + 1); l_ww_ids(g, vs, es, v, v); assert(vid(g, vs[i]));
    assert forall|x: int| 0 <= x < A.len() implies joins(g, #[trigger] A[x], va[x], va[x + 1]) && vid(g, va[x + 1]) by { let y = i + x; assert(A[x] == es[y]); assert(joins(g, es[y], vs[y], vs[y + 1])); assert(vid(g, vs[y + 1])); assert(va[x] == vs[y] && va[x + 1] == vs[y + 1]); } }
proof fn l_split_b(g: G, vs: Seq<int>, es: Seq<int>, v: int, i: int, j: int)
  requires ww(g, vs, es, v, v), 0 <= i < j < es.len(), vs[i] == vs[j] ensures ww(g, vs.subrange(0, i + 1) + vs.subrange(j + 1, es.len() as int + 1), es.subrange(0, i) + es.subrange(j, es.len() as int), v, v)
{   let k = es.len() as int; let B = es.subrange(0, i) + es.subrange(j, k); let va = vs.subrange(0, i + 1); let vc = vs.subrange(j + 1, k + 1); let vb = va + vc; l_ww_ids(g, vs, es, v, v);
    assert(vb[0] == vs[0]); assert(vb.len() == i + 1 + k - j); assert(vb.last() == vc[k - j - 1]); assert(vc[k - j - 1] == vs[k]);
    assert forall|x: int| 0 <= x < B.len() implies joins(g, #[trigger] B[x], vb[x], vb[x + 1]) && vid(g, vb[x + 1]) by {
        if x < i { assert(B[x] == es[x]); assert(joins(g, es[x], vs[x], vs[x + 1])); assert(vb[x] == vs[x] && vb[x + 1] == vs[x + 1]); assert(vid(g, vs[x + 1])); }
        else { let y = x - i + j; assert(B[x] == es[y]); assert(joins(g, es[y], vs[y], vs[y + 1])); assert(vb[x + 1] == vc[x - i]); assert(vc[x - i] == vs[y + 1]); if x > i { assert(vb[x] == vc[x - i - 1]); assert(vc[x - i - 1] == vs[y]); } else { assert(vb[i] == vs[i]); } assert(vid(g, vs[y + 1])); } } }
// every odd closed walk contains an odd simple cycle, lighter unless it is the walk itself
proof fn l_odd_cycle(g: G, wm: Seq<real>, S: Set<int>, vs: Seq<int>, es: Seq<int>, v: int) -> (D: Set<int>)
  requires pos(wm), wm.len() == me(g), ww(g, vs, es, v, v), par(S, es, es.len() as int)
  ensures scyc(g, D), xr(S, D, me(g)), ws(wm, D, me(g)) <= wsum(wm, es), (es.no_duplicates() && D == es.to_set()) || ws(wm, D, me(g)) < wsum(wm, es)
  decreases es.len()
{ let k = es.len() as int; let us = vs.drop_last();
  if us.no_duplicates() {
    l_closed_simple(g, S, vs, es, v); let D = es.to_set(); assert(cyc_set(g, us, es, D)); l_cyc_rng(g, us, es); l_par(S, es, me(g)); l_ws(wm, es, me(g)); D
  } else {
    let (a, b) = choose|a: int, b: int| 0 <= a < us.len() && 0 <= b < us.len() && a != b && us[a] == us[b];
    let i = if a < b { a } else { b }; let j = if a < b { b } else { a }; assert(vs[i] == vs[j]);
    let va = vs.subrange(i, j + 1); let vb = vs.subrange(0, i + 1) + vs.subrange(j + 1, k + 1); let A = es.subrange(i, j); let B = es.subrange(0, i) + es.subrange(j, k);
    l_split(g, wm, S, vs, es, v, i, j);
    if par(S, A, A.len() as int) { l_odd_cycle(g, wm, S, va, A, vs[i]) } else { l_odd_cycle(g, wm, S, vb, B, v) } } }
// a lightest set exists
proof fn l_argmin(wm: Seq<real>, P: spec_fn(Set<int>) -> bool, m: int, D: Set<int>) -> (M: Set<int>)
  requires 0 <= m, P(D), forall|x: int| #[trigger] D.contains(x) ==> 0 <= x < m
  ensures P(M), forall|x: int| #[trigger] M.contains(x) ==> 0 <= x < m, forall|X: Set<int>| #[trigger] P(X) && under(X, m) ==> ws(wm, M, m) <= ws(wm, X, m)
  decreases m
{ if m == 0 { assert forall|X: Set<int>| #[trigger] P(X) && under(X, m) implies ws(wm, D, m) <= ws(wm, X, m) by {} D }
  else {
    let n = m - 1; let Q = |X: Set<int>| P(X.insert(n));
    let a = exists|X: Set<int>| #[trigger] P(X) && under(X, n); let b = exists|X: Set<int>| #[trigger] Q(X) && under(X, n);
    assert(a || b) by { if D.contains(n) { let X = D.remove(n); assert(X.insert(n) =~= D); assert(Q(X) && under(X, n)); } else { assert(under(D, n)); } }
    let M0 = if a { let X = choose|X: Set<int>| #[trigger] P(X) && under(X, n); l_argmin(wm, P, n, X) } else { D };
    let M1 = if b { let X = choose|X: Set<int>| #[trigger] Q(X) && under(X, n); l_argmin(wm, Q, n, X) } else { D };
    let N1 = M1.insert(n);
    if b { l_ws_ins(wm, M1, n, m); l_ws_low(wm, M1, n); } 
    let M = if a && (!b || ws(wm, M0, m) <= ws(wm, N1, m)) { M0 } else { N1 };
    assert forall|X: Set<int>| #[trigger] P(X) && under(X, m) implies ws(wm, M, m) <= ws(wm, X, m) by {
      if X.contains(n) { let Y = X.remove(n); assert(Y.insert(n) =~= X); assert(Q(Y) && under(Y, n)); l_ws_ins(wm, Y, n, m); assert(ws(wm, M1, n) <= ws(wm, Y, n)); }
      else { assert(under(X, n)); assert(ws(wm, M0, n) <= ws(wm, X, n)); } }
    M } }
pub open spec fn under(X: Set<int>, m: int) -> bool { forall|x: int| #[trigger] X.contains(x) ==> 0 <= x < m }
proof fn l_ws_low(wm: Seq<real>, T: Set<int>, n: int) requires !T.contains(n), n >= 0 ensures ws(wm, T, n + 1) == ws(wm, T, n) {}
proof fn l_min_ex(g: G, wm: Seq<real>, S: Set<int>) -> (D: Set<int>) requires has_odd(g, S) ensures min_odd(g, wm, S, D, ws(wm, D, me(g)))
{ reveal(has_odd); reveal(min_odd); let m = me(g); let P = |X: Set<int>| scyc(g, X) && xr(S, X, m); let X = choose|X: Set<int>| #[trigger] scyc(g, X) && xr(S, X, m); assert(P(X)); l_scyc_under(g, X);
  let D = l_argmin(wm, P, m, X); assert forall|Y: Set<int>| #[trigger] scyc(g, Y) && xr(S, Y, m) implies ws(wm, D, m) <= ws(wm, Y, m) by { assert(P(Y)); l_scyc_under(g, Y); } D }
proof fn l_scyc_under(g: G, X: Set<int>) requires scyc(g, X) ensures under(X, me(g))
{ let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] cyc_set(g, vs, es, X); l_cyc_rng(g, vs, es); assert forall|x: int| #[trigger] X.contains(x) implies 0 <= x < me(g) by { assert(es.contains(x)); let i = choose|i: int| 0 <= i < es.len() && es[i] == x; } }
// a cycle may be started at any of its vertices
pub open spec fn rotl(s: Seq<int>, r: int) -> Seq<int> { s.subrange(r, s.len() as int) + s.subrange(0, r) }
pub open spec fn rix(i: int, r: int, k: int) -> int { if i + r < k { i + r } else { i + r - k } }
proof fn l_rotl(s: Seq<int>, r: int) requires 0 <= r < s.len() ensures rotl(s, r).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] rotl(s, r)[i] == s[rix(i, r, s.len() as int)] {}
proof fn l_rot_j(g: G, vs: Seq<int>, es: Seq<int>, r: int, i: int) requires cyc(g, vs, es), 0 <= r < vs.len(), 0 <= i < vs.len() ensures joins(g, rotl(es, r)[i], rotl(vs, r)[i], rotl(vs, r)[nx(i, vs.len() as int)])
{ let k = vs.len() as int; l_rotl(vs, r); l_rotl(es, r); let j = rix(i, r, k); assert(joins(g, es[j], vs[j], vs[nx(j, k)])); let n = nx(i, k); assert(rotl(vs, r)[n] == vs[rix(n, r, k)]); assert(rix(n, r, k) == nx(j, k)); assert(rotl(es, r)[i] == es[j]); assert(rotl(vs, r)[i] == vs[j]); }
proof fn l_rot_nd(s: Seq<int>, r: int) requires s.no_duplicates(), 0 <= r < s.len() ensures rotl(s, r).no_duplicates()
{ l_rotl(s, r); let u = rotl(s, r); let k = s.len() as int; assert forall|i: int, j: int| 0 <= i < u.len() && 0 <= j < u.len() && i != j implies u[i] != u[j] by { assert(u[i] == s[rix(i, r, k)]); assert(u[j] == s[rix(j, r, k)]); assert(rix(i, r, k) != rix(j, r, k)); } }
proof fn l_rot_set(s: Seq<int>, r: int) requires 0 <= r < s.len() ensures rotl(s, r).to_set() == s.to_set()
{ l_rotl(s, r); let u = rotl(s, r); let k = s.len() as int;
  assert forall|x: int| u.to_set().contains(x) <==> s.to_set().contains(x) by {
    if u.contains(x) { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; assert(u[i] == s[rix(i, r, k)]); assert(s.contains(s[rix(i, r, k)])); }
    if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; let i = if j >= r { j - r } else { j - r + k }; assert(u[i] == s[rix(i, r, k)]); assert(u.contains(x)); } }
  assert(u.to_set() =~= s.to_set()); }
proof fn l_rot(g: G, vs: Seq<int>, es: Seq<int>, T: Set<int>, r: int) requires cyc_set(g, vs, es, T), 0 <= r < vs.len() ensures cyc_set(g, rotl(vs, r), rotl(es, r), T), rotl(vs, r)[0] == vs[r]
{ let k = vs.len() as int; let us = rotl(vs, r); let fs = rotl(es, r); l_rotl(vs, r); l_rotl(es, r); l_rot_nd(vs, r); l_rot_nd(es, r); l_rot_set(es, r); assert(us[0] == vs[rix(0, r, k)]);
  assert forall|i: int| 0 <= i < k implies joins(g, #[trigger] fs[i], us[i], us[nx(i, k)]) by { l_rot_j(g, vs, es, r, i); } }
// the edges of a cycle as a closed walk from one of its vertices
proof fn l_cyc_walk(g: G, vs: Seq<int>, es: Seq<int>, T: Set<int>) requires wf(g), cyc_set(g, vs, es, T) ensures ww(g, vs.push(vs[0]), es, vs[0], vs[0])
{ let us = vs.push(vs[0]); let k = vs.len() as int; assert(us[0] == vs[0]); assert(joins(g, es[0], vs[0], vs[nx(0, k)])); assert(eid(g, es[0]));
  assert forall|i: int| 0 <= i < es.len() implies joins(g, #[trigger] es[i], us[i], us[i + 1]) && vid(g, us[i + 1]) by { assert(joins(g, es[i], vs[i], vs[nx(i, k)])); assert(us[i] == vs[i]); assert(eid(g, es[i])); } }
pub open spec fn on(g: G, D: Set<int>, v: int) -> bool { exists|vs: Seq<int>, es: Seq<int>| #[trigger] cyc_set(g, vs, es, D) && vs[0] == v }
proof fn l_on(g: G, D: Set<int>) -> (v: int) requires wf(g), scyc(g, D) ensures on(g, D, v), vid(g, v)
{ let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] cyc_set(g, vs, es, D); assert(joins(g, es[0], vs[0], vs[nx(0, vs.len() as int)])); assert(eid(g, es[0])); vs[0] }
// what remains of a cycle without one of its edges, as a walk between the ends of the edge
proof fn l_ww_rev(g: G, vs: Seq<int>, es: Seq<int>, s: int, t: int) requires ww(g, vs, es, s, t) ensures ww(g, vs.reverse(), es.reverse(), t, s), es.reverse().to_set() =~= es.to_set(), es.no_duplicates() ==> es.reverse().no_duplicates()
{ let k = es.len() as int; let us = vs.reverse(); let fs = es.reverse(); l_ww_ids(g, vs, es, s, t); assert(vid(g, vs[k]));
  assert forall|i: int| 0 <= i < fs.len() implies joins(g, #[trigger] fs[i], us[i], us[i + 1]) && vid(g, us[i + 1]) by { let j = k - 1 - i; assert(fs[i] == es[j]); assert(joins(g, es[j], vs[j], vs[j + 1])); assert(us[i] == vs[j + 1] && us[i + 1] == vs[j]); assert(vid(g, vs[j])); }
  assert forall|x: int| fs.contains(x) <==> es.contains(x) by { if fs.contains(x) { let i = choose|i: int| 0 <= i < k && fs[i] == x; assert(es[k - 1 - i] == x); } if es.contains(x) { let i = choose|i: int| 0 <= i < k && es[i] == x; assert(fs[k - 1 - i] == x); } }
  if es.no_duplicates() { assert forall|i: int, j: int| 0 <= i < k && 0 <= j < k && i != j implies fs[i] != fs[j] by { assert(fs[i] == es[k - 1 - i] && fs[j] == es[k - 1 - j]); } } }
proof fn l_ww_drop(g: G, vs: Seq<int>, es: Seq<int>, s: int, t: int) requires ww(g, vs, es, s, t), es.len() > 0 ensures ww(g, vs.drop_last(), es.drop_last(), s, vs[es.len() - 1])
{ let us = vs.drop_last(); let fs = es.drop_last(); assert(us[0] == vs[0]); assert(us.last() == vs[es.len() - 1]);
  assert forall|x: int| 0 <= x < fs.len() implies joins(g, #[trigger] fs[x], us[x], us[x + 1]) && vid(g, us[x + 1]) by { assert(fs[x] == es[x]); assert(joins(g, es[x], vs[x], vs[x + 1]) && vid(g, vs[x + 1])); } }
proof fn l_cyc_open(g: G, D: Set<int>, e: int, s: int, t: int) -> (r: (Seq<int>, Seq<int>)) requires wf(g), scyc(g, D), D.contains(e), joins(g, e, s, t)
  ensures ww(g, r.0, r.1, s, t), r.1.no_duplicates(), r.1.to_set() =~= D.remove(e)
{ let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] cyc_set(g, vs, es, D); assert(es.contains(e)); let i = choose|i: int| 0 <= i < es.len() && es[i] == e; let k = es.len() as int;
  let q = if i + 1 == k { 0int } else { i + 1 }; l_rot(g, vs, es, D, q); let us = rotl(vs, q); let fs = rotl(es, q); assert(fs[k - 1] == e) by { if q == 0 { assert(fs[k - 1] == es[k - 1]); } else { assert(fs[k - 1] == es[i]); } }
  l_cyc_walk(g, us, fs, D); assert(joins(g, fs[k - 1], us[k - 1], us[nx(k - 1, k)])); let hs = fs.drop_last(); let w = us.push(us[0]);
  assert(us.len() == k); l_ww_drop(g, w, fs, us[0], us[0]); assert(w.drop_last() =~= us); assert(w[k - 1] == us[k - 1]);
  assert forall|x: int| hs.to_set().contains(x) <==> D.remove(e).contains(x) by { if hs.contains(x) { let j = choose|j: int| 0 <= j < hs.len() && hs[j] == x; assert(fs[j] == x); assert(fs.contains(x)); assert(fs[j] != fs[k - 1]); } if D.contains(x) && x != e { assert(fs.to_set().contains(x)); let j = choose|j: int| 0 <= j < fs.len() && fs[j] == x; assert(hs[j] == x); } }
  assert(hs.to_set() =~= D.remove(e)); assert(hs.no_duplicates());
  if us[0] == s && us[k - 1] == t { (us, hs) } else { assert(us[0] == t && us[k - 1] == s); l_ww_rev(g, us, hs, us[0], us[k - 1]); (us.reverse(), hs.reverse()) } }
// ---- the two search strategies. cand: the best so far comes from an odd closed walk
pub open spec fn cand_by(g: G, wm: Seq<real>, S: Set<int>, T: Set<int>, W: real, vs: Seq<int>, es: Seq<int>, v: int) -> bool { ww(g, vs, es, v, v) && par(S, es, es.len() as int) && es.no_duplicates() && T == es.to_set() && W == wsum(wm, es) }
#[verifier::opaque]
pub open spec fn cand(g: G, wm: Seq<real>, S: Set<int>, T: Set<int>, W: real) -> bool { exists|vs: Seq<int>, es: Seq<int>, v: int| #[trigger] cand_by(g, wm, S, T, W, vs, es, v) }
// D: a minimum odd cycle; covered: the best so far is at most as heavy if D passes one of the first k vertices
#[verifier::opaque]
pub open spec fn all_v(g: G, wm: Seq<real>, S: Set<int>, D: Set<int>, a: int, k: int, T: Set<int>, W: real, f: bool) -> bool {
  (f ==> cand(g, wm, S, T, W)) && forall|v: int| a <= v < k && #[trigger] on(g, D, v) ==> f && W <= ws(wm, D, me(g)) }
proof fn l_all_v0(g: G, wm: Seq<real>, S: Set<int>, D: Set<int>, a: int, T: Set<int>, W: real) ensures all_v(g, wm, S, D, a, a, T, W, false) { reveal(all_v); }
pub open spec fn better(f2: bool, W2: real, f: bool, W: real) -> bool { f2 && (!f || W2 < W) }
proof fn l_no_lighter(g: G, wm: Seq<real>, S: Set<int>, D: Set<int>, vs: Seq<int>, es: Seq<int>, v: int)
  requires pos(wm), wm.len() == me(g), min_odd(g, wm, S, D, ws(wm, D, me(g))), ww(g, vs, es, v, v), par(S, es, es.len() as int) ensures ws(wm, D, me(g)) <= wsum(wm, es), wsum(wm, es) <= ws(wm, D, me(g)) ==> es.no_duplicates() && scyc(g, es.to_set()) && xr(S, es.to_set(), me(g)) && ws(wm, es.to_set(), me(g)) == wsum(wm, es)
{ reveal(min_odd); let X = l_odd_cycle(g, wm, S, vs, es, v); }
proof fn l_all_v(g: G, wm: Seq<real>, S: Set<int>, D: Set<int>, a: int, k: int, T: Set<int>, W: real, f: bool, T2: Set<int>, W2: real, f2: bool)
  requires wf(g), pos(wm), wm.len() == me(g), min_odd(g, wm, S, D, ws(wm, D, me(g))), all_v(g, wm, S, D, a, k, T, W, f), bsd_post(g, wm, Set::empty(), S, k, k, true, f, W, T2, W2, f2)
  ensures better(f2, W2, f, W) ==> all_v(g, wm, S, D, a, k + 1, T2, W2, true), !better(f2, W2, f, W) ==> all_v(g, wm, S, D, a, k + 1, T, W, f)
{ reveal(all_v); reveal(bsd_post); let E = Set::<int>::empty(); let wD = ws(wm, D, me(g)); assert(scyc(g, D) && xr(S, D, me(g))) by { reveal(min_odd); }
  if f2 { let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] smin(g, wm, E, S, k, k, true, vs, es) && es.no_duplicates() && T2 == es.to_set() && W2 == wsum(wm, es); assert(sgw(g, E, S, k, k, true, vs, es)); assert(cand_by(g, wm, S, T2, W2, vs, es, k)); assert(cand(g, wm, S, T2, W2)) by { reveal(cand); } }
  if on(g, D, k) {
    let (us, fs) = choose|us: Seq<int>, fs: Seq<int>| #[trigger] cyc_set(g, us, fs, D) && us[0] == k; l_cyc_walk(g, us, fs, D); let w = us.push(us[0]); l_cyc_rng(g, us, fs); l_par(S, fs, me(g)); l_ws(wm, fs, me(g)); assert(fs.to_set() =~= D);
    assert(sgw(g, E, S, k, k, true, w, fs)); assert(wsum(wm, fs) == wD);
    if !f2 && bsd_dup(g, wm, E, S, k, k, true) { let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] smin(g, wm, E, S, k, k, true, vs, es) && !es.no_duplicates(); l_no_lighter(g, wm, S, D, vs, es, k); assert(false); }
    if better(f2, W2, f, W) { assert(W2 <= wD); } else { assert(f && W <= wD); } } }
proof fn l_cand_end(g: G, wm: Seq<real>, S: Set<int>, D: Set<int>, T: Set<int>, W: real)
  requires pos(wm), wm.len() == me(g), min_odd(g, wm, S, D, ws(wm, D, me(g))), cand(g, wm, S, T, W), W <= ws(wm, D, me(g)) ensures min_odd(g, wm, S, T, W)
{ reveal(cand); let (vs, es, v) = choose|vs: Seq<int>, es: Seq<int>, v: int| #[trigger] cand_by(g, wm, S, T, W, vs, es, v); l_no_lighter(g, wm, S, D, vs, es, v); reveal(min_odd); }
proof fn l_all_v_end(g: G, wm: Seq<real>, S: Set<int>, D: Set<int>, T: Set<int>, W: real, f: bool)
  requires wf(g), pos(wm), wm.len() == me(g), min_odd(g, wm, S, D, ws(wm, D, me(g))), all_v(g, wm, S, D, 0, g.n, T, W, f) ensures f, min_odd(g, wm, S, T, W)
{ assert(scyc(g, D)) by { reveal(min_odd); } let v = l_on(g, D); reveal(all_v); l_cand_end(g, wm, S, D, T, W); }
// the signed edges one after the other, each as the last signed edge of the cycle
pub open spec fn last_in(D: Set<int>, L: Seq<int>, i: int) -> bool { D.contains(L[i]) && forall|x: int| i < x < L.len() ==> !D.contains(#[trigger] L[x]) }
#[verifier::opaque]
pub open spec fn all_e(g: G, wm: Seq<real>, S: Set<int>, D: Set<int>, L: Seq<int>, a: int, k: int, T: Set<int>, W: real, f: bool) -> bool {
  (f ==> cand(g, wm, S, T, W)) && forall|i: int| a <= i < k && #[trigger] last_in(D, L, i) ==> f && W <= ws(wm, D, me(g)) }
proof fn l_all_e0(g: G, wm: Seq<real>, S: Set<int>, D: Set<int>, L: Seq<int>, a: int, T: Set<int>, W: real) ensures all_e(g, wm, S, D, L, a, a, T, W, false) { reveal(all_e); }
proof fn l_all_e(g: G, wm: Seq<real>, S: Set<int>, D: Set<int>, L: Seq<int>, a: int, k: int, H: Set<int>, e: Edge, T: Set<int>, W: real, f: bool, T2: Set<int>, W2: real, f2: bool)
  requires wf(g), pos(wm), wm.len() == me(g), min_odd(g, wm, S, D, ws(wm, D, me(g))), all_e(g, wm, S, D, L, a, k, T, W, f), 0 <= a <= k < L.len(), e.id == L[k], edge_ok(g, e), S.contains(e.id), L.no_duplicates(),
    forall|x: int| #[trigger] H.contains(x) <==> exists|i: int| k <= i < L.len() && L[i] == x, bsd_post(g, wm, H, S, e.s, e.t, false, f, W, T2, W2, f2)
  ensures f2 ==> !T2.contains(e.id), better(f2, W2 + wm[e.id], f, W) ==> all_e(g, wm, S, D, L, a, k + 1, T2.insert(e.id), W2 + wm[e.id], true), !better(f2, W2 + wm[e.id], f, W) ==> all_e(g, wm, S, D, L, a, k + 1, T, W, f)
{ reveal(all_e); reveal(bsd_post); let wD = ws(wm, D, me(g)); let x = e.id; assert(scyc(g, D) && xr(S, D, me(g))) by { reveal(min_odd); } assert(H.contains(x)); assert(eid(g, x)); assert(wm[x] > 0real);
  if f2 { let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] smin(g, wm, H, S, e.s, e.t, false, vs, es) && es.no_duplicates() && T2 == es.to_set() && W2 == wsum(wm, es); assert(sgw(g, H, S, e.s, e.t, false, vs, es));
    assert(!es.contains(x)) by { if es.contains(x) { let i = choose|i: int| 0 <= i < es.len() && es[i] == x; assert(H.contains(es[i])); } }
    l_close(g, wm, S, vs, es, e.s, e.t, x); assert(es.push(x).to_set() =~= T2.insert(x)) by { l_tos(es.push(x)); assert(es.push(x).drop_last() =~= es); }
    assert(es.push(x).no_duplicates());
    assert(cand_by(g, wm, S, T2.insert(x), W2 + wm[x], vs.push(e.s), es.push(x), e.s)); assert(cand(g, wm, S, T2.insert(x), W2 + wm[x])) by { reveal(cand); } }
  if last_in(D, L, k) {
    let (us, fs) = l_cyc_open(g, D, x, e.s, e.t); l_ww_ids(g, us, fs, e.s, e.t); l_par(S, fs, me(g)); l_ws(wm, fs, me(g)); let R = D.remove(x); assert(R.insert(x) =~= D); l_ws_ins(wm, R, x, me(g)); l_xr_ins(S, R, x, me(g)); assert(fs.to_set() =~= R);
    assert(wsum(wm, fs) + wm[x] == wD);
    assert forall|i: int| 0 <= i < fs.len() implies !H.contains(#[trigger] fs[i]) by { assert(fs.to_set().contains(fs[i])); assert(R.contains(fs[i])); if H.contains(fs[i]) { let j = choose|j: int| k <= j < L.len() && L[j] == fs[i]; if j > k { assert(!D.contains(L[j])); } } }
    assert(sgw(g, H, S, e.s, e.t, false, us, fs));
    if !f2 && bsd_dup(g, wm, H, S, e.s, e.t, false) { let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] smin(g, wm, H, S, e.s, e.t, false, vs, es) && !es.no_duplicates(); assert(sgw(g, H, S, e.s, e.t, false, vs, es)); l_close(g, wm, S, vs, es, e.s, e.t, x); l_no_lighter(g, wm, S, D, vs.push(e.s), es.push(x), e.s);
      let (i, j) = choose|i: int, j: int| 0 <= i < es.len() && 0 <= j < es.len() && i != j && es[i] == es[j]; assert(es.push(x)[i] == es.push(x)[j]); assert(!es.push(x).no_duplicates()); assert(false); }
    if better(f2, W2 + wm[x], f, W) { assert(W2 + wm[x] <= wD); } else { assert(f && W <= wD); } } }
proof fn l_close(g: G, wm: Seq<real>, S: Set<int>, vs: Seq<int>, es: Seq<int>, s: int, t: int, x: int) requires ww(g, vs, es, s, t), joins(g, x, s, t), S.contains(x), !par(S, es, es.len() as int)
  ensures ww(g, vs.push(s), es.push(x), s, s), par(S, es.push(x), es.push(x).len() as int), wsum(wm, es.push(x)) == wsum(wm, es) + wm[x]
{ let us = vs.push(s); let fs = es.push(x); l_wsum_push(wm, es, x); l_par_ext(S, fs, es, es.len() as int);
  assert forall|i: int| 0 <= i < fs.len() implies joins(g, #[trigger] fs[i], us[i], us[i + 1]) && vid(g, us[i + 1]) by { if i < es.len() { assert(fs[i] == es[i]); assert(joins(g, es[i], vs[i], vs[i + 1]) && vid(g, vs[i + 1])); assert(us[i] == vs[i] && us[i + 1] == vs[i + 1]); } else { assert(us[i] == vs[i]); assert(vs[i] == t); } } }
proof fn l_all_e_end(g: G, wm: Seq<real>, S: Set<int>, D: Set<int>, L: Seq<int>, T: Set<int>, W: real, f: bool)
  requires pos(wm), wm.len() == me(g), min_odd(g, wm, S, D, ws(wm, D, me(g))), all_e(g, wm, S, D, L, 0, L.len() as int, T, W, f), forall|x: int| #[trigger] S.contains(x) ==> L.contains(x) ensures f, min_odd(g, wm, S, T, W)
{ reveal(all_e); assert(xr(S, D, me(g))) by { reveal(min_odd); }
  assert(exists|i: int| 0 <= i < L.len() && D.contains(#[trigger] L[i])) by { if !(exists|i: int| 0 <= i < L.len() && D.contains(#[trigger] L[i])) { assert forall|e: int| 0 <= e < me(g) implies !(#[trigger] S.contains(e) && D.contains(e)) by { if S.contains(e) { assert(L.contains(e)); let i = choose|i: int| 0 <= i < L.len() && L[i] == e; assert(!D.contains(L[i])); } } l_xr_none(S, D, me(g)); } }
  let i0 = choose|i: int| 0 <= i < L.len() && D.contains(#[trigger] L[i]); let i = l_last_in(D, L, i0); l_cand_end(g, wm, S, D, T, W); }
proof fn l_last_in(D: Set<int>, L: Seq<int>, i: int) -> (j: int) requires 0 <= i < L.len(), D.contains(L[i]) ensures 0 <= j < L.len(), last_in(D, L, j) decreases L.len() - i
{ if last_in(D, L, i) { i } else { let x = choose|x: int| i < x < L.len() && D.contains(#[trigger] L[x]); l_last_in(D, L, x) } }
// walks one after the other
proof fn l_ww_cat(g: G, vs: Seq<int>, es: Seq<int>, s: int, x: int, us: Seq<int>, fs: Seq<int>, t: int) requires ww(g, vs, es, s, x), ww(g, us, fs, x, t) ensures ww(g, vs + us.skip(1), es + fs, s, t)
{ let ws = vs + us.skip(1); let gs = es + fs; let k = es.len() as int;
  assert(ws.len() == gs.len() + 1); assert(ws[0] == vs[0]); assert(ws.last() == us.last()) by { if fs.len() == 0 { assert(ws =~= vs); } else { assert(ws.last() == us.skip(1).last()); } }
  assert forall|i: int| 0 <= i < gs.len() implies joins(g, #[trigger] gs[i], ws[i], ws[i + 1]) && vid(g, ws[i + 1]) by {
    if i < k { assert(gs[i] == es[i]); assert(ws[i] == vs[i] && ws[i + 1] == vs[i + 1]); } else { assert(gs[i] == fs[i - k]); assert(ws[i + 1] == us[i - k + 1]); if i == k { assert(ws[i] == vs.last()); } else { assert(ws[i] == us[i - k]); } } } }
// two neighbouring pieces of the vertices or of the signed edges: the better of the two answers covers both
proof fn l_all_v_join(g: G, wm: Seq<real>, S: Set<int>, D: Set<int>, a: int, m: int, k: int, T1: Set<int>, W1: real, f1: bool, T2: Set<int>, W2: real, f2: bool)
  requires a <= m <= k, all_v(g, wm, S, D, a, m, T1, W1, f1), all_v(g, wm, S, D, m, k, T2, W2, f2)
  ensures (!f2 || (f1 && W1 <= W2)) ==> all_v(g, wm, S, D, a, k, T1, W1, f1), (!f1 || (f2 && W2 <= W1)) ==> all_v(g, wm, S, D, a, k, T2, W2, f2)
{ reveal(all_v); assert forall|v: int| a <= v < k && #[trigger] on(g, D, v) implies (f1 && W1 <= ws(wm, D, me(g))) || (f2 && W2 <= ws(wm, D, me(g))) by { if v < m { assert(on(g, D, v)); } else { assert(on(g, D, v)); } } }
proof fn l_all_e_join(g: G, wm: Seq<real>, S: Set<int>, D: Set<int>, L: Seq<int>, a: int, m: int, k: int, T1: Set<int>, W1: real, f1: bool, T2: Set<int>, W2: real, f2: bool)
  requires a <= m <= k, all_e(g, wm, S, D, L, a, m, T1, W1, f1), all_e(g, wm, S, D, L, m, k, T2, W2, f2)
  ensures (!f2 || (f1 && W1 <= W2)) ==> all_e(g, wm, S, D, L, a, k, T1, W1, f1), (!f1 || (f2 && W2 <= W1)) ==> all_e(g, wm, S, D, L, a, k, T2, W2, f2)
{ reveal(all_e); assert forall|i: int| a <= i < k && #[trigger] last_in(D, L, i) implies (f1 && W1 <= ws(wm, D, me(g))) || (f2 && W2 <= ws(wm, D, me(g))) by { if i < m { assert(last_in(D, L, i)); } else { assert(last_in(D, L, i)); } } }
// signs of hidden edges do not matter to the search
proof fn l_hid_walk(g: G, H: Set<int>, S: Set<int>, s: int, t: int, o: bool, vs: Seq<int>, es: Seq<int>) requires S.subset_of(H) ensures sgw(g, H, Set::empty(), s, t, o, vs, es) == sgw(g, H, S, s, t, o, vs, es)
{ if forall|i: int| 0 <= i < es.len() ==> !H.contains(#[trigger] es[i]) { l_no_sign(Set::empty(), es, es.len() as int); assert forall|i: int| 0 <= i < es.len() implies !S.contains(#[trigger] es[i]) by { assert(!H.contains(es[i])); } l_no_sign(S, es, es.len() as int); } }
proof fn l_no_sign(S: Set<int>, es: Seq<int>, k: int) requires 0 <= k <= es.len(), forall|i: int| 0 <= i < es.len() ==> !S.contains(#[trigger] es[i]) ensures !par(S, es, k) decreases k { if k > 0 { l_no_sign(S, es, k - 1); assert(!S.contains(es[k - 1])); } }
proof fn l_hid_post(g: G, wm: Seq<real>, H: Set<int>, S: Set<int>, s: int, t: int, o: bool, ul: bool, lim: real, T: Set<int>, W: real, f: bool)
  requires S.subset_of(H), bsd_post(g, wm, H, Set::empty(), s, t, o, ul, lim, T, W, f) ensures bsd_post(g, wm, H, S, s, t, o, ul, lim, T, W, f)
{ reveal(bsd_post); let E = Set::<int>::empty();
  assert forall|vs: Seq<int>, es: Seq<int>| sgw(g, H, E, s, t, o, vs, es) == #[trigger] sgw(g, H, S, s, t, o, vs, es) by { l_hid_walk(g, H, S, s, t, o, vs, es); }
  assert forall|vs: Seq<int>, es: Seq<int>| #[trigger] smin(g, wm, H, E, s, t, o, vs, es) implies smin(g, wm, H, S, s, t, o, vs, es) by {
    assert(sgw(g, H, S, s, t, o, vs, es)); assert forall|us: Seq<int>, fs: Seq<int>| #[trigger] sgw(g, H, S, s, t, o, us, fs) implies wsum(wm, es) <= wsum(wm, fs) by { assert(sgw(g, H, E, s, t, o, us, fs)); } }
  if f { let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] smin(g, wm, H, E, s, t, o, vs, es) && es.no_duplicates() && T == es.to_set() && W == wsum(wm, es); assert(smin(g, wm, H, S, s, t, o, vs, es)); }
  else if bsd_dup(g, wm, H, E, s, t, o) { let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] smin(g, wm, H, E, s, t, o, vs, es) && !es.no_duplicates(); assert(smin(g, wm, H, S, s, t, o, vs, es)); }
  else { assert forall|vs: Seq<int>, es: Seq<int>| #[trigger] sgw(g, H, S, s, t, o, vs, es) implies ul && wsum(wm, es) >= lim by { assert(sgw(g, H, E, s, t, o, vs, es)); } } }
