// ---- GF(2) algebra over edge sets; support vectors against cycles; exchange argument for the minimum cycle basis
// parity of the number of edges below m in both S and T
pub open spec fn xr(S: Set<int>, T: Set<int>, m: int) -> bool decreases m { if m <= 0 { false } else { xr(S, T, m - 1) != (S.contains(m - 1) && T.contains(m - 1)) } }
pub open spec fn cset(c: Seq<Edge>) -> Set<int> { eids(c).to_set() }
pub open spec fn me(g: G) -> int { g.ends.len() as int }
pub open spec fn ip(g: G, S: Set<int>, c: Seq<Edge>) -> bool { xr(S, cset(c), me(g)) }
// total weight of the edges below m in T
pub open spec fn ws(wm: Seq<real>, T: Set<int>, m: int) -> real decreases m { if m <= 0 { 0real } else { ws(wm, T, m - 1) + (if T.contains(m - 1) { wm[m - 1] } else { 0real }) } }
pub open spec fn cyc_set(g: G, vs: Seq<int>, es: Seq<int>, T: Set<int>) -> bool { cyc(g, vs, es) && es.to_set() =~= T }
// T is the edge set of a simple cycle
pub open spec fn scyc(g: G, T: Set<int>) -> bool { exists|vs: Seq<int>, es: Seq<int>| #[trigger] cyc_set(g, vs, es, T) }
// T is a minimum-weight simple cycle among those with an odd number of edges in S, and W its weight
#[verifier::opaque]
pub open spec fn min_odd(g: G, wm: Seq<real>, S: Set<int>, T: Set<int>, W: real) -> bool {
  scyc(g, T) && xr(S, T, me(g)) && W == ws(wm, T, me(g)) && forall|D: Set<int>| #[trigger] scyc(g, D) && xr(S, D, me(g)) ==> W <= ws(wm, D, me(g)) }
#[verifier::opaque]
pub open spec fn has_odd(g: G, S: Set<int>) -> bool { exists|D: Set<int>| #[trigger] scyc(g, D) && xr(S, D, me(g)) }
pub open spec fn symd(X: Set<int>, S: Set<int>, T: Set<int>) -> bool { forall|e: int| #[trigger] X.contains(e) <==> (S.contains(e) != T.contains(e)) }
proof fn l_xr_ext(S: Set<int>, T: Set<int>, S2: Set<int>, T2: Set<int>, m: int) requires forall|e: int| 0 <= e < m ==> ((#[trigger] S.contains(e) && T.contains(e)) <==> (S2.contains(e) && T2.contains(e))) ensures xr(S, T, m) == xr(S2, T2, m) decreases m
{ if m > 0 { assert((S.contains(m - 1) && T.contains(m - 1)) <==> (S2.contains(m - 1) && T2.contains(m - 1))); l_xr_ext(S, T, S2, T2, m - 1); } }
proof fn l_xr_sym(X: Set<int>, S: Set<int>, T: Set<int>, L: Set<int>, m: int) requires symd(X, S, T) ensures xr(X, L, m) == (xr(S, L, m) != xr(T, L, m)) decreases m { if m > 0 { l_xr_sym(X, S, T, L, m - 1); assert(X.contains(m - 1) <==> (S.contains(m - 1) != T.contains(m - 1))); } }
proof fn l_xr_none(S: Set<int>, T: Set<int>, m: int) requires forall|e: int| 0 <= e < m ==> !(#[trigger] S.contains(e) && T.contains(e)) ensures !xr(S, T, m) decreases m { if m > 0 { assert(!(S.contains(m - 1) && T.contains(m - 1))); l_xr_none(S, T, m - 1); } }
proof fn l_xr_one(S: Set<int>, T: Set<int>, m: int, x: int) requires 0 <= x < m, forall|e: int| 0 <= e < m && e != x ==> !(#[trigger] S.contains(e) && T.contains(e)) ensures xr(S, T, m) == (S.contains(x) && T.contains(x)) decreases m
{ if x == m - 1 { l_xr_none(S, T, m - 1); } else { assert(!(S.contains(m - 1) && T.contains(m - 1))); l_xr_one(S, T, m - 1, x); } }
// parity along a list
pub open spec fn par(S: Set<int>, L: Seq<int>, k: int) -> bool decreases k { if k <= 0 { false } else { par(S, L, k - 1) != S.contains(L[k - 1]) } }
proof fn l_xr_ins(S: Set<int>, T: Set<int>, x: int, m: int) requires !T.contains(x), 0 <= x ensures xr(S, T.insert(x), m) == (xr(S, T, m) != (x < m && S.contains(x))) decreases m { if m > 0 { l_xr_ins(S, T, x, m - 1); } }
proof fn l_par(S: Set<int>, L: Seq<int>, m: int) requires L.no_duplicates(), forall|i: int| 0 <= i < L.len() ==> 0 <= #[trigger] L[i] < m ensures par(S, L, L.len() as int) == xr(S, L.to_set(), m) decreases L.len()
{ if L.len() == 0 { assert(L.to_set() =~= Set::empty()); l_xr_none(S, L.to_set(), m); } else { let P = L.drop_last(); let x = L.last(); l_tos(L); assert(!P.contains(x)) by { if P.contains(x) { let i = choose|i: int| 0 <= i < P.len() && P[i] == x; assert(L[i] == x && L[L.len() - 1] == x); } }
  assert forall|i: int| 0 <= i < P.len() implies 0 <= #[trigger] P[i] < m by { assert(P[i] == L[i]); } l_par(S, P, m); l_xr_ins(S, P.to_set(), x, m); l_par_ext(S, L, P, P.len() as int); } }
proof fn l_tos(L: Seq<int>) requires L.len() > 0 ensures L.to_set() == L.drop_last().to_set().insert(L.last())
{ let P = L.drop_last(); let x = L.last(); assert forall|e: int| L.to_set().contains(e) <==> P.to_set().insert(x).contains(e) by { if L.contains(e) { let i = choose|i: int| 0 <= i < L.len() && L[i] == e; if i < P.len() { assert(P[i] == e); } } if P.contains(e) { let i = choose|i: int| 0 <= i < P.len() && P[i] == e; assert(L[i] == e); } assert(L[L.len() - 1] == x); } assert(L.to_set() =~= P.to_set().insert(x)); }
proof fn l_par_ext(S: Set<int>, L: Seq<int>, P: Seq<int>, k: int) requires k <= L.len(), k <= P.len(), forall|i: int| 0 <= i < k ==> #[trigger] L[i] == P[i] ensures par(S, L, k) == par(S, P, k) decreases k { if k > 0 { assert(L[k - 1] == P[k - 1]); l_par_ext(S, L, P, k - 1); } }
proof fn l_ws_ins(wm: Seq<real>, T: Set<int>, x: int, m: int) requires !T.contains(x), 0 <= x ensures ws(wm, T.insert(x), m) == ws(wm, T, m) + (if x < m { wm[x] } else { 0real }) decreases m { if m > 0 { l_ws_ins(wm, T, x, m - 1); } }
proof fn l_ws0(wm: Seq<real>, m: int) ensures ws(wm, Set::empty(), m) == 0real decreases m { if m > 0 { l_ws0(wm, m - 1); } }
proof fn l_ws(wm: Seq<real>, L: Seq<int>, m: int) requires L.no_duplicates(), forall|i: int| 0 <= i < L.len() ==> 0 <= #[trigger] L[i] < m ensures wsum(wm, L) == ws(wm, L.to_set(), m) decreases L.len()
{ if L.len() == 0 { assert(L.to_set() =~= Set::empty()); l_ws0(wm, m); } else { let P = L.drop_last(); let x = L.last(); l_tos(L); assert(!P.contains(x)) by { if P.contains(x) { let i = choose|i: int| 0 <= i < P.len() && P[i] == x; assert(L[i] == x && L[L.len() - 1] == x); } }
  assert forall|i: int| 0 <= i < P.len() implies 0 <= #[trigger] P[i] < m by { assert(P[i] == L[i]); } l_ws(wm, P, m); l_ws_ins(wm, P.to_set(), x, m); assert(L[L.len() - 1] == x); } }
// lists of edges and cycle sets
proof fn l_uses_set(c: Seq<Edge>, e: int) ensures uses(c, e) == cset(c).contains(e) {}
proof fn l_cyc_rng(g: G, vs: Seq<int>, es: Seq<int>) requires cyc(g, vs, es) ensures forall|i: int| 0 <= i < es.len() ==> 0 <= #[trigger] es[i] < me(g) { assert forall|i: int| 0 <= i < es.len() implies 0 <= #[trigger] es[i] < me(g) by { assert(joins(g, es[i], vs[i], vs[nx(i, vs.len() as int)])); } }
proof fn l_sub_eq(a: Seq<int>, b: Seq<int>) requires a.no_duplicates(), b.no_duplicates(), a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]) ensures a.to_set() == b.to_set()
{ a.unique_seq_to_set(); b.unique_seq_to_set(); let A = a.to_set(); let B = b.to_set(); assert forall|x: int| A.contains(x) implies B.contains(x) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b.contains(a[i])); }
  vstd::set_lib::lemma_subset_equality(A, B); }
proof fn l_cycle_set(g: G, c: Seq<Edge>) requires cycle_of(g, c) ensures scyc(g, cset(c)), forall|e: int| cset(c).contains(e) ==> 0 <= e < me(g)
{ let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] cyc_on(g, vs, es, eids(c)); l_sub_eq(eids(c), es); assert(cyc_set(g, vs, es, cset(c))); l_cyc_rng(g, vs, es);
  assert forall|e: int| cset(c).contains(e) implies 0 <= e < me(g) by { let i = choose|i: int| 0 <= i < es.len() && es[i] == e; } }
proof fn l_set_cycle(g: G, c: Seq<Edge>, T: Set<int>) requires scyc(g, T), edges_ok(g, c), cset(c) == T, eids(c).no_duplicates() ensures cycle_of(g, c)
{ let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] cyc_set(g, vs, es, T); let d = eids(c); es.unique_seq_to_set(); d.unique_seq_to_set();
  assert forall|i: int| 0 <= i < d.len() implies es.contains(#[trigger] d[i]) by { assert(d.contains(d[i])); assert(d.to_set().contains(d[i])); assert(es.to_set().contains(d[i])); } assert(cyc_on(g, vs, es, d)); }
proof fn l_wt_set(g: G, wm: Seq<real>, c: Seq<Edge>) requires cycle_of(g, c) ensures wt(wm, c) == ws(wm, cset(c), me(g))
{ l_cycle_set(g, c); assert forall|i: int| 0 <= i < eids(c).len() implies 0 <= #[trigger] eids(c)[i] < me(g) by { assert(eids(c).contains(eids(c)[i])); assert(cset(c).contains(eids(c)[i])); } l_ws(wm, eids(c), me(g)); }
// a list of edges for a cycle set
pub open spec fn listed(g: G, es: Seq<int>) -> Seq<Edge> { Seq::new(es.len(), |i: int| edge_of(g, es[i])) }
proof fn l_listed(g: G, vs: Seq<int>, es: Seq<int>, T: Set<int>) requires cyc_set(g, vs, es, T) ensures cycle_of(g, listed(g, es)), cset(listed(g, es)) == T
{ let c = listed(g, es); l_cyc_rng(g, vs, es); assert(eids(c) =~= es); assert forall|i: int| 0 <= i < c.len() implies edge_ok(g, #[trigger] c[i]) by { assert(0 <= es[i] < me(g)); } l_set_cycle(g, c, T); }
// ---- sums of cycles
// parity of the edges of S in the sum of the chosen cycles among the first k
pub open spec fn xs(S: Set<int>, cs: Seq<Seq<Edge>>, I: Seq<bool>, k: int, m: int) -> bool decreases m { if m <= 0 { false } else { xs(S, cs, I, k, m - 1) != (S.contains(m - 1) && odd(cs, I, m - 1, k)) } }
pub open spec fn pip(S: Set<int>, cs: Seq<Seq<Edge>>, I: Seq<bool>, k: int, m: int) -> bool decreases k { if k <= 0 { false } else { pip(S, cs, I, k - 1, m) != (I[k - 1] && xr(S, cset(cs[k - 1]), m)) } }
proof fn l_xs0(S: Set<int>, cs: Seq<Seq<Edge>>, I: Seq<bool>, m: int) ensures !xs(S, cs, I, 0, m) decreases m { if m > 0 { l_xs0(S, cs, I, m - 1); } }
proof fn l_xs1(S: Set<int>, cs: Seq<Seq<Edge>>, I: Seq<bool>, k: int, m: int) requires 0 < k <= cs.len() ensures xs(S, cs, I, k, m) == (xs(S, cs, I, k - 1, m) != (I[k - 1] && xr(S, cset(cs[k - 1]), m))) decreases m
{ if m > 0 { l_xs1(S, cs, I, k, m - 1); l_uses_set(cs[k - 1], m - 1); } }
proof fn l_xs(S: Set<int>, cs: Seq<Seq<Edge>>, I: Seq<bool>, k: int, m: int) requires 0 <= k <= cs.len() ensures xs(S, cs, I, k, m) == pip(S, cs, I, k, m) decreases k { if k <= 0 { l_xs0(S, cs, I, m); } else { l_xs1(S, cs, I, k, m); l_xs(S, cs, I, k - 1, m); } }
proof fn l_xs_one(S: Set<int>, cs: Seq<Seq<Edge>>, I: Seq<bool>, k: int, m: int, x: int) requires forall|e: int| 0 <= e < m && e != x ==> !(#[trigger] S.contains(e) && odd(cs, I, e, k)) ensures xs(S, cs, I, k, m) == (0 <= x < m && S.contains(x) && odd(cs, I, x, k)) decreases m
{ if m > 0 { l_xs_one(S, cs, I, k, m - 1, x); if m - 1 != x { assert(!(S.contains(m - 1) && odd(cs, I, m - 1, k))); } } }
proof fn l_pip_one(S: Set<int>, cs: Seq<Seq<Edge>>, I: Seq<bool>, k: int, m: int, j: int) requires forall|i: int| 0 <= i < k && i != j ==> !(#[trigger] I[i] && xr(S, cset(cs[i]), m)) ensures pip(S, cs, I, k, m) == (0 <= j < k && I[j] && xr(S, cset(cs[j]), m)) decreases k
{ if k > 0 { l_pip_one(S, cs, I, k - 1, m, j); if k - 1 != j { assert(!(I[k - 1] && xr(S, cset(cs[k - 1]), m))); } } }
proof fn l_pip_some(S: Set<int>, cs: Seq<Seq<Edge>>, I: Seq<bool>, k: int, m: int) -> (j: int) requires pip(S, cs, I, k, m) ensures 0 <= j < k, I[j], xr(S, cset(cs[j]), m) decreases k { if k <= 0 { 0 } else if I[k - 1] && xr(S, cset(cs[k - 1]), m) { k - 1 } else { l_pip_some(S, cs, I, k - 1, m) } }
// ---- n > d vectors with d coordinates are dependent
pub open spec fn cov(M: Seq<Seq<bool>>, I: Seq<bool>, p: int, k: int) -> bool decreases k { if k <= 0 { false } else { cov(M, I, p, k - 1) != (I[k - 1] && M[k - 1][p]) } }
proof fn l_cov_none(M: Seq<Seq<bool>>, I: Seq<bool>, p: int, k: int) requires forall|i: int| 0 <= i < k ==> !#[trigger] M[i][p] ensures !cov(M, I, p, k) decreases k { if k > 0 { assert(!M[k - 1][p]); l_cov_none(M, I, p, k - 1); } }
proof fn l_cov_ext(M: Seq<Seq<bool>>, N: Seq<Seq<bool>>, I: Seq<bool>, J: Seq<bool>, p: int, k: int) requires 0 <= k <= M.len(), k <= N.len(), k <= I.len(), k <= J.len(), forall|i: int| 0 <= i < k ==> #[trigger] M[i] == N[i] && I[i] == J[i] ensures cov(M, I, p, k) == cov(N, J, p, k) decreases k { if k > 0 { assert(M[k - 1] == N[k - 1]); l_cov_ext(M, N, I, J, p, k - 1); } }
proof fn l_cov_ins(M: Seq<Seq<bool>>, I: Seq<bool>, r: int, b: bool, p: int, k: int) requires 0 <= r < k <= M.len(), I.len() == M.len() - 1
  ensures cov(M, I.insert(r, b), p, k) == (cov(M.remove(r), I, p, k - 1) != (b && M[r][p])) decreases k
{ let N = M.remove(r); let J = I.insert(r, b); if k - 1 == r { assert forall|i: int| 0 <= i < r implies #[trigger] M[i] == N[i] && J[i] == I[i] by {} l_cov_ext(M, N, J, I, p, r); } else { l_cov_ins(M, I, r, b, p, k - 1); assert(J[k - 1] == I[k - 2] && M[k - 1] == N[k - 2]); } }
pub open spec fn redu(R: Seq<Seq<bool>>, v: Seq<bool>, q: int) -> Seq<Seq<bool>> { Seq::new(R.len(), |i: int| Seq::new(v.len(), |p: int| R[i][p] != (R[i][q] && v[p]))) }
proof fn l_cov_red(R: Seq<Seq<bool>>, v: Seq<bool>, q: int, I: Seq<bool>, p: int, k: int) requires 0 <= k <= R.len(), 0 <= p < v.len() ensures cov(redu(R, v, q), I, p, k) == (cov(R, I, p, k) != (cov(R, I, q, k) && v[p])) decreases k
{ if k > 0 { l_cov_red(R, v, q, I, p, k - 1); assert(redu(R, v, q)[k - 1][p] == (R[k - 1][p] != (R[k - 1][q] && v[p]))); } }
proof fn l_dep(M: Seq<Seq<bool>>, d: int) -> (I: Seq<bool>) requires M.len() > d, d >= 0, forall|i: int| 0 <= i < M.len() ==> (#[trigger] M[i]).len() >= d
  ensures I.len() == M.len(), some(I), forall|p: int| 0 <= p < d ==> !#[trigger] cov(M, I, p, M.len() as int) decreases d
{ let n = M.len() as int;
  if d == 0 { let I = Seq::new(n as nat, |i: int| true); assert(I[0]); I }
  else if exists|r: int| 0 <= r < n && #[trigger] M[r][d - 1] {
    let r = choose|r: int| 0 <= r < n && #[trigger] M[r][d - 1]; let v = M[r]; let R = M.remove(r); let N = redu(R, v, d - 1);
    let J = l_dep(N, d - 1); let b = cov(R, J, d - 1, n - 1); let I = J.insert(r, b);
    let i = choose|i: int| 0 <= i < J.len() && #[trigger] J[i]; assert(I[if i < r { i } else { i + 1 }]);
    assert forall|p: int| 0 <= p < d implies !#[trigger] cov(M, I, p, n) by { l_cov_ins(M, J, r, b, p, n); if p < d - 1 { assert(!cov(N, J, p, n - 1)); l_cov_red(R, v, d - 1, J, p, n - 1); } }
    I }
  else { let I = l_dep(M, d - 1); l_cov_none(M, I, d - 1, n); I } }
// ---- cycles are even at every vertex; a forest contains no non-zero even set
pub open spec fn star(g: G, v: int) -> Set<int> { all_edges(g).filter(|e: int| inc(g, e, v)) }
proof fn l_star(g: G, v: int, e: int) ensures star(g, v).contains(e) <==> inc(g, e, v) {}
proof fn l_par_star(g: G, vs: Seq<int>, es: Seq<int>, v: int, k: int) requires no_loops(g), cyc(g, vs, es), 0 <= k <= vs.len() ensures par(star(g, v), es, k) == ((vs[0] == v) != (vs[if k == vs.len() { 0 } else { k }] == v)) decreases k
{ if k > 0 { let n = vs.len() as int; l_par_star(g, vs, es, v, k - 1); let i = k - 1; assert(joins(g, es[i], vs[i], vs[nx(i, n)])); assert(eid(g, es[i])); l_star(g, v, es[i]); } }
proof fn l_even(g: G, c: Seq<Edge>, v: int) requires cycle_of(g, c), no_loops(g) ensures !xr(star(g, v), cset(c), me(g))
{ let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] cyc_on(g, vs, es, eids(c)); l_sub_eq(eids(c), es); l_cyc_rng(g, vs, es); l_par_star(g, vs, es, v, vs.len() as int); l_par(star(g, v), es, me(g)); }
proof fn l_pip_none(S: Set<int>, cs: Seq<Seq<Edge>>, I: Seq<bool>, k: int, m: int) requires forall|i: int| 0 <= i < k ==> !(#[trigger] I[i] && xr(S, cset(cs[i]), m)) ensures !pip(S, cs, I, k, m) decreases k { if k > 0 { assert(!(I[k - 1] && xr(S, cset(cs[k - 1]), m))); l_pip_none(S, cs, I, k - 1, m); } }
proof fn l_sum_even(g: G, cs: Seq<Seq<Edge>>, I: Seq<bool>, v: int) requires cycles_of(g, cs), no_loops(g) ensures !xs(star(g, v), cs, I, cs.len() as int, me(g))
{ let n = cs.len() as int; l_xs(star(g, v), cs, I, n, me(g)); assert forall|i: int| 0 <= i < n implies !(#[trigger] I[i] && xr(star(g, v), cset(cs[i]), me(g))) by { assert(cycle_of(g, cs[i])); l_even(g, cs[i], v); } l_pip_none(star(g, v), cs, I, n, me(g)); }
// fs: a spanning forest, nf: the other edges
pub open spec fn frm_by(g: G, fs: Seq<Edge>, nf: Seq<int>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>) -> bool { sfw(g, fs, lab, tm, rt) }
pub open spec fn nf_ok(g: G, fs: Seq<Edge>, nf: Seq<int>) -> bool { wf(g) && no_loops(g) && dimension(g, nf.len() as int) && nf.no_duplicates() && (forall|p: int| 0 <= p < nf.len() ==> eid(g, #[trigger] nf[p])) && (forall|e: int| #[trigger] eid(g, e) ==> (nf.contains(e) <==> !ids(fs).contains(e))) }
#[verifier::opaque]
pub open spec fn frm(g: G, fs: Seq<Edge>, nf: Seq<int>) -> bool { nf_ok(g, fs, nf) && exists|lab: Seq<int>, tm: Seq<int>, rt: Seq<int>| #[trigger] frm_by(g, fs, nf, lab, tm, rt) }
pub open spec fn vanish(cs: Seq<Seq<Edge>>, I: Seq<bool>, nf: Seq<int>) -> bool { forall|p: int| 0 <= p < nf.len() ==> !odd(cs, I, #[trigger] nf[p], cs.len() as int) }
proof fn l_odd_out(g: G, cs: Seq<Seq<Edge>>, I: Seq<bool>, e: int, k: int) requires cycles_of(g, cs), 0 <= k <= cs.len(), odd(cs, I, e, k) ensures 0 <= e < me(g) decreases k
{ if k > 0 { if I[k - 1] && uses(cs[k - 1], e) { assert(cycle_of(g, cs[k - 1])); l_cycle_set(g, cs[k - 1]); l_uses_set(cs[k - 1], e); } else { l_odd_out(g, cs, I, e, k - 1); } } }
proof fn l_peel(g: G, fs: Seq<Edge>, nf: Seq<int>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>, cs: Seq<Seq<Edge>>, I: Seq<bool>, i: int)
  requires nf_ok(g, fs, nf), frm_by(g, fs, nf, lab, tm, rt), cycles_of(g, cs), vanish(cs, I, nf), 0 <= i < fs.len()
  ensures forall|j: int| i <= j < fs.len() ==> !odd(cs, I, #[trigger] fs[j].id, cs.len() as int) decreases fs.len() - i
{ let n = cs.len() as int; let m = me(g); if i + 1 < fs.len() { l_peel(g, fs, nf, lab, tm, rt, cs, I, i + 1); }
  assert(sfw_e(g, fs, lab, tm, i) && fs[i].id >= 0); let v = fs[i].t; let x = fs[i].id; let S = star(g, v); assert(eid(g, x)); l_star(g, v, x); l_sum_even(g, cs, I, v);
  assert forall|e: int| 0 <= e < m && e != x implies !(#[trigger] S.contains(e) && odd(cs, I, e, n)) by { if S.contains(e) && odd(cs, I, e, n) { l_star(g, v, e); assert(eid(g, e));
    if nf.contains(e) { let p = choose|p: int| 0 <= p < nf.len() && nf[p] == e; assert(!odd(cs, I, nf[p], n)); }
    else { let j = l_ids_inv(fs, e); if j >= i { assert(!(j > i) || !odd(cs, I, fs[j].id, n)); } assert(sfw_e(g, fs, lab, tm, j) && fs[j].id >= 0); assert(fs[j].t == v || fs[j].s == v); } } }
  l_xs_one(S, cs, I, n, m, x);
  assert forall|j: int| i <= j < fs.len() implies !odd(cs, I, #[trigger] fs[j].id, n) by { if j == i { } } }
// a sum of cycles that has no edge outside the forest is zero
proof fn l_kernel(g: G, fs: Seq<Edge>, nf: Seq<int>, cs: Seq<Seq<Edge>>, I: Seq<bool>) requires frm(g, fs, nf), cycles_of(g, cs), vanish(cs, I, nf) ensures !nonzero(cs, I)
{ reveal(frm); let (lab, tm, rt) = choose|lab: Seq<int>, tm: Seq<int>, rt: Seq<int>| #[trigger] frm_by(g, fs, nf, lab, tm, rt); let n = cs.len() as int;
  if fs.len() > 0 { l_peel(g, fs, nf, lab, tm, rt, cs, I, 0); }
  assert forall|e: int| !#[trigger] odd(cs, I, e, n) by { if odd(cs, I, e, n) { l_odd_out(g, cs, I, e, n); assert(eid(g, e));
    if nf.contains(e) { let p = choose|p: int| 0 <= p < nf.len() && nf[p] == e; assert(!odd(cs, I, nf[p], n)); } else { let j = l_ids_inv(fs, e); assert(!odd(cs, I, fs[j].id, n)); } } } }
// a walk can be made simple
pub open spec fn st(g: G, S: Set<int>, p: Seq<int>, i: int) -> bool { step(g, S, p[i], p[i + 1]) }
#[verifier::opaque]
pub open spec fn walk_o(g: G, S: Set<int>, p: Seq<int>, u: int, v: int) -> bool { walk_uv(g, S, p, u, v) }
proof fn l_walk_v(g: G, S: Set<int>, p: Seq<int>, u: int, v: int, i: int) requires walk_o(g, S, p, u, v) ensures p.len() >= 1, p[0] == u, p[p.len() - 1] == v, 0 <= i < p.len() ==> 0 <= p[i] < g.n, 0 <= i < p.len() - 1 ==> st(g, S, p, i) { reveal(walk_o); }
proof fn l_walk_mk(g: G, S: Set<int>, p: Seq<int>, u: int, v: int) requires p.len() >= 1, p[0] == u, p[p.len() - 1] == v, forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < g.n, forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] st(g, S, p, i) ensures walk_o(g, S, p, u, v)
{ reveal(walk_o); assert forall|i: int| 0 <= i < p.len() - 1 implies step(g, S, #[trigger] p[i], p[i + 1]) by { assert(st(g, S, p, i)); } }
proof fn l_simple_walk(g: G, S: Set<int>, p: Seq<int>, u: int, v: int) -> (q: Seq<int>) requires walk_o(g, S, p, u, v) ensures walk_o(g, S, q, u, v), q.no_duplicates() decreases p.len()
{ if p.no_duplicates() { p } else { let (i, j) = choose|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j && p[i] == p[j]; let (a, b) = if i < j { (i, j) } else { (j, i) };
  let q = p.subrange(0, a) + p.subrange(b, p.len() as int); l_walk_v(g, S, p, u, v, 0);
  assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] < g.n by { let x = if i < a { i } else { i - a + b }; assert(q[i] == p[x]); l_walk_v(g, S, p, u, v, x); }
  assert forall|i: int| 0 <= i < q.len() - 1 implies #[trigger] st(g, S, q, i) by { let x = if i < a { i } else { i - a + b }; assert(q[i] == p[x] && q[i + 1] == p[x + 1]); l_walk_v(g, S, p, u, v, x); }
  assert(q[0] == u && q[q.len() - 1] == v); l_walk_mk(g, S, q, u, v);
  l_simple_walk(g, S, q, u, v) } }
pub open spec fn pick(g: G, S: Set<int>, u: int, v: int) -> int { choose|e: int| S.contains(e) && #[trigger] joins(g, e, u, v) }
// the cycle a non-forest edge closes in the forest
proof fn l_fund(g: G, fs: Seq<Edge>, nf: Seq<int>, e: int) -> (T: Set<int>) requires frm(g, fs, nf), nf.contains(e) ensures scyc(g, T), T.contains(e), eid(g, e), forall|x: int| nf.contains(x) && T.contains(x) ==> x == e
{ reveal(frm); let (lab, tm, rt) = choose|lab: Seq<int>, tm: Seq<int>, rt: Seq<int>| #[trigger] frm_by(g, fs, nf, lab, tm, rt); let S = ids(fs);
  let x = choose|x: int| 0 <= x < nf.len() && nf[x] == e; assert(eid(g, nf[x])); let u = g.ends[e].0; let v = g.ends[e].1; assert(vid(g, u) && vid(g, v)); assert(!S.contains(e)); assert(lab[u] == lab[v]);
  l_sf_root(g, fs, lab, tm, rt, u); l_sf_root(g, fs, lab, tm, rt, v); l_conn_sym(g, S, v, rt[lab[v]]); l_conn_trans(g, S, u, rt[lab[u]], v);
  let p0 = choose|p: Seq<int>| #[trigger] walk_uv(g, S, p, u, v); assert(walk_o(g, S, p0, u, v)) by { reveal(walk_o); } let p = l_simple_walk(g, S, p0, u, v); l_walk_v(g, S, p, u, v, 0); let n = p.len() as int;
  let es = Seq::new(n as nat, |i: int| if i == n - 1 { e } else { pick(g, S, p[i], p[i + 1]) });
  assert forall|i: int| 0 <= i < n - 1 implies S.contains(#[trigger] es[i]) && joins(g, es[i], p[i], p[i + 1]) by { l_walk_v(g, S, p, u, v, i); assert(step(g, S, p[i], p[i + 1])); }
  assert forall|i: int| 0 <= i < n implies joins(g, #[trigger] es[i], p[i], p[nx(i, n)]) by { if i < n - 1 { assert(S.contains(es[i])); } }
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies es[i] != es[j] by { assert(joins(g, es[i], p[i], p[nx(i, n)]) && joins(g, es[j], p[j], p[nx(j, n)])); if i < n - 1 { assert(S.contains(es[i])); } if j < n - 1 { assert(S.contains(es[j])); } }
  assert(cyc(g, p, es)); let T = es.to_set(); assert(cyc_set(g, p, es, T)); assert(es[n - 1] == e); assert(T.contains(e));
  assert forall|x: int| nf.contains(x) && T.contains(x) implies x == e by { let i = choose|i: int| 0 <= i < n && es[i] == x; if i < n - 1 { assert(S.contains(es[i])); let y = choose|y: int| 0 <= y < nf.len() && nf[y] == x; assert(eid(g, nf[y])); } }
  T }
// ---- a basis spans; exchanging one of its cycles
proof fn l_comp_le(g: G, a: Seq<int>, j: int, b: Seq<int>, k: int) requires labels(g, all_edges(g), a, j), labels(g, all_edges(g), b, k), j >= 0, k >= 0 ensures j <= k
{ let r = Seq::new(j as nat, |c: int| choose|v: int| 0 <= v < a.len() && a[v] == c); let q = Seq::new(j as nat, |c: int| b[r[c]]);
  assert forall|c: int| 0 <= c < j implies vid(g, #[trigger] r[c]) && a[r[c]] == c by { assert(a.contains(c)); }
  assert forall|c: int| 0 <= c < q.len() implies 0 <= #[trigger] q[c] < k by { assert(vid(g, r[c])); }
  assert forall|c: int, e: int| 0 <= c < q.len() && 0 <= e < q.len() && c != e implies q[c] != q[e] by { assert(vid(g, r[c]) && vid(g, r[e])); if q[c] == q[e] { assert(conn(g, all_edges(g), r[c], r[e])); } }
  l_bounded(q, k); }
proof fn l_dim_one(g: G, d: int, e: int) requires wf(g), dimension(g, d), dimension(g, e), d >= 0, e >= 0 ensures d == e
{ let j = choose|k: int| #[trigger] ncomp(g, k) && d == g.ends.len() - g.n + k; let k = choose|k: int| #[trigger] ncomp(g, k) && e == g.ends.len() - g.n + k;
  let a = choose|lab: Seq<int>| #[trigger] labels(g, all_edges(g), lab, j); let b = choose|lab: Seq<int>| #[trigger] labels(g, all_edges(g), lab, k);
  if g.n > 0 { assert(vid(g, 0)); } else { if g.ends.len() > 0 { assert(eid(g, 0)); } }
  l_comp_le(g, a, j, b, k); l_comp_le(g, b, k, a, j); }
proof fn l_odd_ext(A: Seq<Seq<Edge>>, B: Seq<Seq<Edge>>, I: Seq<bool>, J: Seq<bool>, e: int, k: int) requires 0 <= k <= A.len(), k <= B.len(), k <= I.len(), k <= J.len(), forall|i: int| 0 <= i < k ==> #[trigger] A[i] == B[i] && I[i] == J[i] ensures odd(A, I, e, k) == odd(B, J, e, k) decreases k { if k > 0 { assert(A[k - 1] == B[k - 1]); l_odd_ext(A, B, I, J, e, k - 1); } }
proof fn l_odd_upd(B: Seq<Seq<Edge>>, c: Seq<Edge>, j: int, K: Seq<bool>, e: int, k: int) requires 0 <= j < B.len(), K.len() == B.len(), 0 <= k <= B.len() ensures odd(B.update(j, c), K, e, k) == (odd(B, K.update(j, false), e, k) != (j < k && K[j] && uses(c, e))) decreases k { if k > 0 { l_odd_upd(B, c, j, K, e, k - 1); } }
proof fn l_odd_xor(B: Seq<Seq<Edge>>, I: Seq<bool>, K: Seq<bool>, L: Seq<bool>, e: int, k: int) requires 0 <= k <= L.len(), I.len() == L.len(), K.len() == L.len(), forall|i: int| 0 <= i < L.len() ==> #[trigger] L[i] == (I[i] != K[i]) ensures odd(B, L, e, k) == (odd(B, I, e, k) != odd(B, K, e, k)) decreases k { if k > 0 { assert(L[k - 1] == (I[k - 1] != K[k - 1])); l_odd_xor(B, I, K, L, e, k - 1); } }
pub open spec fn mat(V: Seq<Seq<Edge>>, nf: Seq<int>) -> Seq<Seq<bool>> { Seq::new(V.len(), |i: int| Seq::new(nf.len(), |p: int| uses(V[i], nf[p]))) }
proof fn l_cov_odd(V: Seq<Seq<Edge>>, nf: Seq<int>, J: Seq<bool>, p: int, k: int) requires 0 <= k <= V.len(), 0 <= p < nf.len() ensures cov(mat(V, nf), J, p, k) == odd(V, J, nf[p], k) decreases k { if k > 0 { l_cov_odd(V, nf, J, p, k - 1); assert(mat(V, nf)[k - 1][p] == uses(V[k - 1], nf[p])); } }
pub open spec fn sums_to(B: Seq<Seq<Edge>>, I: Seq<bool>, c: Seq<Edge>) -> bool { I.len() == B.len() && forall|e: int| #[trigger] odd(B, I, e, B.len() as int) == uses(c, e) }
proof fn l_span(g: G, fs: Seq<Edge>, nf: Seq<int>, B: Seq<Seq<Edge>>, c: Seq<Edge>) -> (I: Seq<bool>) requires frm(g, fs, nf), cycles_of(g, B), indep(B), B.len() == nf.len(), cycle_of(g, c) ensures sums_to(B, I, c)
{ let d = nf.len() as int; let V = B.push(c); let M = mat(V, nf); assert forall|i: int| 0 <= i < M.len() implies (#[trigger] M[i]).len() >= d by {} let J = l_dep(M, d); let n = d + 1; let I = J.take(d);
  assert(vanish(V, J, nf)) by { assert forall|p: int| 0 <= p < nf.len() implies !odd(V, J, #[trigger] nf[p], n) by { assert(!cov(M, J, p, n)); l_cov_odd(V, nf, J, p, n); } }
  assert(cycles_of(g, V)) by { assert forall|i: int| 0 <= i < V.len() implies cycle_of(g, #[trigger] V[i]) by { if i < d { assert(V[i] == B[i]); } } }
  l_kernel(g, fs, nf, V, J);
  assert forall|e: int| #[trigger] odd(B, I, e, d) == (J[d] && uses(c, e)) by { assert(!odd(V, J, e, n)); assert(V[d] == c); assert(odd(V, J, e, n) == (odd(V, J, e, d) != (J[d] && uses(V[d], e)))); assert forall|i: int| 0 <= i < d implies #[trigger] V[i] == B[i] && J[i] == I[i] by {} l_odd_ext(V, B, J, I, e, d); }
  if !J[d] { let i = choose|i: int| 0 <= i < J.len() && #[trigger] J[i]; assert(I[i]); assert(some(I)); assert(nonzero(B, I)); let e = choose|e: int| #[trigger] odd(B, I, e, B.len() as int); assert(odd(B, I, e, d) == (J[d] && uses(c, e))); }
  I }
proof fn l_exch(B: Seq<Seq<Edge>>, I: Seq<bool>, c: Seq<Edge>, j: int) requires indep(B), sums_to(B, I, c), 0 <= j < B.len(), I[j] ensures indep(B.update(j, c))
{ let B2 = B.update(j, c); let n = B.len() as int;
  assert forall|K: Seq<bool>| K.len() == B2.len() && #[trigger] some(K) implies nonzero(B2, K) by {
    let K0 = K.update(j, false); let L = if K[j] { Seq::new(n as nat, |i: int| I[i] != K0[i]) } else { K0 };
    assert(L.len() == n); assert(some(L)) by { if K[j] { assert(L[j]); } else { let i = choose|i: int| 0 <= i < K.len() && #[trigger] K[i]; assert(L[i]); } }
    assert(nonzero(B, L)); let e = choose|e: int| #[trigger] odd(B, L, e, n); l_odd_upd(B, c, j, K, e, n);
    if K[j] { l_odd_xor(B, I, K0, L, e, n); assert(odd(B, I, e, n) == uses(c, e)); }
    assert(odd(B2, K, e, n)); } }
proof fn l_tot_upd(wm: Seq<real>, cs: Seq<Seq<Edge>>, j: int, c: Seq<Edge>) requires 0 <= j < cs.len() ensures tot(wm, cs.update(j, c)) == tot(wm, cs) - wt(wm, cs[j]) + wt(wm, c) decreases cs.len()
{ let D = cs.update(j, c); if j == cs.len() - 1 { assert(D.drop_last() =~= cs.drop_last()); } else { l_tot_upd(wm, cs.drop_last(), j, c); assert(D.drop_last() =~= cs.drop_last().update(j, c)); assert(D.last() == cs.last()); } }
proof fn l_xs_set(S: Set<int>, B: Seq<Seq<Edge>>, I: Seq<bool>, c: Seq<Edge>, m: int) requires sums_to(B, I, c) ensures xs(S, B, I, B.len() as int, m) == xr(S, cset(c), m) decreases m { if m > 0 { l_xs_set(S, B, I, c, m - 1); l_uses_set(c, m - 1); assert(odd(B, I, m - 1, B.len() as int) == uses(c, m - 1)); } }
// F contains the cycles of cs, each at its place
pub open spec fn placed(F: Seq<Seq<Edge>>, cs: Seq<Seq<Edge>>, pos: Seq<int>) -> bool { pos.no_duplicates() && pos.len() <= cs.len() && forall|r: int| 0 <= r < pos.len() ==> 0 <= #[trigger] pos[r] < F.len() && F[pos[r]] == cs[r] }
pub open spec fn wts(wm: Seq<real>, F: Seq<Seq<Edge>>) -> Seq<real> { Seq::new(F.len(), |i: int| wt(wm, F[i])) }
proof fn l_ws_all(wm: Seq<real>, F: Seq<Seq<Edge>>, T: Set<int>, k: int) requires 0 <= k <= F.len(), forall|i: int| 0 <= i < k ==> T.contains(i) ensures ws(wts(wm, F), T, k) == tot(wm, F.take(k)) decreases k
{ if k > 0 { l_ws_all(wm, F, T, k - 1); assert(F.take(k).drop_last() =~= F.take(k - 1)); assert(F.take(k).last() == F[k - 1]); assert(T.contains(k - 1)); } else { assert(F.take(0).len() == 0); } }
proof fn l_wsum_pos(wm: Seq<real>, F: Seq<Seq<Edge>>, cs: Seq<Seq<Edge>>, pos: Seq<int>) requires placed(F, cs, pos) ensures wsum(wts(wm, F), pos) == tot(wm, cs.take(pos.len() as int)) decreases pos.len()
{ let k = pos.len() as int; if k > 0 { let p = pos.drop_last(); assert forall|r: int| 0 <= r < p.len() implies 0 <= #[trigger] p[r] < F.len() && F[p[r]] == cs[r] by { assert(p[r] == pos[r]); } l_wsum_pos(wm, F, cs, p); assert(cs.take(k).drop_last() =~= cs.take(k - 1)); assert(F[pos[k - 1]] == cs[k - 1]); } else { assert(cs.take(0).len() == 0); } }
proof fn l_tot_perm(wm: Seq<real>, F: Seq<Seq<Edge>>, cs: Seq<Seq<Edge>>, pos: Seq<int>) requires placed(F, cs, pos), pos.len() == cs.len(), F.len() == cs.len() ensures tot(wm, F) == tot(wm, cs)
{ let d = F.len() as int; let T = pos.to_set(); pos.unique_seq_to_set(); let R = Set::range(0, d); l_range(d); assert forall|x: int| T.contains(x) implies R.contains(x) by { let i = choose|i: int| 0 <= i < pos.len() && pos[i] == x; assert(0 <= pos[i] < d); }
  vstd::set_lib::lemma_subset_equality(T, R); assert forall|i: int| 0 <= i < d implies T.contains(i) by { assert(R.contains(i)); }
  assert forall|i: int| 0 <= i < pos.len() implies 0 <= #[trigger] pos[i] < d by {} l_ws(wts(wm, F), pos, d); l_ws_all(wm, F, T, d); l_wsum_pos(wm, F, cs, pos); assert(F.take(d) =~= F); assert(cs.take(d) =~= cs); }
// ---- the main loop: support vectors sup (edge sets), cycles cs found so far, and the witness pi that the remaining supports are non-zero
pub open spec fn m_sup(g: G, nf: Seq<int>, sup: Seq<Set<int>>, i: int) -> bool { forall|e: int| #[trigger] sup[i].contains(e) ==> nf.contains(e) }
pub open spec fn m_cyc(g: G, wm: Seq<real>, sup: Seq<Set<int>>, cs: Seq<Seq<Edge>>, i: int) -> bool { cycle_of(g, cs[i]) && min_odd(g, wm, sup[i], cset(cs[i]), wt(wm, cs[i])) }
pub open spec fn m_orth(g: G, sup: Seq<Set<int>>, cs: Seq<Seq<Edge>>, i: int, j: int) -> bool { !xr(sup[j], cset(cs[i]), me(g)) }
pub open spec fn m_dual(sup: Seq<Set<int>>, pi: Seq<int>, i: int, j: int) -> bool { sup[j].contains(pi[i]) <==> i == j }
#[verifier::opaque]
pub open spec fn mst(g: G, wm: Seq<real>, nf: Seq<int>, sup: Seq<Set<int>>, cs: Seq<Seq<Edge>>, pi: Seq<int>) -> bool {
  let d = nf.len() as int; let k = cs.len() as int;
  sup.len() == d && pi.len() == d && 0 <= k <= d
  && (forall|i: int| 0 <= i < d ==> #[trigger] m_sup(g, nf, sup, i))
  && (forall|i: int| k <= i < d ==> nf.contains(#[trigger] pi[i]))
  && (forall|i: int, j: int| k <= i < d && k <= j < d ==> #[trigger] m_dual(sup, pi, i, j))
  && (forall|i: int| 0 <= i < k ==> #[trigger] m_cyc(g, wm, sup, cs, i))
  && (forall|i: int, j: int| 0 <= i < k && i < j < d ==> #[trigger] m_orth(g, sup, cs, i, j)) }
pub open spec fn units(nf: Seq<int>) -> Seq<Set<int>> { Seq::new(nf.len(), |i: int| Set::empty().insert(nf[i])) }
proof fn l_mst0(g: G, wm: Seq<real>, nf: Seq<int>) requires nf.no_duplicates() ensures mst(g, wm, nf, units(nf), Seq::empty(), nf)
{ reveal(mst); let sup = units(nf); let d = nf.len() as int; assert forall|i: int| 0 <= i < d implies #[trigger] m_sup(g, nf, sup, i) by { assert(nf.contains(nf[i])); } assert forall|i: int| 0 <= i < d implies nf.contains(#[trigger] nf[i]) by {} }
proof fn l_mst_odd(g: G, wm: Seq<real>, fs: Seq<Edge>, nf: Seq<int>, sup: Seq<Set<int>>, cs: Seq<Seq<Edge>>, pi: Seq<int>) requires frm(g, fs, nf), mst(g, wm, nf, sup, cs, pi), cs.len() < nf.len() ensures has_odd(g, sup[cs.len() as int])
{ reveal(mst); reveal(has_odd); let k = cs.len() as int; let S = sup[k]; let e = pi[k]; assert(nf.contains(pi[k])); assert(m_dual(sup, pi, k, k)); assert(m_sup(g, nf, sup, k)); let T = l_fund(g, fs, nf, e); l_xr_one(S, T, me(g), e); assert(scyc(g, T) && xr(S, T, me(g))); }
pub open spec fn swp<A>(s: Seq<A>, a: int, b: int) -> Seq<A> { s.update(a, s[b]).update(b, s[a]) }
proof fn l_mst_swap(g: G, wm: Seq<real>, nf: Seq<int>, sup: Seq<Set<int>>, cs: Seq<Seq<Edge>>, pi: Seq<int>, r: int) requires mst(g, wm, nf, sup, cs, pi), cs.len() <= r < nf.len() ensures mst(g, wm, nf, swp(sup, cs.len() as int, r), cs, swp(pi, cs.len() as int, r))
{ reveal(mst); let k = cs.len() as int; let d = nf.len() as int; let s2 = swp(sup, k, r); let p2 = swp(pi, k, r);
  let f = |i: int| if i == k { r } else if i == r { k } else { i };
  assert forall|i: int| 0 <= i < d implies #[trigger] s2[i] == sup[f(i)] && p2[i] == pi[f(i)] by {}
  assert forall|i: int| 0 <= i < d implies #[trigger] m_sup(g, nf, s2, i) by { assert(m_sup(g, nf, sup, f(i))); assert(s2[i] == sup[f(i)]); }
  assert forall|i: int| k <= i < d implies nf.contains(#[trigger] p2[i]) by { assert(s2[i] == sup[f(i)]); assert(nf.contains(pi[f(i)])); }
  assert forall|i: int, j: int| k <= i < d && k <= j < d implies #[trigger] m_dual(s2, p2, i, j) by { assert(m_dual(sup, pi, f(i), f(j))); assert(s2[j] == sup[f(j)]); assert(s2[i] == sup[f(i)]); }
  assert forall|i: int| 0 <= i < k implies #[trigger] m_cyc(g, wm, s2, cs, i) by { assert(m_cyc(g, wm, sup, cs, i)); assert(s2[i] == sup[f(i)]); }
  assert forall|i: int, j: int| 0 <= i < k && i < j < d implies #[trigger] m_orth(g, s2, cs, i, j) by { assert(m_orth(g, sup, cs, i, f(j))); assert(s2[j] == sup[f(j)]); } }
// the update of the support vectors after the cycle c of support k
pub open spec fn upd_one(g: G, S: Set<int>, R: Set<int>, c: Set<int>, X: Set<int>) -> bool { if xr(S, c, me(g)) { symd(X, S, R) } else { X == S } }
pub open spec fn updated(g: G, sup: Seq<Set<int>>, s2: Seq<Set<int>>, c: Set<int>, k: int, l: int) -> bool { s2.len() == sup.len() && (forall|j: int| k < j < l ==> upd_one(g, sup[j], sup[k], c, #[trigger] s2[j])) && (forall|j: int| (0 <= j <= k || l <= j < sup.len()) ==> #[trigger] s2[j] == sup[j]) }
proof fn l_mst_step(g: G, wm: Seq<real>, nf: Seq<int>, sup: Seq<Set<int>>, cs: Seq<Seq<Edge>>, pi: Seq<int>, s2: Seq<Set<int>>, c: Seq<Edge>)
  requires mst(g, wm, nf, sup, cs, pi), cs.len() < nf.len(), cycle_of(g, c), min_odd(g, wm, sup[cs.len() as int], cset(c), wt(wm, c)), updated(g, sup, s2, cset(c), cs.len() as int, nf.len() as int)
  ensures mst(g, wm, nf, s2, cs.push(c), pi)
{ reveal(mst); let k = cs.len() as int; let d = nf.len() as int; let R = sup[k]; let T = cset(c); let m = me(g); let cs2 = cs.push(c);
  assert(xr(R, T, m)) by { reveal(min_odd); }
  assert forall|i: int| 0 <= i < d implies #[trigger] m_sup(g, nf, s2, i) by { assert(m_sup(g, nf, sup, i)); assert(m_sup(g, nf, sup, k)); if i > k { assert(upd_one(g, sup[i], R, T, s2[i])); } else { assert(s2[i] == sup[i]); } }
  assert forall|i: int, j: int| k + 1 <= i < d && k + 1 <= j < d implies #[trigger] m_dual(s2, pi, i, j) by { assert(m_dual(sup, pi, i, j)); assert(m_dual(sup, pi, i, k)); assert(upd_one(g, sup[j], R, T, s2[j])); }
  assert forall|i: int| 0 <= i < k + 1 implies #[trigger] m_cyc(g, wm, s2, cs2, i) by { assert(s2[i] == sup[i]); if i < k { assert(m_cyc(g, wm, sup, cs, i)); assert(cs2[i] == cs[i]); } else { assert(cs2[k] == c); } }
  assert forall|i: int, j: int| 0 <= i < k + 1 && i < j < d implies #[trigger] m_orth(g, s2, cs2, i, j) by {
    if j <= k { assert(s2[j] == sup[j]); assert(m_orth(g, sup, cs, i, j)); assert(cs2[i] == cs[i]); }
    else { assert(upd_one(g, sup[j], R, T, s2[j])); if i < k { assert(m_orth(g, sup, cs, i, j) && m_orth(g, sup, cs, i, k)); assert(cs2[i] == cs[i]); if xr(sup[j], T, m) { l_xr_sym(s2[j], sup[j], R, cset(cs[i]), m); } } else { assert(cs2[k] == c); if xr(sup[j], T, m) { l_xr_sym(s2[j], sup[j], R, T, m); } } } } }
// no basis is lighter
#[verifier::opaque]
pub open spec fn minimum(g: G, wm: Seq<real>, W: real) -> bool { forall|B: Seq<Seq<Edge>>| #[trigger] basis(g, B) ==> W <= tot(wm, B) }
// de Pina's witnesses: supports against which every cycle of the list is a lightest odd one, and odd for no later support
pub open spec fn pina_by(g: G, wm: Seq<real>, cs: Seq<Seq<Edge>>, sup: Seq<Set<int>>) -> bool { sup.len() == cs.len() && (forall|i: int| 0 <= i < cs.len() ==> #[trigger] m_cyc(g, wm, sup, cs, i)) && forall|i: int, j: int| 0 <= i < j < cs.len() ==> #[trigger] m_orth(g, sup, cs, i, j) }
#[verifier::opaque]
pub open spec fn pina(g: G, wm: Seq<real>, cs: Seq<Seq<Edge>>) -> bool { exists|sup: Seq<Set<int>>| #[trigger] pina_by(g, wm, cs, sup) }
proof fn l_tri_indep(g: G, wm: Seq<real>, nf: Seq<int>, sup: Seq<Set<int>>, cs: Seq<Seq<Edge>>, pi: Seq<int>) requires mst(g, wm, nf, sup, cs, pi), cs.len() == nf.len() ensures indep(cs), cycles_of(g, cs)
{ reveal(mst); let d = cs.len() as int; let m = me(g);
  assert forall|i: int| 0 <= i < d implies cycle_of(g, #[trigger] cs[i]) by { assert(m_cyc(g, wm, sup, cs, i)); }
  assert forall|I: Seq<bool>| I.len() == d && #[trigger] some(I) implies nonzero(cs, I) by {
    let i0 = choose|i: int| 0 <= i < I.len() && #[trigger] I[i]; let j = l_last(I, d, i0); let S = sup[j]; assert(m_cyc(g, wm, sup, cs, j)); reveal(min_odd);
    assert forall|i: int| 0 <= i < d && i != j implies !(#[trigger] I[i] && xr(S, cset(cs[i]), m)) by { if i < j { assert(m_orth(g, sup, cs, i, j)); } }
    l_pip_one(S, cs, I, d, m, j); l_xs(S, cs, I, d, m);
    if !nonzero(cs, I) { assert forall|e: int| 0 <= e < m && e != -1 implies !(#[trigger] S.contains(e) && odd(cs, I, e, d)) by { assert(!odd(cs, I, e, d)); } l_xs_one(S, cs, I, d, m, -1); } } }
proof fn l_last(I: Seq<bool>, k: int, i: int) -> (j: int) requires 0 <= i < k <= I.len(), I[i] ensures 0 <= j < k, I[j], forall|x: int| j < x < k ==> !I[x] decreases k { if I[k - 1] { k - 1 } else { l_last(I, k - 1, i) } }
proof fn l_improve(g: G, wm: Seq<real>, fs: Seq<Edge>, nf: Seq<int>, sup: Seq<Set<int>>, cs: Seq<Seq<Edge>>, pi: Seq<int>, B: Seq<Seq<Edge>>, pos: Seq<int>)
  requires frm(g, fs, nf), mst(g, wm, nf, sup, cs, pi), cs.len() == nf.len(), cycles_of(g, B), indep(B), B.len() == nf.len(), placed(B, cs, pos) ensures tot(wm, cs) <= tot(wm, B) decreases cs.len() - pos.len()
{ let i = pos.len() as int; let d = cs.len() as int; let m = me(g);
  if i == d { l_tot_perm(wm, B, cs, pos); } else {
    assert(m_cyc(g, wm, sup, cs, i)) by { reveal(mst); } let c = cs[i]; let S = sup[i]; let I = l_span(g, fs, nf, B, c);
    assert(xr(S, cset(c), m)) by { reveal(min_odd); } l_xs_set(S, B, I, c, m); l_xs(S, B, I, d, m); let j = l_pip_some(S, B, I, d, m);
    assert(cycle_of(g, B[j])); l_cycle_set(g, B[j]); l_wt_set(g, wm, B[j]); assert(wt(wm, c) <= wt(wm, B[j])) by { reveal(min_odd); }
    let B2 = B.update(j, c); let p2 = pos.push(j); l_exch(B, I, c, j); l_tot_upd(wm, B, j, c);
    assert forall|r: int| 0 <= r < i implies #[trigger] pos[r] != j by { assert(B[pos[r]] == cs[r]); assert(m_orth(g, sup, cs, r, i)) by { reveal(mst); } }
    assert forall|r: int| 0 <= r < p2.len() implies 0 <= #[trigger] p2[r] < B2.len() && B2[p2[r]] == cs[r] by { if r < i { assert(p2[r] == pos[r]); } }
    assert(p2.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < p2.len() && 0 <= b < p2.len() && a != b implies p2[a] != p2[b] by { if a < i { assert(pos[a] != j); } if b < i { assert(pos[b] != j); } } }
    assert forall|r: int| 0 <= r < B2.len() implies cycle_of(g, #[trigger] B2[r]) by { if r != j { assert(cycle_of(g, B[r])); } }
    l_improve(g, wm, fs, nf, sup, cs, pi, B2, p2); } }
proof fn l_mst_end(g: G, wm: Seq<real>, fs: Seq<Edge>, nf: Seq<int>, sup: Seq<Set<int>>, cs: Seq<Seq<Edge>>, pi: Seq<int>) requires frm(g, fs, nf), mst(g, wm, nf, sup, cs, pi), cs.len() == nf.len() ensures basis(g, cs), minimum(g, wm, tot(wm, cs)), pina(g, wm, cs)
{ assert(pina(g, wm, cs)) by { reveal(pina); reveal(mst); assert(pina_by(g, wm, cs, sup)); } l_tri_indep(g, wm, nf, sup, cs, pi); assert(nf_ok(g, fs, nf)) by { reveal(frm); } reveal(minimum);
  assert forall|B: Seq<Seq<Edge>>| #[trigger] basis(g, B) implies tot(wm, cs) <= tot(wm, B) by { l_dim_one(g, nf.len() as int, B.len() as int); l_improve(g, wm, fs, nf, sup, cs, pi, B, Seq::empty()); } }
