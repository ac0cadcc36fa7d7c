// ---- walking from the ends of a candidate's edge to the root
pub open spec fn nogood(t: SPTree, S: Set<int>, e: int, lim: bool, w: real) -> bool { !good(t, S, e) || (lim && cand_w(t, e) > w) }
pub open spec fn bst(t: SPTree, full: Seq<int>, pre: Seq<int>, w: int, R: Set<int>, wt: real) -> bool { live(t, w) && full == pre + rpe(t, w) && pre.no_duplicates() && R == pre.to_set() && wt == wsum(t._weight_map, pre) }
proof fn l_bst0(t: SPTree, e: int, R: Set<int>, wt: real) requires tsk(t), ends_live(t, e), R =~= Set::<int>::empty().insert(e), wt == t._weight_map[e] ensures bst(t, seq![e] + rpe(t, t._g.ends[e].0), seq![e], t._g.ends[e].0, R, wt)
{ l_w1(t._weight_map, e); assert(seq![e][0] == e); assert forall|x: int| seq![e].to_set().contains(x) <==> R.contains(x) by { if seq![e].contains(x) { let i = choose|i: int| 0 <= i < 1 && seq![e][i] == x; } if x == e { assert(seq![e].contains(x)); } } assert(R =~= seq![e].to_set()); }
proof fn l_bst_mid(t: SPTree, e: int, pre: Seq<int>, w: int, R: Set<int>, wt: real) requires tsk(t), ends_live(t, e), bst(t, seq![e] + rpe(t, t._g.ends[e].0), pre, w, R, wt), !t.hp[nod(t, w)]._has_pred ensures bst(t, cl(t, e), pre, t._g.ends[e].1, R, wt)
{ l_rp(t, w); assert(pre + rpe(t, w) =~= pre); }
proof fn l_bst_end(t: SPTree, e: int, pre: Seq<int>, w: int, R: Set<int>, wt: real, S: Set<int>) requires tsk(t), ends_live(t, e), bst(t, cl(t, e), pre, w, R, wt), !t.hp[nod(t, w)]._has_pred, parv(S, cl(t, e)) ensures good(t, S, e), R == cl(t, e).to_set(), wt == wsum(t._weight_map, cl(t, e)), wt == cand_w(t, e)
{ l_rp(t, w); assert(pre + rpe(t, w) =~= pre); l_cwalk(t, S, e); }
// at a vertex with a predecessor
proof fn l_bst_at(t: SPTree, w: int) requires tsk(t), live(t, w) ensures 0 <= nod(t, w) < t.hp.len(), vid(t._g, w), w < t._tree_node_map.len(), t.hp[nod(t, w)]._has_pred ==> ({ let a = t.hp[nod(t, w)]._pred; edge_ok(t._g, a) && eid(t._g, a.id) && joins(t._g, a.id, parent(t, nod(t, w)), w) && live(t, parent(t, nod(t, w))) && rpe(t, w) == seq![a.id] + rpe(t, parent(t, nod(t, w))) })
{ l_rp(t, w); l_tv(t, w); l_nodef(t, nod(t, w)); l_troot(t); }
proof fn l_bst_step(t: SPTree, e: int, full: Seq<int>, pre: Seq<int>, w: int, R: Set<int>, wt: real, S: Set<int>, lim: bool, lw: real)
  requires tsk(t), ends_live(t, e), full == cl(t, e) || full == seq![e] + rpe(t, t._g.ends[e].0), bst(t, full, pre, w, R, wt), t.hp[nod(t, w)]._has_pred
  ensures ({ let a = t.hp[nod(t, w)]._pred.id; let p = parent(t, nod(t, w)); if R.contains(a) { nogood(t, S, e, lim, lw) } else { let wt2 = wt + t._weight_map[a]; bst(t, full, pre.push(a), p, R.insert(a), wt2) && (lim && wt2 > lw ==> nogood(t, S, e, lim, lw)) } })
{ l_rp(t, w); let c = nod(t, w); let a = t.hp[c]._pred.id; let p = parent(t, c); let q = pre.push(a); let wm = t._weight_map; let C = cl(t, e); assert(full =~= q + rpe(t, p)); let k = pre.len() as int; assert(full[k] == a);
  let rest = C.skip(full.len() as int); assert(C =~= full + rest) by { if full == C { } else { assert(rest =~= rpe(t, t._g.ends[e].1)); } }
  if R.contains(a) { let i = choose|i: int| 0 <= i < pre.len() && pre[i] == a; assert(C[i] == a && C[k] == a); assert(!C.no_duplicates()); }
  else { assert(q.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { if i == k { assert(pre.contains(pre[j])); assert(R.contains(pre[j])); } else if j == k { assert(pre.contains(pre[i])); assert(R.contains(pre[i])); } } }
    assert forall|x: int| R.insert(a).contains(x) <==> q.to_set().contains(x) by { if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; if i < k { assert(pre.contains(pre[i])); } } if pre.contains(x) { let i = choose|i: int| 0 <= i < pre.len() && pre[i] == x; assert(q[i] == x); } if x == a { assert(q[k] == a); } } assert(R.insert(a) =~= q.to_set());
    assert(q.drop_last() =~= pre); assert(wsum(wm, q) == wt + wm[a]);
    l_wsum_cat(wm, q, rpe(t, p)); l_wsum_cat(wm, full, rest); l_cl_ids(t, e); l_troot(t);
    assert forall|i: int| 0 <= i < rpe(t, p).len() implies 0 <= #[trigger] rpe(t, p)[i] < wm.len() by { assert(C[k + 1 + i] == rpe(t, p)[i]); assert(eid(t._g, C[k + 1 + i])); } l_wsum_gt(t._g, wm, rpe(t, p));
    assert forall|i: int| 0 <= i < rest.len() implies 0 <= #[trigger] rest[i] < wm.len() by { let j = full.len() + i; assert(C[j] == rest[i]); assert(eid(t._g, C[j])); } l_wsum_gt(t._g, wm, rest); l_cwalk(t, S, e); } }
proof fn l_cl_ids(t: SPTree, e: int) requires tsk(t), ends_live(t, e) ensures forall|i: int| 0 <= i < cl(t, e).len() ==> eid(t._g, #[trigger] cl(t, e)[i])
{ let u = t._g.ends[e].0; let v = t._g.ends[e].1; l_rp(t, u); l_rp(t, v); let A = rpe(t, u); let B = rpe(t, v); let C = cl(t, e); assert forall|i: int| 0 <= i < C.len() implies eid(t._g, #[trigger] C[i]) by { if i == 0 { assert(C[i] == e); } else if i < 1 + A.len() { let j = i - 1; assert(C[i] == A[j]); assert(joins(t._g, A[j], rpv(t, u)[j], rpv(t, u)[j + 1])); } else { let j = i - 1 - A.len(); assert(C[i] == B[j]); assert(joins(t._g, B[j], rpv(t, v)[j], rpv(t, v)[j + 1])); } } }
// ---- all trees and the list of their candidates
pub open spec fn trok1(t: SPTree, g: G, wm: Seq<real>, i: int) -> bool { tsk(t) && first_ok(t) && t._g == g && t._weight_map == wm && t._id == i }
pub open spec fn cyc_in(trees: Seq<SPTree>, c: CandidateCycle) -> bool { 0 <= c._tree < trees.len() && cand_of(trees[c._tree], c) }
pub open spec fn list_at(cycles: Seq<CandidateCycle>, i: int, ti: int, e: int) -> bool { 0 <= i < cycles.len() && cycles[i]._tree == ti && cycles[i]._e.id == e }
pub open spec fn in_list(cycles: Seq<CandidateCycle>, ti: int, e: int) -> bool { exists|i: int| #[trigger] list_at(cycles, i, ti, e) }
pub open spec fn hit(trees: Seq<SPTree>, vs: Seq<int>, i: int, j: int) -> bool { 0 <= i < trees.len() && 0 <= j < vs.len() && trees[i]._source == vs[j] }
#[verifier::opaque]
pub open spec fn trok(trees: Seq<SPTree>, g: G, wm: Seq<real>) -> bool { forall|i: int| 0 <= i < trees.len() ==> trok1(#[trigger] trees[i], g, wm, i) }
// the candidates of the first k trees, and nothing else
#[verifier::opaque]
pub open spec fn cyok(trees: Seq<SPTree>, cycles: Seq<CandidateCycle>, k: int) -> bool { (forall|i: int| 0 <= i < cycles.len() ==> cyc_in(trees, #[trigger] cycles[i])) && (forall|ti: int, e: int| 0 <= ti < k && #[trigger] iscand(trees[ti], e) ==> in_list(cycles, ti, e)) }
// every cycle of the graph passes the root of a tree
#[verifier::opaque]
pub open spec fn covers(trees: Seq<SPTree>, g: G) -> bool { forall|vs: Seq<int>, es: Seq<int>| #[trigger] cyc(g, vs, es) ==> exists|i: int, j: int| #[trigger] hit(trees, vs, i, j) }
pub open spec fn tready(trees: Seq<SPTree>, cycles: Seq<CandidateCycle>, g: G, wm: Seq<real>) -> bool { epre(g, wm) && trok(trees, g, wm) && cyok(trees, cycles, trees.len() as int) && covers(trees, g) }
#[verifier::opaque]
pub open spec fn sortedc(cycles: Seq<CandidateCycle>) -> bool { forall|i: int, j: int| 0 <= i < j < cycles.len() ==> (#[trigger] cycles[i])._weight <= (#[trigger] cycles[j])._weight }
pub open spec fn reparity(S: Set<int>, a: SPTree, b: SPTree) -> bool { par_ok(b, S) && parsame(a, b) }
#[verifier::opaque]
pub open spec fn parall(trees: Seq<SPTree>, S: Set<int>) -> bool { forall|i: int| 0 <= i < trees.len() ==> par_ok(#[trigger] trees[i], S) }
proof fn l_trok(trees: Seq<SPTree>, g: G, wm: Seq<real>, i: int) requires trok(trees, g, wm), 0 <= i < trees.len() ensures trok1(trees[i], g, wm, i) { reveal(trok); }
proof fn l_same_tree(a: SPTree, b: SPTree) requires tsk(a), first_ok(a), parsame(a, b) ensures tsk(b), first_ok(b), b._g == a._g, b._weight_map == a._weight_map, b._id == a._id, b._source == a._source, forall|e: int| #[trigger] iscand(b, e) == iscand(a, e), forall|e: int| iscand(a, e) ==> #[trigger] cand_w(b, e) == cand_w(a, e)
{ l_parsame(a, b); assert forall|c: int| 0 <= c < b.hp.len() implies #[trigger] b.hp[c] == (SPNode { _parity: b.hp[c]._parity, ..a.hp[c] }) by { assert(0 <= c < a.hp.len()); let x = a.hp[c]; }
  assert(first_ok(b)) by { reveal(first_ok); assert forall|c: int| 0 <= c < b.hp.len() implies #[trigger] first_at(b, c) by { assert(first_at(a, c)); assert(b.hp[c] == (SPNode { _parity: b.hp[c]._parity, ..a.hp[c] })); } }
  assert forall|v: int, e: int| 0 <= v < a._g.n implies #[trigger] tedge_at(a, v, e) == tedge_at(b, v, e) by { l_tv(a, v); }
  assert forall|e: int| tedge(a, a._g.n, e) == #[trigger] tedge(b, b._g.n, e) by { if tedge(a, a._g.n, e) { let v = choose|v: int| 0 <= v < a._g.n && #[trigger] tedge_at(a, v, e); assert(tedge_at(b, v, e)); } if tedge(b, b._g.n, e) { let v = choose|v: int| 0 <= v < b._g.n && #[trigger] tedge_at(b, v, e); assert(tedge_at(a, v, e)); } }
  assert forall|e: int| iscand(a, e) implies #[trigger] cand_w(b, e) == cand_w(a, e) by { l_troot(a); l_tv(a, a._g.ends[e].0); l_tv(a, a._g.ends[e].1); } }
proof fn l_ready(a: Seq<SPTree>, b: Seq<SPTree>, cycles: Seq<CandidateCycle>, g: G, wm: Seq<real>, S: Set<int>)
  requires tready(a, cycles, g, wm), a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> reparity(S, a[i], #[trigger] b[i]) ensures tready(b, cycles, g, wm), parall(b, S)
{ reveal(parall); reveal(cyok); reveal(covers);
  assert forall|i: int| 0 <= i < a.len() implies par_ok(#[trigger] b[i], S) && trok1(b[i], g, wm, i) && a[i]._source == b[i]._source && (forall|e: int| #[trigger] iscand(b[i], e) == iscand(a[i], e)) && (forall|e: int| iscand(a[i], e) ==> #[trigger] cand_w(b[i], e) == cand_w(a[i], e)) by { l_trok(a, g, wm, i); l_same_tree(a[i], b[i]); }
  assert(trok(b, g, wm)) by { reveal(trok); }
  assert forall|i: int| 0 <= i < cycles.len() implies cyc_in(b, #[trigger] cycles[i]) by { assert(cyc_in(a, cycles[i])); let ti = cycles[i]._tree; let t2 = b[ti]; assert(iscand(t2, cycles[i]._e.id)); }
  assert forall|ti: int, e: int| 0 <= ti < b.len() && #[trigger] iscand(b[ti], e) implies in_list(cycles, ti, e) by { let t2 = b[ti]; assert(iscand(a[ti], e)); }
  assert forall|vs: Seq<int>, es: Seq<int>| #[trigger] cyc(g, vs, es) implies exists|i: int, j: int| #[trigger] hit(b, vs, i, j) by { let (i, j) = choose|i: int, j: int| #[trigger] hit(a, vs, i, j); let t2 = b[i]; assert(hit(b, vs, i, j)); } }
// ---- looking for the lightest good candidate
pub open spec fn gd(trees: Seq<SPTree>, cycles: Seq<CandidateCycle>, S: Set<int>, i: int) -> bool { good(trees[cycles[i]._tree], S, cycles[i]._e.id) }
pub open spec fn is_it(trees: Seq<SPTree>, cycles: Seq<CandidateCycle>, S: Set<int>, T: Set<int>, W: real, i: int) -> bool { gd(trees, cycles, S, i) && T == cl(trees[cycles[i]._tree], cycles[i]._e.id).to_set() && W == cycles[i]._weight }
#[verifier::opaque]
pub open spec fn lk(trees: Seq<SPTree>, cycles: Seq<CandidateCycle>, S: Set<int>, a: int, k: int, T: Set<int>, W: real, f: bool) -> bool { (f ==> exists|i: int| a <= i < k && #[trigger] is_it(trees, cycles, S, T, W, i)) && forall|i: int| a <= i < k && #[trigger] gd(trees, cycles, S, i) ==> f && W <= cycles[i]._weight }
proof fn l_lk0(trees: Seq<SPTree>, cycles: Seq<CandidateCycle>, S: Set<int>, a: int, T: Set<int>, W: real) ensures lk(trees, cycles, S, a, a, T, W, false) { reveal(lk); }
// what the builder says of cycle k
pub open spec fn built(trees: Seq<SPTree>, cycles: Seq<CandidateCycle>, S: Set<int>, k: int, lim: bool, w: real, T: Set<int>, W: real, f: bool) -> bool { let t = trees[cycles[k]._tree]; let e = cycles[k]._e.id; if f { good(t, S, e) && T == cl(t, e).to_set() && W == cand_w(t, e) } else { nogood(t, S, e, lim, w) } }
proof fn l_lk_pre(trees: Seq<SPTree>, cycles: Seq<CandidateCycle>, g: G, wm: Seq<real>, S: Set<int>, k: int) requires tready(trees, cycles, g, wm), parall(trees, S), 0 <= k < cycles.len()
  ensures ({ let c = cycles[k]; 0 <= c._tree < trees.len() && tsk(trees[c._tree]) && par_ok(trees[c._tree], S) && trees[c._tree]._g == g && trees[c._tree]._weight_map == wm && ends_live(trees[c._tree], c._e.id) && c._e == edge_of(g, c._e.id) && c._weight == cand_w(trees[c._tree], c._e.id) })
{ reveal(cyok); reveal(parall); let c = cycles[k]; assert(cyc_in(trees, c)); l_trok(trees, g, wm, c._tree); let t = trees[c._tree]; l_troot(t); assert(wf(g)); assert(eid(g, c._e.id)); }
proof fn l_lk(trees: Seq<SPTree>, cycles: Seq<CandidateCycle>, g: G, wm: Seq<real>, S: Set<int>, a: int, k: int, T: Set<int>, W: real, f: bool, T2: Set<int>, W2: real, f2: bool)
  requires tready(trees, cycles, g, wm), parall(trees, S), 0 <= a <= k < cycles.len(), lk(trees, cycles, S, a, k, T, W, f), built(trees, cycles, S, k, f, W, T2, W2, f2)
  ensures f2 && (!f || W2 < W) ==> lk(trees, cycles, S, a, k + 1, T2, W2, true), !(f2 && (!f || W2 < W)) ==> lk(trees, cycles, S, a, k + 1, T, W, f)
{ reveal(lk); l_lk_pre(trees, cycles, g, wm, S, k); if f2 { assert(is_it(trees, cycles, S, T2, W2, k)); } if f { let i = choose|i: int| a <= i < k && #[trigger] is_it(trees, cycles, S, T, W, i); assert(is_it(trees, cycles, S, T, W, i)); } }
proof fn l_lk_join(trees: Seq<SPTree>, cycles: Seq<CandidateCycle>, S: Set<int>, a: int, m: int, k: int, T: Set<int>, W: real, f: bool, T2: Set<int>, W2: real, f2: bool)
  requires a <= m <= k, lk(trees, cycles, S, a, m, T, W, f), lk(trees, cycles, S, m, k, T2, W2, f2)
  ensures f && (!f2 || W <= W2) ==> lk(trees, cycles, S, a, k, T, W, f), f2 && (!f || W2 <= W) ==> lk(trees, cycles, S, a, k, T2, W2, f2), !f && !f2 ==> lk(trees, cycles, S, a, k, T, W, false) && lk(trees, cycles, S, a, k, T2, W2, false)
{ reveal(lk); if f { let i = choose|i: int| a <= i < m && #[trigger] is_it(trees, cycles, S, T, W, i); assert(is_it(trees, cycles, S, T, W, i)); } if f2 { let i = choose|i: int| m <= i < k && #[trigger] is_it(trees, cycles, S, T2, W2, i); assert(is_it(trees, cycles, S, T2, W2, i)); }
  assert forall|i: int| a <= i < k && #[trigger] gd(trees, cycles, S, i) implies (i < m ==> f && W <= cycles[i]._weight) && (i >= m ==> f2 && W2 <= cycles[i]._weight) by { } }
proof fn l_lk_sorted(trees: Seq<SPTree>, cycles: Seq<CandidateCycle>, S: Set<int>, k: int, n: int, T: Set<int>, W: real) requires sortedc(cycles), n == cycles.len(), 0 < k <= n, lk(trees, cycles, S, 0, k, T, W, true), is_it(trees, cycles, S, T, W, k - 1) ensures lk(trees, cycles, S, 0, n, T, W, true)
{ reveal(lk); reveal(sortedc); assert(is_it(trees, cycles, S, T, W, k - 1)); assert forall|i: int| 0 <= i < n && #[trigger] gd(trees, cycles, S, i) implies W <= cycles[i]._weight by { if i >= k { assert(cycles[k - 1]._weight <= cycles[i]._weight); } } }
proof fn l_lk_end(trees: Seq<SPTree>, cycles: Seq<CandidateCycle>, g: G, wm: Seq<real>, S: Set<int>, T: Set<int>, W: real, f: bool)
  requires tready(trees, cycles, g, wm), parall(trees, S), lk(trees, cycles, S, 0, cycles.len() as int, T, W, f), has_odd(g, S) ensures f, min_odd(g, wm, S, T, W)
{ let D = l_min_ex(g, wm, S); assert(scyc(g, D)) by { reveal(min_odd); } let (vs, es) = choose|vs: Seq<int>, es: Seq<int>| #[trigger] cyc_set(g, vs, es, D);
  assert(exists|i: int, j: int| #[trigger] hit(trees, vs, i, j)) by { reveal(covers); } let (ti, j) = choose|i: int, j: int| #[trigger] hit(trees, vs, i, j); let t = trees[ti]; l_rot(g, vs, es, D, j); assert(on(g, D, t._source)); l_trok(trees, g, wm, ti);
  let e = l_matched(t, S, D); assert(in_list(cycles, ti, e)) by { reveal(cyok); assert(iscand(trees[ti], e)); } let i = choose|i: int| #[trigger] list_at(cycles, i, ti, e); l_lk_pre(trees, cycles, g, wm, S, i); assert(gd(trees, cycles, S, i)); reveal(lk);
  let q = choose|q: int| 0 <= q < cycles.len() && #[trigger] is_it(trees, cycles, S, T, W, q); l_lk_pre(trees, cycles, g, wm, S, q); let tq = trees[cycles[q]._tree]; let eq = cycles[q]._e.id; l_cwalk(tq, S, eq); let (us, fs) = cwalk(tq, eq); assert(cand(g, wm, S, T, W)) by { reveal(cand); assert(cand_by(g, wm, S, T, W, us, fs, g.ends[eq].0)); } l_cand_end(g, wm, S, D, T, W); }
// ---- building the trees and collecting their candidates
#[verifier::opaque]
pub open spec fn srcs(trees: Seq<SPTree>, vs: Seq<int>, k: int) -> bool { trees.len() == k && 0 <= k <= vs.len() && forall|i: int| 0 <= i < k ==> (#[trigger] trees[i])._source == vs[i] }
proof fn l_trees0(g: G, wm: Seq<real>, vs: Seq<int>) ensures trok(Seq::empty(), g, wm), srcs(Seq::empty(), vs, 0), cyok(Seq::empty(), Seq::empty(), 0) { reveal(trok); reveal(srcs); reveal(cyok); }
proof fn l_trees_add(trees: Seq<SPTree>, g: G, wm: Seq<real>, vs: Seq<int>, k: int, t: SPTree) requires trok(trees, g, wm), srcs(trees, vs, k), k < vs.len(), trok1(t, g, wm, k), t._source == vs[k] ensures trok(trees.push(t), g, wm), srcs(trees.push(t), vs, k + 1)
{ reveal(trok); reveal(srcs); let q = trees.push(t); assert forall|i: int| 0 <= i < q.len() implies trok1(#[trigger] q[i], g, wm, i) && q[i]._source == vs[i] by { if i < k { assert(q[i] == trees[i]); } } }
proof fn l_srcs(trees: Seq<SPTree>, vs: Seq<int>, k: int) requires srcs(trees, vs, k) ensures trees.len() == k { reveal(srcs); }
proof fn l_cyok0(trees: Seq<SPTree>) ensures cyok(trees, Seq::empty(), 0) { reveal(cyok); }
proof fn l_cyok_add(trees: Seq<SPTree>, g: G, wm: Seq<real>, cycles: Seq<CandidateCycle>, k: int, tc: Seq<CandidateCycle>)
  requires trok(trees, g, wm), cyok(trees, cycles, k), 0 <= k < trees.len(), cands(trees[k], tc, g.ends.len() as int) ensures cyok(trees, cycles + tc, k + 1)
{ reveal(cyok); reveal(cands); let q = cycles + tc; let n = cycles.len() as int; l_trok(trees, g, wm, k); let t = trees[k];
  assert forall|i: int| 0 <= i < q.len() implies cyc_in(trees, #[trigger] q[i]) by { if i < n { assert(q[i] == cycles[i]); assert(cyc_in(trees, cycles[i])); } else { assert(q[i] == tc[i - n]); assert(cand_of(t, tc[i - n])); } }
  assert forall|ti: int, e: int| 0 <= ti < k + 1 && #[trigger] iscand(trees[ti], e) implies in_list(q, ti, e) by {
    if ti < k { assert(in_list(cycles, ti, e)); let i = choose|i: int| #[trigger] list_at(cycles, i, ti, e); assert(q[i] == cycles[i]); assert(list_at(q, i, ti, e)); }
    else { assert(iscand(t, e)); assert(eid(g, e)); assert(listed_c(tc, e)); let i = choose|i: int| 0 <= i < tc.len() && (#[trigger] tc[i])._e.id == e; assert(q[n + i] == tc[i]); assert(cand_of(t, tc[i])); assert(list_at(q, n + i, ti, e)); } } }
proof fn l_covers(trees: Seq<SPTree>, g: G, vs: Seq<int>, k: int) requires srcs(trees, vs, k), k == vs.len(), acyclic_wo(g, vs) ensures covers(trees, g)
{ reveal(srcs); reveal(covers); assert forall|us: Seq<int>, es: Seq<int>| #[trigger] cyc(g, us, es) implies exists|i: int, j: int| #[trigger] hit(trees, us, i, j) by { let j = choose|j: int| 0 <= j < us.len() && vs.contains(#[trigger] us[j]); let i = choose|i: int| 0 <= i < vs.len() && vs[i] == us[j]; assert(trees[i]._source == vs[i]); assert(hit(trees, us, i, j)); } }
proof fn l_onto(p: Seq<int>, n: int, x: int) requires p.no_duplicates(), p.len() == n, 0 <= x < n, forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n ensures p.contains(x)
{ if !p.contains(x) { let q = p.push(x); l_set_bound(q, n); assert(q.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { if i == n { assert(p.contains(p[j])); } else if j == n { assert(p.contains(p[i])); } } } q.unique_seq_to_set(); } }
proof fn l_set_bound(q: Seq<int>, n: int) requires forall|i: int| 0 <= i < q.len() ==> 0 <= #[trigger] q[i] < n, n >= 0 ensures q.to_set().len() <= n
{ let R = Set::range(0, n); assert forall|x: int| q.to_set().contains(x) implies R.contains(x) by { assert(q.contains(x)); let i = choose|i: int| 0 <= i < q.len() && q[i] == x; } l_range_len(n); vstd::set_lib::lemma_len_subset(q.to_set(), R); }
proof fn l_range_len(n: int) requires n >= 0 ensures Set::range(0, n).len() == n decreases n
{ if n > 0 { l_range_len(n - 1); assert(Set::range(0, n) =~= Set::range(0, n - 1).insert(n - 1)); } else { assert(Set::range(0, n) =~= Set::empty()); } }
// the same trees and cycles, in another order
proof fn l_cyok_perm(trees: Seq<SPTree>, a: Seq<CandidateCycle>, b: Seq<CandidateCycle>, pi: Seq<int>, k: int) requires cyok(trees, a, k), perm_by(b, a, pi) ensures cyok(trees, b, k)
{ reveal(cyok); assert forall|i: int| 0 <= i < b.len() implies cyc_in(trees, #[trigger] b[i]) by { assert(b[i] == a[pi[i]]); assert(cyc_in(trees, a[pi[i]])); }
  assert forall|ti: int, e: int| 0 <= ti < k && #[trigger] iscand(trees[ti], e) implies in_list(b, ti, e) by { assert(in_list(a, ti, e)); let i = choose|i: int| #[trigger] list_at(a, i, ti, e); l_onto(pi, a.len() as int, i); let j = choose|j: int| 0 <= j < pi.len() && pi[j] == i; assert(b[j] == a[i]); assert(list_at(b, j, ti, e)); } }
proof fn l_nd_len(g: G, F: Seq<int>) requires wf(g), F.no_duplicates(), forall|i: int| 0 <= i < F.len() ==> vid(g, #[trigger] F[i]) ensures F.len() <= g.n { l_set_bound(F, g.n); F.unique_seq_to_set(); }
