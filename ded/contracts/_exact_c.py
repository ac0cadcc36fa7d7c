"""shared by the modules of the exact algorithms: the support vectors against the abstract state of the main loop"""
import re
from contracts import gf2, forest
LEMMA = re.compile(r"^((?:#\[verifier::(?:rlimit\(\d+\)|spinoff_prover)\]\s*)*)proof fn (\w+)", re.M)
def stated(s): return LEMMA.sub(lambda m: "#[verifier::external_body] /*LEMMA*/ " + m.group(0), s)
def cited(mod, *names):
    """contracts proved by another module, cited here"""
    return [dict([f for f in mod.FUNCS if f["name"] == n][0], trusted=True) for n in names]
LEM0 = stated(gf2.LEMMAS) + stated(forest.LEMMAS)
LEMMAS = r'''
pub open spec fn fcsd(t: ForestIndex) -> int { t.m - t.n + t.k }
pub open spec fn nfs(t: ForestIndex) -> Seq<int> { Seq::new(fcsd(t) as nat, |p: int| t.reverse_index[p].id) }
// a support vector: positions of non-forest edges
#[verifier::opaque]
pub open spec fn okv(v: Seq<int>, d: int) -> bool { canon(v) && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] < d }
pub open spec fn vids(t: ForestIndex, v: Seq<int>) -> Seq<int> { Seq::new(v.len(), |i: int| t.reverse_index[v[i]].id) }
pub open spec fn sset(t: ForestIndex, v: Seq<int>) -> Set<int> { vids(t, v).to_set() }
pub open spec fn sups(t: ForestIndex, vs: Seq<SpVecGF2>) -> Seq<Set<int>> { Seq::new(vs.len(), |i: int| sset(t, vs[i].ones)) }
pub open spec fn okvs(vs: Seq<SpVecGF2>, d: int) -> bool { forall|i: int| 0 <= i < vs.len() ==> okv((#[trigger] vs[i]).ones, d) }
proof fn l_fi(g: G, t: ForestIndex) requires fiok(g, t) ensures 0 <= fcsd(t) <= t.m, t.m == g.ends.len(), t.reverse_index.len() == t.m,
  forall|i: int| 0 <= i < t.m ==> #[trigger] rev_ok(g, t, i), forall|e: int| #[trigger] eid(g, e) ==> 0 <= t.index[e] < t.m && t.reverse_index[t.index[e]].id == e { reveal(fiok); }
proof fn l_rev_at(g: G, t: ForestIndex, i: int) requires fiok(g, t), 0 <= i < g.ends.len() ensures eid(g, t.reverse_index[i].id), edge_ok(g, t.reverse_index[i]), t.index[t.reverse_index[i].id] == i, t.reverse_index.len() == g.ends.len(), 0 <= fcsd(t) <= g.ends.len() { reveal(fiok); assert(rev_ok(g, t, i)); }
proof fn l_frm(g: G, t: ForestIndex) -> (fs: Seq<Edge>) requires wf(g), no_loops(g), fiok(g, t) ensures frm(g, fs, nfs(t)), nfs(t).len() == fcsd(t), nfs(t).no_duplicates()
{ reveal(fiok); let f = choose|f: Set<int>| #[trigger] fiok_f(g, t, f); reveal(fwit); reveal(frm); let nf = nfs(t); let d = fcsd(t);
  let (fs, lab, tm, rt) = choose|fs: Seq<Edge>, lab: Seq<int>, tm: Seq<int>, rt: Seq<int>| #[trigger] fw_by(g, f, fs, lab, tm, rt);
  assert(frm_by(g, fs, nf, lab, tm, rt)); assert(dimension(g, nf.len() as int));
  assert forall|p: int| 0 <= p < nf.len() implies eid(g, #[trigger] nf[p]) by { assert(rev_ok(g, t, p)); }
  assert forall|p: int, q: int| 0 <= p < nf.len() && 0 <= q < nf.len() && p != q implies nf[p] != nf[q] by { assert(rev_ok(g, t, p)); assert(rev_ok(g, t, q)); }
  assert forall|e: int| #[trigger] eid(g, e) implies (nf.contains(e) <==> !ids(fs).contains(e)) by { if nf.contains(e) { let p = choose|p: int| 0 <= p < nf.len() && nf[p] == e; assert(rev_ok(g, t, p)); } if !f.contains(e) { assert(nf[t.index[e]] == e); } }
  fs }
proof fn l_sset(g: G, t: ForestIndex, v: Seq<int>, e: int) requires fiok(g, t), okv(v, fcsd(t)) ensures sset(t, v).contains(e) <==> (eid(g, e) && v.contains(t.index[e]))
{ l_fi(g, t); reveal(okv); let L = vids(t, v);
  if L.contains(e) { let i = choose|i: int| 0 <= i < L.len() && L[i] == e; assert(0 <= v[i]); l_rev_at(g, t, v[i]); assert(v.contains(v[i])); }
  if eid(g, e) && v.contains(t.index[e]) { let i = choose|i: int| 0 <= i < v.len() && v[i] == t.index[e]; assert(L[i] == e); } }
proof fn l_vids(g: G, t: ForestIndex, v: Seq<int>) requires fiok(g, t), okv(v, fcsd(t)) ensures vids(t, v).no_duplicates(), forall|i: int| 0 <= i < v.len() ==> 0 <= #[trigger] vids(t, v)[i] < me(g), forall|i: int| 0 <= i < v.len() ==> 0 <= #[trigger] v[i] < me(g)
{ l_fi(g, t); reveal(okv); let L = vids(t, v);
  assert forall|i: int| 0 <= i < v.len() implies 0 <= #[trigger] L[i] < me(g) by { assert(0 <= v[i]); l_rev_at(g, t, v[i]); }
  assert forall|i: int, j: int| 0 <= i < L.len() && 0 <= j < L.len() && i != j implies L[i] != L[j] by { assert(0 <= v[i] && 0 <= v[j]); l_rev_at(g, t, v[i]); l_rev_at(g, t, v[j]); if i < j { assert(v[i] < v[j]); } else { assert(v[j] < v[i]); } } }
// K: the positions of the edges in T
pub open spec fn posns(t: ForestIndex, T: Set<int>, K: Set<int>) -> bool { (forall|x: int| #[trigger] T.contains(x) ==> K.contains(t.index[x])) && (forall|y: int| #[trigger] K.contains(y) ==> exists|x: int| T.contains(x) && t.index[x] == y) }
proof fn l_dot(g: G, t: ForestIndex, v: Seq<int>, T: Set<int>, K: Set<int>, k: int)
  requires fiok(g, t), okv(v, fcsd(t)), posns(t, T, K), under(T, me(g)), 0 <= k <= v.len() ensures 0 <= common(v, set_sorted(K), k), (common(v, set_sorted(K), k) % 2 == 1) == par(T, vids(t, v), k) decreases k
{ if k > 0 { l_dot(g, t, v, T, K, k - 1); ax_set_sorted(K); let L = vids(t, v); let x = v[k - 1]; l_vids(g, t, v); assert(L[k - 1] == t.reverse_index[x].id); l_rev_at(g, t, x); let e = L[k - 1]; l_fi(g, t);
    assert(T.contains(e) == K.contains(x)) by { if T.contains(e) { assert(K.contains(t.index[e])); } if K.contains(x) { let y = choose|y: int| T.contains(y) && t.index[y] == x; assert(eid(g, y)); assert(t.reverse_index[t.index[y]].id == y); } } } }
proof fn l_dot_xr(g: G, t: ForestIndex, v: Seq<int>, T: Set<int>, K: Set<int>)
  requires fiok(g, t), okv(v, fcsd(t)), posns(t, T, K), under(T, me(g)) ensures (common(v, set_sorted(K), v.len() as int) % 2 == 1) == xr(sset(t, v), T, me(g))
{ l_dot(g, t, v, T, K, v.len() as int); l_vids(g, t, v); l_par(T, vids(t, v), me(g)); let S = sset(t, v); l_xr_ext(T, S, S, T, me(g)); }
proof fn l_sym(g: G, t: ForestIndex, a: Seq<int>, b: Seq<int>, c: Seq<int>)
  requires fiok(g, t), okv(a, fcsd(t)), okv(b, fcsd(t)), canon(c), forall|x: int| #[trigger] c.contains(x) <==> (a.contains(x) != b.contains(x)) ensures okv(c, fcsd(t)), symd(sset(t, c), sset(t, a), sset(t, b))
{ assert(okv(c, fcsd(t))) by { reveal(okv); assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] < fcsd(t) by { assert(c.contains(c[i])); if a.contains(c[i]) { let j = choose|j: int| 0 <= j < a.len() && a[j] == c[i]; } else { let j = choose|j: int| 0 <= j < b.len() && b[j] == c[i]; } } }
  assert forall|e: int| #[trigger] sset(t, c).contains(e) <==> (sset(t, a).contains(e) != sset(t, b).contains(e)) by { l_sset(g, t, a, e); l_sset(g, t, b, e); l_sset(g, t, c, e); } }
// one step of the update of the support vectors
proof fn l_upd(g: G, t: ForestIndex, s0: Seq<SpVecGF2>, s1: Seq<SpVecGF2>, s2: Seq<SpVecGF2>, T: Set<int>, K: Set<int>, k: int, l: int)
  requires fiok(g, t), okvs(s0, fcsd(t)), okvs(s1, fcsd(t)), 0 <= k < l < s1.len(), s0.len() == s1.len(), s1.len() == s2.len(), posns(t, T, K), under(T, me(g)), updated(g, sups(t, s0), sups(t, s1), T, k, l), s1[k] == s0[k], s1[l] == s0[l],
    forall|i: int| 0 <= i < s2.len() && i != l ==> #[trigger] s2[i] == s1[i],
    common(s1[l].ones, set_sorted(K), s1[l].ones.len() as int) % 2 == 1 ==> canon(s2[l].ones) && forall|x: int| #[trigger] s2[l].ones.contains(x) <==> (s1[l].ones.contains(x) != s1[k].ones.contains(x)),
    common(s1[l].ones, set_sorted(K), s1[l].ones.len() as int) % 2 != 1 ==> s2[l] == s1[l]
  ensures okvs(s2, fcsd(t)), updated(g, sups(t, s0), sups(t, s2), T, k, l + 1)
{ let a = sups(t, s0); let b = sups(t, s1); let c = sups(t, s2); assert(okv(s1[l].ones, fcsd(t)) && okv(s1[k].ones, fcsd(t))); l_dot_xr(g, t, s1[l].ones, T, K);
  if common(s1[l].ones, set_sorted(K), s1[l].ones.len() as int) % 2 == 1 { l_sym(g, t, s1[l].ones, s1[k].ones, s2[l].ones); }
  assert(c[l] == sset(t, s2[l].ones) && a[l] == sset(t, s0[l].ones) && a[k] == sset(t, s0[k].ones)); assert(upd_one(g, a[l], a[k], T, c[l]));
  assert forall|i: int| 0 <= i < s2.len() implies okv((#[trigger] s2[i]).ones, fcsd(t)) by { if i != l { assert(s2[i] == s1[i]); } }
  assert forall|j: int| k < j < l + 1 implies upd_one(g, a[j], a[k], T, #[trigger] c[j]) by { if j < l { assert(s2[j] == s1[j]); assert(c[j] == b[j]); assert(upd_one(g, a[j], a[k], T, b[j])); } }
  assert forall|j: int| (0 <= j <= k || l + 1 <= j < a.len()) implies #[trigger] c[j] == a[j] by { assert(s2[j] == s1[j]); assert(c[j] == b[j]); assert(b[j] == a[j]); } }
proof fn l_units(g: G, t: ForestIndex, s: Seq<SpVecGF2>) requires wf(g), fiok(g, t), s.len() == fcsd(t), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ones == seq![i] ensures okvs(s, fcsd(t)), sups(t, s) == units(nfs(t))
{ let a = sups(t, s); let b = units(nfs(t)); l_fi(g, t); assert forall|i: int| 0 <= i < s.len() implies #[trigger] a[i] == b[i] && okv(s[i].ones, fcsd(t)) by { assert(s[i].ones == seq![i]); let L = vids(t, s[i].ones); assert(L =~= seq![nfs(t)[i]]);
    assert forall|x: int| a[i].contains(x) <==> b[i].contains(x) by { if L.contains(x) { let j = choose|j: int| 0 <= j < L.len() && L[j] == x; } if x == nfs(t)[i] { assert(L[0] == x); } } assert(a[i] =~= b[i]);
    reveal(okv); l_rev_at(g, t, i); assert(wf(g) || true); }
  assert forall|i: int| 0 <= i < s.len() implies okv((#[trigger] s[i]).ones, fcsd(t)) by { assert(a[i] == b[i]); } assert(a =~= b); }
proof fn l_sups_swp(t: ForestIndex, s0: Seq<SpVecGF2>, s1: Seq<SpVecGF2>, k: int, r: int, d: int) requires 0 <= k < s0.len(), 0 <= r < s0.len(), s1 =~= swp(s0, k, r), okvs(s0, d) ensures sups(t, s1) == swp(sups(t, s0), k, r), okvs(s1, d)
{ assert(sups(t, s1) =~= swp(sups(t, s0), k, r)); assert forall|i: int| 0 <= i < s1.len() implies okv((#[trigger] s1[i]).ones, d) by { let j = if i == k { r } else if i == r { k } else { i }; assert(s1[i] == s0[j]); } }
// the emitted list: an enumeration of the set of edges found
proof fn l_emit(g: G, wm: Seq<real>, S: Set<int>, T: Set<int>, W: real, c: Seq<Edge>) requires min_odd(g, wm, S, T, W), edge_enum(g, T, c), wm.len() == g.ends.len() ensures cycle_of(g, c), cset(c) == T, wt(wm, c) == W, under(T, me(g)), min_odd(g, wm, S, cset(c), wt(wm, c))
{ assert(scyc(g, T) && W == ws(wm, T, me(g))) by { reveal(min_odd); } l_scyc_under(g, T); ax_id_order(T); let L = eids(c); assert(L =~= id_order(T));
  assert forall|x: int| cset(c).contains(x) <==> T.contains(x) by { assert(T.contains(x) <==> id_order(T).contains(x)); } assert(cset(c) =~= T);
  assert forall|i: int| 0 <= i < c.len() implies edge_ok(g, #[trigger] c[i]) by { assert(L[i] == c[i].id); assert(L.contains(L[i])); assert(T.contains(c[i].id)); assert(eid(g, c[i].id)); }
  l_set_cycle(g, c, T); l_wt_set(g, wm, c); }

pub open spec fn conv_sp(t: ForestIndex, v: Seq<int>, out: Seq<Edge>) -> bool { out.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] out[i] == t.reverse_index[v[i]] }
proof fn l_conv_sp(t: ForestIndex, v: Seq<int>, out: Seq<Edge>, E: Set<int>) requires conv_sp(t, v, out), E =~= Set::<int>::empty().union(ids(out)) ensures E == sset(t, v)
{ assert(Seq::new(out.len(), |i: int| out[i].id) =~= vids(t, v)); assert(E =~= sset(t, v)); }
pub open spec fn conv_cyc(t: ForestIndex, T: Set<int>, out: Seq<int>) -> bool { out.len() == id_order(T).len() && forall|i: int| 0 <= i < out.len() ==> #[trigger] out[i] == t.index[id_order(T)[i]] }
proof fn l_conv_cyc(g: G, t: ForestIndex, T: Set<int>, out: Seq<int>, K: Set<int>) requires fiok(g, t), wf(g), under(T, me(g)), conv_cyc(t, T, out), K =~= Set::<int>::empty().union(seq_set(out)) ensures posns(t, T, K), forall|x: int| #[trigger] K.contains(x) ==> 0 <= x <= 18446744073709551615
{ ax_id_order(T); let L = id_order(T); l_fi(g, t);
  assert forall|x: int| #[trigger] T.contains(x) implies K.contains(t.index[x]) by { assert(L.contains(x)); let i = choose|i: int| 0 <= i < L.len() && L[i] == x; assert(out[i] == t.index[x]); assert(out.contains(out[i])); }
  assert forall|y: int| #[trigger] K.contains(y) implies 0 <= y <= 18446744073709551615 && exists|x: int| T.contains(x) && t.index[x] == y by { assert(out.contains(y)); let i = choose|i: int| 0 <= i < out.len() && out[i] == y; let x = L[i]; assert(L.contains(x)); assert(T.contains(x)); assert(eid(g, x)); assert(t.index[x] == y); } }
proof fn l_under(g: G, t: ForestIndex, v: Seq<int>) requires fiok(g, t), wf(g), okv(v, fcsd(t)) ensures under(sset(t, v), me(g)) { assert forall|x: int| #[trigger] sset(t, v).contains(x) implies 0 <= x < me(g) by { l_sset(g, t, v, x); } }
proof fn l_enum_all(g: G, s: Set<int>, en: Seq<Edge>, r: Set<int>) requires edge_enum(g, s, en), r =~= Set::<int>::empty().union(ids(en.subrange(0, s.len() as int))) ensures r == s
{ ax_id_order(s); assert(en.subrange(0, s.len() as int) =~= en); let L = id_order(s);
  assert forall|x: int| r.contains(x) <==> s.contains(x) by { if r.contains(x) { let i = l_ids_inv(en, x); assert(L[i] == x); assert(L.contains(x)); assert(s.contains(x)); } if s.contains(x) { assert(L.contains(x)); let i = choose|i: int| 0 <= i < L.len() && L[i] == x; l_ids(en, i); assert(en[i].id == L[i]); } } assert(r =~= s); }
proof fn l_enum_any(g: G, s: Set<int>) ensures forall|en: Seq<Edge>| #[trigger] edge_enum(g, s, en) ==> ids(en.subrange(0, s.len() as int)) == s
{ assert forall|en: Seq<Edge>| #[trigger] edge_enum(g, s, en) implies ids(en.subrange(0, s.len() as int)) == s by { let r = ids(en.subrange(0, s.len() as int)); assert(r =~= Set::<int>::empty().union(r)); l_enum_all(g, s, en, r); } }
proof fn l_mo_under(g: G, wm: Seq<real>, S: Set<int>, T: Set<int>, W: real) requires min_odd(g, wm, S, T, W) ensures under(T, me(g)) { assert(scyc(g, T)) by { reveal(min_odd); } l_scyc_under(g, T); }
proof fn l_okv(v: Seq<int>, d: int) requires okv(v, d) ensures canon(v) { reveal(okv); }
pub open spec fn emitted(g: G, wm: Seq<real>, S: Set<int>, T: Set<int>, W: real, c: Seq<Edge>) -> bool { cycle_of(g, c) && cset(c) == T && wt(wm, c) == W && min_odd(g, wm, S, cset(c), wt(wm, c)) }
proof fn l_emit_any(g: G, wm: Seq<real>, S: Set<int>, T: Set<int>, W: real) requires min_odd(g, wm, S, T, W), wm.len() == g.ends.len()
  ensures forall|c: Seq<Edge>| #[trigger] edge_enum(g, T, c) ==> emitted(g, wm, S, T, W, c) && c.subrange(0, T.len() as int) == c && Seq::<Edge>::empty() + c == c
{ assert forall|c: Seq<Edge>| #[trigger] edge_enum(g, T, c) implies emitted(g, wm, S, T, W, c) && c.subrange(0, T.len() as int) == c && Seq::<Edge>::empty() + c == c by { l_emit(g, wm, S, T, W, c); assert(c.subrange(0, T.len() as int) =~= c); assert(Seq::<Edge>::empty() + c =~= c); } }
proof fn l_hid(g: G, L: Seq<int>, k: int, H: Set<int>) requires id_order(H) =~= L.skip(k), 0 <= k < L.len() ensures H.len() > 0, id_order(H)[0] == L[k], id_order(H.remove(id_order(H)[0])) =~= L.skip(k + 1), forall|x: int| #[trigger] H.contains(x) <==> exists|i: int| k <= i < L.len() && L[i] == x
{ ax_id_order(H); let Q = L.skip(k); assert forall|x: int| #[trigger] H.contains(x) <==> exists|i: int| k <= i < L.len() && L[i] == x by { assert(H.contains(x) <==> Q.contains(x)); if Q.contains(x) { let i = choose|i: int| 0 <= i < Q.len() && Q[i] == x; assert(L[i + k] == x); } if exists|i: int| k <= i < L.len() && L[i] == x { let i = choose|i: int| k <= i < L.len() && L[i] == x; assert(Q[i - k] == x); } }
  assert(H.len() == Q.len()); }
'''
GG = [("g", "G")]
CONVERT = [
 dict(name="convert_sp", find="parmcb::convert_edges", sig="SpVecGF2", nloops=1, gparams=GG, requires=["wf(g)", "fiok(g, forest_index)", "okv(inIt.ones, fcsd(forest_index))"], ensures=["conv_sp(forest_index, inIt.ones, outIt)"],
   begin="l_fi(g, forest_index);", loops={0: dict(before="assert(each_c =~= inIt.ones); l_vids(g, forest_index, inIt.ones);", inv=["each_c == inIt.ones", "conv_sp(forest_index, inIt.ones.take(each_i), outIt)"], begin="assert(0 <= inIt.ones[each_i] < me(g));", gbegin="let ghost i0 = each_i;", end="assert(inIt.ones.take(each_i) =~= inIt.ones.take(i0).push(inIt.ones[i0]));", after="assert(inIt.ones.take(each_i) =~= inIt.ones);")}),
 dict(name="convert_cyc", find="parmcb::convert_edges", sig=r"\(std::set", nloops=1, gparams=GG, requires=["wf(g)", "fiok(g, forest_index)", "under(inIt, me(g))"], ensures=["conv_cyc(forest_index, inIt, outIt)"],
   begin="ax_id_order(inIt);", loops={0: dict(ghost="let ghost L = id_order(inIt);", inv=["each_c.len() == L.len()", "L == id_order(inIt)", "forall|i: int| 0 <= i < L.len() ==> (#[trigger] each_c[i]).id == L[i]", "forall|i: int| 0 <= i < L.len() ==> inIt.contains(#[trigger] L[i])", "outIt.len() == each_i", "forall|i: int| 0 <= i < each_i ==> #[trigger] outIt[i] == forest_index.index[L[i]]"], begin="assert(inIt.contains(L[each_i])); assert(eid(g, L[each_i])); reveal(fiok);")}),
]
CITED = cited(forest, "fi_ctor", "fi_edge", "fi_index", "fi_csd") + cited(gf2, "gf2_dot_set", "gf2_plus_assign", "gf2_ctor_unit", "gf2_size", "gf2_ctor_copy", "gf2_ctor_move", "gf2_assign", "gf2_assign_move")
