"""the parallel signed-graph algorithm: every schedule of its tasks (C03)"""
from trp import TrP as TR
from contracts._exact_c import *
INST = "inst_tbb.cpp"
PRELUDES = ["graph.rs", "dijkstra.rs", "cspace.rs", "mcb.rs", "signed.rs"]
from contracts import bsd
BSD = cited(bsd, "bsd")[0]
LEMMAS = LEM0 + LEMMAS + r'''
pub open spec fn idv(g: G, vs: Seq<int>) -> bool { vs.len() == g.n && forall|i: int| 0 <= i < g.n ==> #[trigger] vs[i] == i }
// the signed edges in their order, each with itself and its successors hidden
pub open spec fn as_vec(g: G, L: Seq<int>, es: Seq<Edge>) -> bool { es.len() <= L.len() && forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).id == L[i] && edge_ok(g, es[i]) }
pub open spec fn hidden_per(L: Seq<int>, m: Map<int, Set<int>>, k: int) -> bool { (forall|i: int| 0 <= i < k ==> m.dom().contains(#[trigger] L[i]) && hidden_from(L, m[L[i]], i)) && forall|x: int| #[trigger] m.dom().contains(x) ==> exists|i: int| 0 <= i < k && L[i] == x }
pub open spec fn hidden_from(L: Seq<int>, H: Set<int>, k: int) -> bool { forall|x: int| #[trigger] H.contains(x) <==> exists|i: int| k <= i < L.len() && L[i] == x }
proof fn l_hidden_per(g: G, L: Seq<int>, m: Map<int, Set<int>>, v: Seq<Edge>, H: Set<int>, e: Edge, m2: Map<int, Set<int>>, v2: Seq<Edge>)
  requires L.no_duplicates(), as_vec(g, L, v), hidden_per(L, m, v.len() as int), v.len() < L.len(), e.id == L[v.len() as int], edge_ok(g, e), hidden_from(L, H, v.len() as int), m2 == m.insert(e.id, H), v2 == v.push(e)
  ensures as_vec(g, L, v2), hidden_per(L, m2, v2.len() as int)
{ let k = v.len() as int;
  assert forall|i: int| 0 <= i < v2.len() implies (#[trigger] v2[i]).id == L[i] && edge_ok(g, v2[i]) by { if i < k { assert(v2[i] == v[i]); } }
  assert forall|i: int| 0 <= i < k + 1 implies m2.dom().contains(#[trigger] L[i]) && hidden_from(L, m2[L[i]], i) by { if i < k { assert(m.dom().contains(L[i])); assert(L[i] != L[k]); } }
  assert forall|x: int| #[trigger] m2.dom().contains(x) implies exists|i: int| 0 <= i < k + 1 && L[i] == x by { if x == L[k] { } else { assert(m.dom().contains(x)); } } }
proof fn l_one(S: Set<int>) ensures S.len() == 1 ==> S == set![id_order(S)[0]] { ax_id_order(S); if S.len() == 1 { let L = id_order(S); assert forall|x: int| S.contains(x) <==> x == L[0] by { assert(S.contains(x) <==> L.contains(x)); if L.contains(x) { let i = choose|i: int| 0 <= i < L.len() && L[i] == x; } if x == L[0] { assert(L.contains(L[0])); } } assert(S =~= set![L[0]]); } }
// the unit vectors, in the order in which the tasks appended them
pub open spec fn via(nf: Seq<int>, q: Seq<int>) -> Seq<int> { Seq::new(q.len(), |i: int| nf[q[i]]) }
proof fn l_units_p(g: G, wm: Seq<real>, t: ForestIndex, s: Seq<SpVecGF2>, q: Seq<int>, pn: Seq<int>)
  requires wf(g), fiok(g, t), s.len() == fcsd(t), enumerates(q, Set::range(0, fcsd(t))), q.len() == fcsd(t), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (SpVecGF2 { ones: seq![q[i]] }), pn == via(nfs(t), q), nfs(t).no_duplicates()
  ensures okvs(s, fcsd(t)), mst(g, wm, nfs(t), sups(t, s), Seq::empty(), pn)
{ let a = sups(t, s); let nf = nfs(t); let d = fcsd(t); l_fi(g, t);
  assert forall|i: int| 0 <= i < d implies 0 <= #[trigger] q[i] < d by { assert(q.contains(q[i])); assert(Set::range(0, d).contains(q[i])); }
  assert forall|i: int| 0 <= i < d implies #[trigger] a[i] == Set::empty().insert(pn[i]) && okv(s[i].ones, d) by { assert(s[i].ones == seq![q[i]]); let L = vids(t, s[i].ones); assert(0 <= q[i] < d); assert(L =~= seq![nf[q[i]]]);
    assert forall|x: int| a[i].contains(x) <==> x == pn[i] by { if L.contains(x) { let j = choose|j: int| 0 <= j < L.len() && L[j] == x; } if x == pn[i] { assert(L[0] == x); } } assert(a[i] =~= Set::empty().insert(pn[i]));
    reveal(okv); l_rev_at(g, t, q[i]); }
  assert forall|i: int| 0 <= i < s.len() implies okv((#[trigger] s[i]).ones, d) by { assert(a[i] == Set::empty().insert(pn[i])); }
  reveal(mst);
  assert forall|i: int| 0 <= i < d implies #[trigger] m_sup(g, nf, a, i) by { assert(a[i] == Set::empty().insert(pn[i])); assert(pn[i] == nf[q[i]]); assert(nf.contains(nf[q[i]])); }
  assert forall|i: int| 0 <= i < d implies nf.contains(#[trigger] pn[i]) by { assert(pn[i] == nf[q[i]]); }
  assert forall|i: int, j: int| 0 <= i < d && 0 <= j < d implies #[trigger] m_dual(a, pn, i, j) by { assert(a[j] == Set::empty().insert(pn[j])); assert(pn[i] == nf[q[i]] && pn[j] == nf[q[j]]); if i != j { assert(q[i] != q[j]); assert(nf[q[i]] != nf[q[j]]); } } }
// what one task of the update does to one row, and what that makes of all rows
pub open spec fn row(a: SpVecGF2, r: SpVecGF2, K: Set<int>, b: SpVecGF2) -> bool {
  if common(a.ones, set_sorted(K), a.ones.len() as int) % 2 == 1 { canon(b.ones) && forall|x: int| #[trigger] b.ones.contains(x) <==> (a.ones.contains(x) != r.ones.contains(x)) } else { b == a } }
pub open spec fn mix(s: Seq<SpVecGF2>, s2: Seq<SpVecGF2>, k: int, l: int) -> Seq<SpVecGF2> { Seq::new(s.len(), |i: int| if k < i < l { s2[i] } else { s[i] }) }
proof fn l_upd_to(g: G, t: ForestIndex, s: Seq<SpVecGF2>, s2: Seq<SpVecGF2>, T: Set<int>, K: Set<int>, k: int, l: int)
  requires fiok(g, t), okvs(s, fcsd(t)), 0 <= k < l <= s.len(), s2.len() == s.len(), posns(t, T, K), under(T, me(g)), forall|i: int| k < i < s.len() ==> row(s[i], s[k], K, #[trigger] s2[i])
  ensures okvs(mix(s, s2, k, l), fcsd(t)), updated(g, sups(t, s), sups(t, mix(s, s2, k, l)), T, k, l) decreases l
{ if l == k + 1 { assert(mix(s, s2, k, l) =~= s); } else { l_upd_to(g, t, s, s2, T, K, k, l - 1); assert(row(s[l - 1], s[k], K, s2[l - 1])); l_upd(g, t, s, mix(s, s2, k, l - 1), mix(s, s2, k, l), T, K, k, l - 1); } }
proof fn l_upd_all(g: G, t: ForestIndex, s: Seq<SpVecGF2>, s2: Seq<SpVecGF2>, T: Set<int>, K: Set<int>, k: int, l: int)
  requires fiok(g, t), okvs(s, fcsd(t)), 0 <= k < l, l == s.len(), s2.len() == s.len(), posns(t, T, K), under(T, me(g)), forall|i: int| k < i < s.len() ==> row(s[i], s[k], K, #[trigger] s2[i]), forall|i: int| 0 <= i <= k ==> #[trigger] s2[i] == s[i]
  ensures okvs(s2, fcsd(t)), updated(g, sups(t, s), sups(t, s2), T, k, l)
{ l_upd_to(g, t, s, s2, T, K, k, l); assert(mix(s, s2, k, l) =~= s2); }
'''
W = "this_.g, this_.weight_map"
OK = ["epre(%s)" % W, "idv(this_.g, this_.vertices)", "has_odd(this_.g, S)", "under(S, me(this_.g))"]
def pre(s): return ["epre(%s)" % W, "idv(this_.g, this_.vertices)", "has_odd(this_.g, %s)" % s, "under(%s, me(this_.g))" % s]
def post(s): return ["r.2", "min_odd(%s, %s, r.0, r.1)" % (W, s)]
FIND = "parmcb::detail::OddCycleFinder<.*>::"
FUNCS = CONVERT + CITED + [BSD,
 dict(name="find_single", find=FIND + "find_single_edge", pure=True, nloops=0, requires=pre("set![se.id]") + ["edge_ok(this_.g, se)"], ensures=post("set![se.id]"),
   ghost="let ghost mut D: Set<int> = Set::empty(); let ghost L = seq![se.id]; let ghost S = set![se.id];", begin="assert(S =~= set![se.id]); D = l_min_ex(%s, S); l_all_e0(%s, S, D, L, 0, Set::empty(), 0real); assert(S.len() == 1);" % (W, W),
   on={"best": ""},
   at_return="l_hid_post(%s, S, S, se.s, se.t, false, false, 0real, c_bsd_1@.0.0, c_bsd_1@.0.1, c_bsd_1@.0.2); l_all_e(%s, S, D, L, 0, 0, S, se, Set::empty(), 0real, false, c_bsd_1@.0.0, c_bsd_1@.0.1, c_bsd_1@.0.2); l_all_e_end(%s, S, D, L, best.0, best.1, best.2);" % (W, W, W)),
]
R0 = "all_v(%s, signed_edges, D, LO_, HI_, V_.0, V_.1, V_.2)" % W
R1 = "all_e(%s, signed_edges, D, L, LO_, HI_, V_.0, V_.1, V_.2)" % W
J = "(%s, signed_edges, D, %%sLO_, MID_, HI_, X_.0, X_.1, X_.2, Y_.0, Y_.1, Y_.2);" % W
FUNCS += [
 dict(name="find_all", find=FIND + "find_all_vertices", pure=True, nloops=1, requires=pre("signed_edges"), ensures=post("signed_edges"),
   ghost="let ghost mut D: Set<int> = Set::empty();", begin="D = l_min_ex(%s, signed_edges);" % W,
   par={0: dict(R=R0, id="l_all_v0(%s, signed_edges, D, LO_, V_.0, V_.1);" % W, join="l_all_v_join" + J % "", after="l_all_v_end(%s, signed_edges, D, V_.0, V_.1, V_.2);" % W)},
   loops={0: dict(inv=["p0_mid <= i <= p0_hi", R0.replace("LO_", "p0_lo").replace("HI_", "i").replace("V_", "running_min")], gbegin="let ghost b0 = running_min; let ghost i0 = i;",
     end="l_all_v(%s, signed_edges, D, p0_lo, i0, b0.0, b0.1, b0.2, c_bsd_1@.0.0, c_bsd_1@.0.1, c_bsd_1@.0.2);" % W)}),
 dict(name="find_less", find=FIND + "find_less_than_vertices", pure=True, nloops=2, requires=pre("signed_edges"), ensures=post("signed_edges"),
   ghost="let ghost mut D: Set<int> = Set::empty(); let ghost L = id_order(signed_edges);", begin="D = l_min_ex(%s, signed_edges); ax_id_order(signed_edges);" % W,
   par={0: dict(R=R1, id="l_all_e0(%s, signed_edges, D, L, LO_, V_.0, V_.1);" % W, join="l_all_e_join" + J % "L, ", after="l_all_e_end(%s, signed_edges, D, L, V_.0, V_.1, V_.2);" % W)},
   loops={0: dict(inv=["hidden_per(L, hidden_edges_per_edge, signed_edges_as_vector.len() as int)", "as_vec(this_.g, L, signed_edges_as_vector)", "id_order(tmp_signed_edges) =~= L.skip(signed_edges_as_vector.len() as int)", "signed_edges_as_vector.len() <= L.len()"],
       begin="ax_id_order(tmp_signed_edges); assert(L.skip(signed_edges_as_vector.len() as int).len() > 0); l_hid(this_.g, L, signed_edges_as_vector.len() as int, tmp_signed_edges); assert(L.contains(L[signed_edges_as_vector.len() as int])); assert(signed_edges.contains(L[signed_edges_as_vector.len() as int])); assert(eid(this_.g, L[signed_edges_as_vector.len() as int]));", gbegin="let ghost v0 = signed_edges_as_vector; let ghost m0 = hidden_edges_per_edge; let ghost H0 = tmp_signed_edges;",
       end="assert(edge_ok(this_.g, bit_c[bit])); l_hidden_per(this_.g, L, m0, v0, H0, bit_c[bit], hidden_edges_per_edge, signed_edges_as_vector);", after="ax_id_order(tmp_signed_edges); assert(L.skip(signed_edges_as_vector.len() as int).len() == 0); assert(signed_edges_as_vector.len() == L.len());"),
    1: dict(inv=["p0_mid <= i <= p0_hi", R1.replace("LO_", "p0_lo").replace("HI_", "i").replace("V_", "running_min")], gbegin="let ghost b0 = running_min; let ghost i0 = i;",
     end="l_all_e(%s, signed_edges, D, L, p0_lo, i0, hidden_edges, se, b0.0, b0.1, b0.2, c_bsd_1@.0.0, c_bsd_1@.0.1, c_bsd_1@.0.2);" % W)}),
]
FUNCS += [
 dict(name="finder", find=FIND + "find", pure=True, nloops=0, gargs={"convert_sp": {"g": "this_.g"}}, retty=None,
   requires=["epre(%s)" % W, "idv(this_.g, this_.vertices)", "fiok(this_.g, this_.forest_index)", "okv(support.ones, fcsd(this_.forest_index))", "has_odd(this_.g, sset(this_.forest_index, support.ones))"],
   ensures=["r.2", "min_odd(%s, sset(this_.forest_index, support.ones), r.0, r.1)" % W],
   on={"signed_edges": "l_conv_sp(this_.forest_index, support.ones, c_convert_sp_1@.1, signed_edges); l_under(this_.g, this_.forest_index, support.ones); l_one(signed_edges);"}),
]
T = "forest_index"
MST = "mst(g, weight_map, nfs(forest_index), sups(forest_index, support), out, pi)"
FUNCS += [
 dict(name="mcb_signed_tbb", find="parmcb::mcb_sva_signed_tbb", nloops=5, requires=["epre(g, weight_map)"], ensures=["basis(g, out)", "r == tot(weight_map, out)", "minimum(g, weight_map, r)", "pina(g, weight_map, out)"],
  ghost="let ghost mut pi: Seq<int> = Seq::empty(); let ghost mut fs: Seq<Edge> = Seq::empty();",
  par={0: dict(push=["support"], each="#[trigger] X_support == (SpVecGF2 { ones: seq![I_] })", begin="l_fi(g, forest_index);",
         after="assert(p0_old_support.len() == 0); assert forall|i: int| 0 <= i < csd implies #[trigger] support[i] == (SpVecGF2 { ones: seq![p0_perm_support[i]] }) by { assert(p0_perm_support.contains(p0_perm_support[i])); assert(Set::range(0, csd).contains(p0_perm_support[i])); assert(support[i] == p0_all_support[p0_perm_support[i]]); } fs = l_frm(g, forest_index); pi = via(nfs(forest_index), p0_perm_support); l_units_p(g, weight_map, forest_index, support, p0_perm_support, pi);"),
       1: dict(rows={"support": "row(OLD_, S1[k], cyclek, NEW_)"}, after="l_upd_all(g, forest_index, S1, support, cycle.0, cyclek, k, csd);")},
  calls={"finder": "l_sups_swp(forest_index, S0, support, k, min_support, csd); l_mst_swap(g, weight_map, nfs(forest_index), sups(forest_index, S0), out, pi, min_support); pi = swp(pi, k, min_support); l_mst_odd(g, weight_map, fs, nfs(forest_index), sups(forest_index, support), out, pi); assert(okv(support[k].ones, csd));",
         "convert_cyc": "SK = sset(forest_index, support[k].ones); l_mo_under(g, weight_map, SK, cycle.0, cycle.1);"},
  on={"cyclek": "l_conv_cyc(g, forest_index, cycle.0, c_convert_cyc_1@.1, cyclek); S1 = support;"},
  loops={
   0: dict(inv=["0 <= vi <= g.n", "viend == g.n", "vertices.len() == vi", "forall|i: int| 0 <= i < vertices.len() ==> #[trigger] vertices[i] == i"], after="l_fi(g, forest_index);"),
   1: dict(inv=["p0_lo <= i <= p0_hi", "p0_support =~= Seq::new((i - p0_lo) as nat, |j: int| SpVecGF2 { ones: seq![p0_lo + j] })"]),
   2: dict(inv=["0 <= k <= csd", "csd == fcsd(forest_index)", "support.len() == csd", "out.len() == k", "okvs(support, csd)", "frm(g, fs, nfs(forest_index))", "nfs(forest_index).len() == csd", MST, "mcb_weight == tot(weight_map, out)"],
      gbegin="let ghost S0 = support; let ghost out0 = out; let ghost mut S1 = support; let ghost mut SK: Set<int> = Set::empty(); proof { l_fi(g, forest_index); }",
      end="l_emit_any(g, weight_map, SK, cycle.0, cycle.1); assert(out =~= out0.push(cyclek_edgelist)); l_mst_step(g, weight_map, nfs(forest_index), sups(forest_index, S1), out0, pi, sups(forest_index, support), cyclek_edgelist); assert(out.drop_last() =~= out0);",
      after="l_mst_end(g, weight_map, fs, nfs(forest_index), sups(forest_index, support), out, pi);"),
   3: dict(inv=["k < r <= csd"], always=["k <= min_support < csd"]),
   4: dict(inv=["p1_lo <= i <= p1_hi", "support.len() == csd", "support[k] == S1[k]", "forall|j: int| p1_lo <= j < i ==> row(S1[j], S1[k], cyclek, #[trigger] support[j])", "forall|j: int| i <= j < p1_hi ==> #[trigger] support[j] == S1[j]"],
     begin="assert(okv(S1[i].ones, csd) && okv(S1[k].ones, csd)); l_okv(S1[i].ones, csd); l_okv(S1[k].ones, csd);"),
  }),
]
