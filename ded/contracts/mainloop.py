"""main loop of the exact signed-graph algorithm (C01, C02)"""
from trg import TrG as TR
from contracts._exact_c import *
INST = "inst_exact.cpp"
PRELUDES = ["graph.rs", "dijkstra.rs", "cspace.rs", "mcb.rs", "signed.rs"]
LEMMAS = LEM0 + LEMMAS
from contracts import bsd
BSD = cited(bsd, "bsd")[0]
T = "forest_index"
MST = "mst(g, weight_map, nfs(forest_index), sups(forest_index, support), out, pi)"
FUNCS = CONVERT + CITED + [BSD,
 dict(name="mcb_signed", find="parmcb::mcb_sva_signed", nloops=6, requires=["epre(g, weight_map)"], ensures=["basis(g, out)", "r == tot(weight_map, out)", "minimum(g, weight_map, r)", "pina(g, weight_map, out)"],
  on={"signed_edges": """l_conv_sp(forest_index, support[k].ones, c_convert_sp_1@.1, signed_edges);
      l_sups_swp(forest_index, S0, support, k, min_support, csd); l_mst_swap(g, weight_map, nfs(forest_index), sups(forest_index, S0), out, pi, min_support); pi = swp(pi, k, min_support);
      l_mst_odd(g, weight_map, fs, nfs(forest_index), sups(forest_index, support), out, pi); D = l_min_ex(g, weight_map, signed_edges); l_under(g, forest_index, support[k].ones);""",
   "cyclek": "l_conv_cyc(g, forest_index, best.0, c_convert_cyc_1@.1, cyclek);"},
  loops={
   0: dict(before="l_fi(g, forest_index);", inv=["0 <= k <= csd", "csd == fcsd(forest_index)", "csd <= g.ends.len()", "support.len() == k", "forall|i: int| 0 <= i < support.len() ==> (#[trigger] support[i]).ones == seq![i]"], after="l_units(g, forest_index, support);"),
   1: dict(ghost="let ghost mut pi: Seq<int> = nfs(forest_index); let ghost mut fs: Seq<Edge> = Seq::empty(); let ghost mut D: Set<int> = Set::empty(); proof { fs = l_frm(g, forest_index); l_mst0(g, weight_map, pi); }",
      inv=["0 <= k <= csd", "csd == fcsd(forest_index)", "support.len() == csd", "out.len() == k", "okvs(support, csd)", "frm(g, fs, nfs(forest_index))", "nfs(forest_index).len() == csd", MST, "mcb_weight == tot(weight_map, out)"],
      gbegin="let ghost S0 = support; let ghost out0 = out; let ghost k0 = k; let ghost mut S1 = support; proof { l_fi(g, forest_index); }",
      end="l_emit_any(g, weight_map, signed_edges, best.0, best.1); assert(out =~= out0.push(cyclek_edgelist)); l_mst_step(g, weight_map, nfs(forest_index), sups(forest_index, S1), out0, pi, sups(forest_index, support), cyclek_edgelist); assert(out.drop_last() =~= out0);",
      after="l_mst_end(g, weight_map, fs, nfs(forest_index), sups(forest_index, support), out, pi);"),
   2: dict(inv=["k < r <= csd"], always=["k <= min_support < csd"]),
   3: dict(before="l_all_v0(g, weight_map, signed_edges, D, 0, best.0, best.1);", inv=["0 <= vi <= g.n", "viend == g.n", "all_v(g, weight_map, signed_edges, D, 0, vi, best.0, best.1, best.2)"], gbegin="let ghost b0 = best; let ghost vi0 = vi;",
      end="l_all_v(g, weight_map, signed_edges, D, 0, vi0, b0.0, b0.1, b0.2, c_bsd_1@.0.0, c_bsd_1@.0.1, c_bsd_1@.0.2);",
      after="l_all_v_end(g, weight_map, signed_edges, D, best.0, best.1, best.2); l_mo_under(g, weight_map, signed_edges, best.0, best.1);"),
   4: dict(ghost="let ghost L = id_order(signed_edges); proof { ax_id_order(signed_edges); l_all_e0(g, weight_map, signed_edges, D, L, 0, best.0, best.1); l_enum_any(g, signed_edges); assert(hidden_edges =~= signed_edges); assert(L.skip(0) =~= L); }",
      inv=["0 <= sei <= L.len()", "L == id_order(signed_edges)", "sei_c.len() == L.len()", "edge_enum(g, signed_edges, sei_c)", "id_order(hidden_edges) =~= L.skip(sei)", "all_e(g, weight_map, signed_edges, D, L, 0, sei, best.0, best.1, best.2)"],
      begin="l_hid(g, L, sei, hidden_edges); assert(L.contains(L[sei])); assert(signed_edges.contains(L[sei])); assert(sei_c[sei].id == L[sei]);", gbegin="let ghost b0 = best; let ghost i0 = sei; let ghost H0 = hidden_edges;",
      end="l_all_e(g, weight_map, signed_edges, D, L, 0, i0, H0, se, b0.0, b0.1, b0.2, c_bsd_2@.0.0, c_bsd_2@.0.1, c_bsd_2@.0.2);",
      after="l_all_e_end(g, weight_map, signed_edges, D, L, best.0, best.1, best.2); l_mo_under(g, weight_map, signed_edges, best.0, best.1);"),
   5: dict(before="S1 = support;", inv=["k < l <= csd", "support.len() == csd", "S1.len() == csd", "okvs(S1, csd)", "okvs(support, csd)", "forall|i: int| 0 <= i < csd && (i <= k || i >= l) ==> #[trigger] support[i] == S1[i]", "posns(forest_index, best.0, cyclek)", "under(best.0, me(g))", "updated(g, sups(forest_index, S1), sups(forest_index, support), best.0, k, l)"],
     gbegin="let ghost P = support; let ghost l0 = l;", begin="assert(okv(support[l].ones, csd) && okv(support[k].ones, csd)); l_okv(support[l].ones, csd); l_okv(support[k].ones, csd);", end="l_upd(g, forest_index, S1, P, support, best.0, cyclek, k, l0);"),
  }),
]
