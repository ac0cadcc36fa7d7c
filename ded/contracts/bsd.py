"""the signed shortest-path search of the exact signed-graph algorithm (C01, C02)"""
from trg import TrG as TR
INST = "inst_exact.cpp"
PRELUDES = ["graph.rs", "dijkstra.rs", "cspace.rs", "mcb.rs", "signed.rs", "bidi.rs"]
LEMMAS = ""
def fr(x): return "(Fr { dist: %s_dist, pred: %s_pred, q: %s_queue, src: %s_source })" % (x, x, x, x)
F, B = fr("f_frontier"), fr("b_frontier")
C = "(Cx { g: g, wm: weight_map, H: if use_hidden_edges { hidden_edges } else { Set::empty() }, S: signed_edges, ul: use_cycle_weight_limit, lim: cycle_weight_limit })"
ST = "%s, signed_s, signed_t" % C
FS = "fst(cx, %s, Vf, false, uf, 0, df)" % F
BS = "fst(cx, %s, Vb, false, ub, 0, db)" % B
MET = "met(cx, %s, %s, best_path_set, best_path, best_path_common_vertex)" % (F, B)
ENDS = "ends(%s, %s, signed_s, signed_t)" % (F, B)
LEN = ["f_frontier_index_in_heap.len() == 2 * g.n", "b_frontier_index_in_heap.len() == 2 * g.n"]
TF, TB = "mheap_top::<(int, bool), real>(f_frontier_queue)", "mheap_top::<(int, bool), real>(b_frontier_queue)"
TOPS = "qmin(%s, %s) && qmin(%s, %s) && !(f_frontier_queue[%s] + b_frontier_queue[%s] < best_path)" % (F, TF, B, TB, TF, TB)
TREES = "cx, %s, Vf, uf, df, %s, Vb, ub, db" % (F, B)
FUNCS = [
 dict(name="bsd", find="parmcb::bidirectional_signed_dijkstra", nloops=4, rlimit=60,
  requires=["epre(g, weight_map)", "vid(g, s)", "vid(g, t)", "s != t || s_pos != t_pos"],
  ensures=["bsd_post(g, weight_map, if use_hidden_edges { hidden_edges } else { Set::empty() }, signed_edges, s, t, s_pos != t_pos, use_cycle_weight_limit, cycle_weight_limit, r.0, r.1, r.2)"],
  ghost="let ghost mut ph: int = 0; let ghost cx = %s; let ghost mut Vf: Set<int> = Set::empty(); let ghost mut Vb: Set<int> = Set::empty(); let ghost mut uf: (int, bool) = (s, s_pos); let ghost mut ub: (int, bool) = (t, t_pos); let ghost mut df: real = 0real; let ghost mut db: real = 0real; proof { assert(cok(cx)); assert(nd(cx, (s, s_pos)) && nd(cx, (t, t_pos))); l_ix(cx, (s, s_pos), (t, t_pos)); }" % C,
  on={"f_frontier_queue": "if ph == 1 { ph = 2; let top = mheap_top::<(int, bool), real>(OLD_); l_f_pop(cx, Fr { q: OLD_, ..%s }, %s, Vf, uf, df, top); Vf = Vf.insert(ix(cx, top)); uf = top; df = ds(cx, %s, top); if cx.ul && !(df < cx.lim) { l_bidi_lim(cx, (s, s_pos), (t, t_pos), Set::empty(), distance_inf); } }" % (F, F, F)},
  loops={
   0: dict(before="l_fst0(cx, %s, signed_s); l_fst0(cx, %s, signed_t); l_met0(cx, %s, %s, best_path_common_vertex);" % (F, B, F, B),
      always=[FS, BS, MET, ENDS, "brk_0 ==> (qempty(%s) || qempty(%s) || (best_path_set && %s))" % (F, B, TOPS)] + LEN,
      begin="ph = 1; l_q(cx, %s, Vf, uf, df); l_q(cx, %s, Vb, ub, db); l_fst_len(cx, %s, Vf, false, uf, 0, df); l_fst_len(cx, %s, Vb, false, ub, 0, db);" % (F, B, F, B), gbegin="let ghost src0 = f_frontier_source; let ghost Fq = %s;" % F,
      end="if f_frontier_source != src0 { let V = Vf; Vf = Vb; Vb = V; let u1 = uf; uf = ub; ub = u1; let d1 = df; df = db; db = d1; l_met_swap(cx, %s, %s, best_path_set, best_path, best_path_common_vertex); }" % (B, F),
      after="l_done(cx, %s, Vf, uf, df, %s, Vb, ub, db, best_path_set, best_path, best_path_common_vertex, %s, %s); l_met_bs(cx, %s, %s, best_path_set, best_path, best_path_common_vertex); l_fst_len(cx, %s, Vf, false, uf, 0, df); l_fst_len(cx, %s, Vb, false, ub, 0, db); if !best_path_set || (cx.ul && !(best_path < cx.lim)) { l_bidi_none(cx, %s, %s, best_path_set, best_path, signed_s, signed_t, Set::empty(), distance_inf); } else { l_opt(cx, %s, %s, best_path); }" % (F, B, TF, TB, F, B, F, B, F, B, F, B)),
   1: dict(before="l_met_q(cx, Fq, %s, %s, best_path_set, best_path, best_path_common_vertex);" % (F, B), inv=["fst(cx, %s, Vf, true, signed_u, ei, df)" % F, BS, MET, ENDS, "0 <= ei <= ei_c.len()", "ei_c == g_out(g, signed_u.0)", "ei_c.len() == eiRange_second", "ph == 2", "uf == signed_u", "d_u == df", "f_frontier_source == src0"] + LEN,
      gbegin="let ghost F0 = %s; let ghost bs0 = best_path_set; let ghost best0 = best_path; let ghost x0 = best_path_common_vertex; let ghost ei0 = ei; let ghost en = g.adj[signed_u.0][ei]; let ghost wn = to(cx, signed_u, en);" % F,
      begin="let F0 = %s; let en = g.adj[signed_u.0][ei]; let wn = to(cx, signed_u, en); l_fst_len(cx, F0, Vf, true, signed_u, ei, df); l_fst_len(cx, %s, Vb, false, ub, 0, db); l_met_bs(cx, F0, %s, best_path_set, best_path, best_path_common_vertex); if cx.H.contains(en) { l_f_skip(cx, F0, Vf, signed_u, ei, df); } else { l_f_b(cx, F0, Vf, signed_u, ei, df); if !below_lim(cx, df + weight_map[en]) { l_f_skip(cx, F0, Vf, signed_u, ei, df); } if vis(cx, %s, wn) { l_fst_ds(cx, %s, Vb, false, ub, 0, db, wn); } }" % (F, B, B, B, B),
      end="if !cx.H.contains(en) && below_lim(cx, df + weight_map[en]) { let F1 = %s; if vis(cx, F0, wn) && (wn == F0.src || !(df + weight_map[en] < ds(cx, F0, wn))) { l_f_skip(cx, F0, Vf, signed_u, ei0, df); assert(F1 == F0); } else { l_f_new(cx, F0, F1, Vf, signed_u, ei0, df); } l_m_step(cx, F0, F1, %s, wn, df + weight_map[en], bs0, best0, x0, signed_u, best_path_set, best_path, best_path_common_vertex); }" % (F, B),
      after="l_f_scanned(cx, %s, Vf, uf, df);" % F),
   2: dict(before="l_path0(cx, signed_cur, cycle);", inv=["nd(cx, signed_cur)", "vis(cx, %s, signed_cur)" % F, "path(cx, signed_cur, best_path_common_vertex, cycle, cycle_weight)", "ds(cx, %s, signed_cur) + cycle_weight == ds(cx, %s, best_path_common_vertex)" % (F, F)],
      gbegin="let ghost cur0 = signed_cur; let ghost T0 = cycle; let ghost W0 = cycle_weight; let ghost pe = f_frontier_pred[ix(cx, signed_cur)];",
      begin="let pe = f_frontier_pred[ix(cx, signed_cur)]; l_up(cx, %s, Vf, uf, df, signed_cur); if cycle.contains(pe.2.id) { l_dup1(%s, signed_s, signed_t, best_path_common_vertex, signed_cur, cycle, cycle_weight); assert(post(cx, signed_s, signed_t, Set::empty(), distance_inf, false)); }" % (F, TREES),
      end="l_path_up(cx, pe.0, pe.2.id, cur0, best_path_common_vertex, T0, cycle, W0);"),
   3: dict(inv=["nd(cx, signed_cur)", "vis(cx, %s, signed_cur)" % B, "path(cx, f_frontier_source, signed_cur, cycle, cycle_weight)", "ds(cx, %s, signed_cur) + cycle_weight == best_path" % B],
      gbegin="let ghost cur0 = signed_cur; let ghost T0 = cycle; let ghost W0 = cycle_weight; let ghost pe = b_frontier_pred[ix(cx, signed_cur)];",
      begin="let pe = b_frontier_pred[ix(cx, signed_cur)]; l_up(cx, %s, Vb, ub, db, signed_cur); if cycle.contains(pe.2.id) { l_dup2(cx, %s, %s, Vb, ub, db, signed_s, signed_t, signed_cur, cycle, cycle_weight, best_path); assert(post(cx, signed_s, signed_t, Set::empty(), distance_inf, false)); }" % (B, F, B),
      end="l_path_down(cx, f_frontier_source, cur0, pe.2.id, pe.0, T0, cycle, W0);",
      after="l_path_end(cx, %s, %s, signed_s, signed_t, cycle, cycle_weight);" % (F, B)),
  }),
]
