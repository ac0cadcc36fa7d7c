"""the shortest odd cycle out of shortest-path trees, and the exact algorithms on top of it (C01, C02, C03)"""
from trt import TrT as TR
INST = "inst_trees.cpp"
PRELUDES = ["graph.rs", "dijkstra.rs", "lexd.rs", "cspace.rs", "mcb.rs", "signed.rs", "sptree.rs", "cands.rs", "consist.rs", "treemcb.rs"]
PROVIDED = ("LexDistance", "SPNode", "SPTree", "CandidateCycle", "SPSubtree", "SPSubtree_")
from contracts._exact_c import LEM0, LEMMAS as EXACT, cited
from contracts import sptree, fvs
from contracts._sptree_c import setup
LEMMAS = [l for l in fvs.LEMMAS.split("\n") if "spec fn fvs_post" in l][0] + "\n"
CC = [dict(name="cc_copy", find="parmcb::CandidateCycle<.*>::CandidateCycle", sig="const CandidateCycle", ensures=["this_ == c"]),
      dict(name="cc_assign", find="parmcb::CandidateCycle<.*>::operator=", ensures=["this_ == other"])]
TT = "trees[c._tree]"
W = "while_"
def leg(k, full): return dict(
   inv=["valid", "bst(%s, %s, pre, w, result, cycle_weight)" % (TT, full), "ws == nod(%s, w)" % TT],
   always=["valid ==> !brk_%d" % k, "valid || nogood(%s, signed_edges, e.id, use_weight_limit, weight_limit)" % TT],
   begin="l_bst_at(%s, w); l_bst_step(%s, e.id, %s, pre, w, result, cycle_weight, signed_edges, use_weight_limit, weight_limit);" % (TT, TT, full),
   gbegin="let ghost a9 = %s.hp[ws]._pred.id;" % TT, end="l_bst_at(%s, w); pre = pre.push(a9);" % TT)
BUILD = dict(name="cyc_of", find="parmcb::CandidateCycleBuilder<.*>::operator\\(\\)", nloops=2, pure=True,
  requires=["0 <= c._tree < trees.len()", "tsk(%s)" % TT, "par_ok(%s, signed_edges)" % TT, "%s._g == this_.g" % TT, "%s._weight_map == this_.weight_map" % TT, "ends_live(%s, c._e.id)" % TT, "c._e == edge_of(this_.g, c._e.id)"],
  ensures=["r.2 ==> good({t}, signed_edges, c._e.id) && r.0 == cl({t}, c._e.id).to_set() && r.1 == cand_w({t}, c._e.id)".format(t=TT),
           "!r.2 ==> nogood(%s, signed_edges, c._e.id, use_weight_limit, weight_limit)" % TT],
  ghost="let ghost mut pre: Seq<int> = Seq::empty();",
  begin="l_bst_at({t}, c._e.s); l_bst_at({t}, c._e.t); l_cwalk({t}, signed_edges, c._e.id); l_rp_par({t}, signed_edges); l_troot({t}); l_nodef({t}, nod({t}, c._e.s)); l_nodef({t}, nod({t}, c._e.t));".format(t=TT),
  loops={0: dict(leg(0, "seq![e.id] + rpe(%s, this_.g.ends[e.id].0)" % TT), before="pre = seq![e.id]; l_bst0(%s, e.id, result, cycle_weight);" % TT, after="if valid { l_bst_mid(%s, e.id, pre, w, result, cycle_weight); }" % TT),
         1: dict(leg(1, "cl(%s, e.id)" % TT), after="if valid { l_bst_end(%s, e.id, pre, w, result, cycle_weight, signed_edges); }" % TT)})
FUNCS = [BUILD]
RD = "this_.trees, this_.cycles, this_.g, this_.weight_map"
LOK = ["tready(old_this_.trees, old_this_.cycles, old_this_.g, old_this_.weight_map)", "old_this_.sorted_cycles ==> sortedc(old_this_.cycles)", "has_odd(old_this_.g, edges)",
       "old_this_.candidate_cycle_builder.g == old_this_.g", "old_this_.candidate_cycle_builder.weight_map == old_this_.weight_map"]
def lens(ty): return ["r.2", "min_odd(this_.g, this_.weight_map, edges, r.0, r.1)", "tready(%s)" % RD, "this_ == (%s { trees: this_.trees, ..old_this_ })" % ty]
PRE = "l_lk_pre(%s, edges, %%s);" % RD
STEP = "l_lk(%s, edges, %%s, %%s, b9.0, b9.1, b9.2, R_.0.0, R_.0.1, R_.0.2);" % RD
LK = "lk(this_.trees, this_.cycles, edges, %s, %s, %s.0, %s.1, %s.2)"
LOOK = dict(name="look", writes=["trees"], find=r"parmcb::ShortestOddCycleLookup<.*(?:false|0)>::compute_shortest_odd_cycle", nloops=2, requires=LOK, ensures=lens("ShortestOddCycleLookup"),
  loops={0: dict(inv=["0 <= i <= this_.trees.len()", "this_.trees.len() == old_this_.trees.len()", "this_ == (ShortestOddCycleLookup { trees: this_.trees, ..old_this_ })",
      "forall|j: int| 0 <= j < i ==> reparity(edges, old_this_.trees[j], #[trigger] this_.trees[j])", "forall|j: int| i <= j < this_.trees.len() ==> #[trigger] this_.trees[j] == old_this_.trees[j]"],
      begin="l_trok(old_this_.trees, this_.g, this_.weight_map, i);", after="l_ready(old_this_.trees, this_.trees, this_.cycles, this_.g, this_.weight_map, edges);"),
   1: dict(before="l_lk0(this_.trees, this_.cycles, edges, 0, min.0, min.1);", inv=["0 <= c_i <= this_.cycles.len()", "c_c == this_.cycles", "parall(this_.trees, edges)", "tready(%s)" % RD, LK % ("0", "c_i", "min", "min", "min"), "this_.sorted_cycles ==> !min.2"],
      begin=PRE % "c_i", gbegin="let ghost b9 = min; let ghost i9 = c_i;")},
  after={"cyc_of": STEP % ("0", "i9") + " if R_.0.2 && this_.sorted_cycles { assert(is_it(this_.trees, this_.cycles, edges, R_.0.0, R_.0.1, i9)); l_lk_sorted(this_.trees, this_.cycles, edges, i9 + 1, this_.cycles.len() as int, R_.0.0, R_.0.1); }"},
  at_return="l_lk_end(%s, edges, r.0, r.1, r.2);" % RD)
CITED = cited(sptree, "t_new", "t_par", "t_cand")
FUNCS = CITED + CC + [BUILD, LOOK]
RN = "lk(this_.trees, this_.cycles, edges, LO_, HI_, V_.0, V_.1, V_.2)"
LOOKT = dict(LOOK, name="look_tbb", find=r"parmcb::ShortestOddCycleLookup<.*(?:true|1)>::compute_shortest_odd_cycle", nloops=2, ensures=lens("ShortestOddCycleLookup_"),
  par={0: dict(rows={"this_.trees": "reparity(edges, OLD_, NEW_)"}, after="l_ready(old_this_.trees, this_.trees, this_.cycles, this_.g, this_.weight_map, edges);"),
       1: dict(R=RN, id="l_lk0(this_.trees, this_.cycles, edges, LO_, V_.0, V_.1);", join="l_lk_join(this_.trees, this_.cycles, edges, LO_, MID_, HI_, X_.0, X_.1, X_.2, Y_.0, Y_.1, Y_.2);")},
  loops={0: dict(inv=["p0_lo <= i <= p0_hi", "this_.trees.len() == old_this_.trees.len()", "this_ == (ShortestOddCycleLookup_ { trees: this_.trees, ..old_this_ })",
      "forall|j: int| p0_lo <= j < i ==> reparity(edges, old_this_.trees[j], #[trigger] this_.trees[j])", "forall|j: int| i <= j < p0_hi ==> #[trigger] this_.trees[j] == old_this_.trees[j]"],
      begin="l_trok(old_this_.trees, this_.g, this_.weight_map, i);"),
   1: dict(inv=["p1_mid <= i <= p1_hi", "parall(this_.trees, edges)", "tready(%s)" % RD, RN.replace("LO_", "p1_lo").replace("HI_", "i").replace("V_", "running_min")],
      begin=PRE % "i", gbegin="let ghost b9 = running_min; let ghost i9 = i;")},
  after={"cyc_of": STEP % ("p1_lo", "i9")})
FUNCS += [LOOKT]

FVS = cited(fvs, "greedy_fvs")[0]
BUILDER = dict(name="fvs_build", find=r"parmcb::detail::FVSCyclesBuilder<.*>::operator\(\)", nloops=2, requires=["epre(g, weight_map)", "old_trees.len() == 0", "old_cycles.len() == 0"], ensures=["tready(trees, cycles, g, weight_map)"],
  ghost="let ghost mut F: Seq<int> = Seq::empty();",
  loops={0: dict(before="F = v_c; l_nd_len(g, F); l_trees0(g, weight_map, F); assert(trees =~= Seq::empty());", inv=["0 <= v_i <= F.len()", "F == v_c", "fvs_post(g, F)", "trok(trees, g, weight_map)", "srcs(trees, F, v_i)", "cycles.len() == 0"],
      begin="l_srcs(trees, F, v_i); assert(vid(g, F[v_i]));", gbegin="let ghost t9 = trees; let ghost i9 = v_i;", end="l_trees_add(t9, g, weight_map, F, i9, trees.last()); assert(trees =~= t9.push(trees.last()));", after="l_covers(trees, g, F, v_i); l_srcs(trees, F, v_i);"),
    1: dict(before="assert(cycles =~= Seq::empty()); l_cyok0(trees);", inv=["0 <= tree_i <= trees.len()", "trok(trees, g, weight_map)", "covers(trees, g)", "cyok(trees, cycles, tree_i)"], begin="l_trok(trees, g, weight_map, tree_i);", gbegin="let ghost c9 = cycles; let ghost i9 = tree_i;",
      end="l_cyok_add(trees, g, weight_map, c9, i9, c_t_cand_1@.0); assert(cycles =~= c9 + c_t_cand_1@.0);")})
FUNCS += [FVS, BUILDER]
