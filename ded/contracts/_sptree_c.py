def setup(prog, types): types.regions = {"SPTree": "SPNode"}
T = r"parmcb::SPTree<.*>::"
OUT = "this_ == (SPTree { hp: this_.hp, _tree_node_map: this_._tree_node_map, _root: this_._root, _first_in_path: this_._first_in_path, ..old_this_ })"
INIT = dict(name="t_init", find=T + "initialize", nloops=2, requires=["ipre(old_this_)"], ensures=["tsk(this_)", "first_ok(this_)", OUT],
  loops={0: dict(before="l_nst0(old_this_, dist, pred); assert(!pred[this_._source].0);",
      inv=["0 <= vi <= viend", "viend == old_this_._g.n", "nst(old_this_, this_, dist, pred, vi)", "nokids(this_)"],
      begin="l_nst_len(old_this_, this_, dist, pred, vi);", gbegin="let ghost t9 = this_; let ghost v9 = vi;", end="l_nst(old_this_, t9, dist, pred, v9, this_, this_.hp.last());"),
    1: dict(before="l_nst_len(old_this_, this_, dist, pred, old_this_._g.n); l_lnk0(old_this_, this_, dist, pred);", inv=["0 <= vi <= viend", "viend == old_this_._g.n", "lnk(old_this_, this_, dist, pred, vi)"],
      begin="reveal(lnk); l_nst_len(old_this_, this_, dist, pred, old_this_._g.n); if pred[vi].0 { l_lnk_b(old_this_, this_, dist, pred, vi); }", gbegin="let ghost t9 = this_; let ghost v9 = vi;",
      end="if pred[v9].0 { l_lnk(old_this_, t9, dist, pred, v9); } else { l_lnk_no(old_this_, t9, dist, pred, v9); }",
      after="l_lnk_end(old_this_, this_, dist, pred);")})
FB = "old_this_, this_, D, stack"
def kids(k, st): return dict(inv=["0 <= r.root < this_.hp.len()", "c_c == this_.hp[r.root]._children", "%s(old_this_, this_, %sD, stack, r.root, c_i)" % st],
      begin="l_%s_kid(old_this_, this_, %sD, stack, r.root, c_i);" % (k, st[1]), gbegin="let ghost st9 = stack; let ghost i9 = c_i;",
      end="l_%s_push(old_this_, this_, %sD, st9, r.root, i9, stack.last()); assert(stack =~= st9.push(stack.last()));" % (k, st[1]), after="l_%s_done(old_this_, this_, %sD, stack, r.root);" % (k, st[1]))
FIRST = dict(name="t_first", find=T + "compute_first_in_path", nloops=3, requires=["tsk(old_this_)"], ensures=["first_ok(this_)", "tsk(this_)", "firstsame(old_this_, this_)"],
  ghost="let ghost mut D: Set<int> = Set::empty();",
  loops={0: dict(before="l_fst0(this_, stack);", inv=["fst(old_this_, this_, D, stack, -1, 0)"], begin="l_fst_pop(old_this_, this_, D, stack); D = D.insert(this_.hp[stack.last().root]._vertex);", after="l_fst_end(old_this_, this_, D, stack);"),
    1: kids("fst", ("fst", "")), 2: kids("fst", ("fst", ""))})
CTOR = dict(name="t_new", find=T + "SPTree(?:<.*>)?", requires=["dpre(g, weight_map)", "vid(g, source)"],
  ensures=["tsk(this_)", "first_ok(this_)", "this_._id == id", "this_._g == g", "this_._weight_map == weight_map", "this_._source == source"])
PAR = dict(name="t_par", find=T + "update_parities", nloops=2, requires=["tsk(old_this_)"], ensures=["tsk(this_)", "par_ok(this_, edges)", "parsame(old_this_, this_)"],
  ghost="let ghost mut D: Set<int> = Set::empty();",
  loops={0: dict(before="l_par0(this_, edges, stack);", inv=["pst(old_this_, this_, edges, D, stack, -1, 0)"], begin="l_par_pop(old_this_, this_, edges, D, stack); D = D.insert(this_.hp[stack.last().root]._vertex);", after="l_par_end(old_this_, this_, edges, D, stack);"),
    1: kids("par", ("pst", "edges, "))})
CAND = dict(name="t_cand", find=T + "create_candidate_cycles", npar=0, nloops=2, requires=["tsk(this_)"], ensures=["cands(this_, r, this_._g.ends.len() as int)", "first_ok(this_) && no_loops(this_._g) ==> sound_c(this_, r)"], at_return="l_c14_all(this_, r, this_._g.ends.len() as int);",
  begin="l_troot(this_);",
  loops={0: dict(inv=["0 <= vi <= viend", "viend == this_._g.n", "tedges(this_, tree_edges, vi)"], begin="l_tv(this_, vi);", gbegin="let ghost X9 = tree_edges; let ghost v9 = vi;", end="l_tedges(this_, X9, v9, tree_edges);"),
    1: dict(before="l_cands0(this_);", inv=["0 <= it <= end", "end == this_._g.ends.len()", "it_c == g_edges(this_._g)", "tedges(this_, tree_edges, this_._g.n)", "cands(this_, cycles, it)"],
      begin="assert(eid(this_._g, it)); assert(it_c[it] == edge_of(this_._g, it)); assert(tree_edges.contains(it) <==> tedge(this_, this_._g.n, it)); l_tv(this_, it_c[it].s); l_tv(this_, it_c[it].t);", gbegin="let ghost c9 = cycles; let ghost i9 = it;",
      end="if iscand(this_, i9) { l_cands_add(this_, c9, i9, cycles.last()); assert(cycles =~= c9.push(cycles.last())); } else { l_cands_no(this_, c9, i9); }")})
