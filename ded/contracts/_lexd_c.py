A = "g, weight_map, s, lex_dist, pred_map, heap, V"
P = "g, weight_map, s, l0, p0, h0, V"
LEXCMP = dict(name="lex_compare", find=r"parmcb::detail::LexDistanceCompare<.*>::operator\(\)", order="lexlt", pure=True,
  ensures=["r == lexlt(a, b)"], begin="l_setcmp(a.vertex_indices, b.vertex_indices);",
  on={"non_common_a": "assert(non_common_a =~= a.vertex_indices.difference(b.vertex_indices) || non_common_a =~= Set::<int>::empty());", "non_common_b": "assert(non_common_b =~= b.vertex_indices.difference(a.vertex_indices) || non_common_b =~= Set::<int>::empty());"})
LEX = dict(name="lex_dijkstra", find=r"parmcb::lex_dijkstra", nloops=2,
  requires=["dpre(g, weight_map)", "vid(g, s)", "old_dist_map.len() == g.n", "old_pred_map.len() == g.n", "forall|v: int| 0 <= v < g.n ==> !(#[trigger] old_pred_map[v]).0"],
  ensures=["ldij_post(g, weight_map, s, dist_map, pred_map)", "dist_map[s] == old_dist_map[s]"],
  ghost="let ghost mut V: Set<int> = Set::empty(); let ghost mut d: real = 0real;",
  loops={0: dict(before="assert(lex_dist[s] == lab0(s)); l_lex0(g, weight_map, s, lex_dist, pred_map, heap);",
      inv=["ldst(%s, -1, 0, d)" % A, "dist_map.len() == g.n", "dist_map[s] == old_dist_map[s]", "pred_map.len() == g.n", "lex_dist.len() == g.n", "index_in_heap.len() == g.n", "combine_combine.inf == dmax()", "forall|v: int| #[trigger] vid(g, v) && pred_map[v].0 ==> v != s && dist_map[v] == lex_dist[v].distance"],
      begin="l_lex_keys(%s, d);" % A, gbegin="let ghost h9 = heap;",
      after="l_lex_end(g, weight_map, s, lex_dist, dist_map, pred_map, heap, V, d);"),
    1: dict(before="l_lex_pop(g, weight_map, s, lex_dist, pred_map, h9, V, d, u); V = V.insert(u); d = d_u.distance; l_adj(g, u);",
      inv=["ldst(%s, u, ei, d)" % A, "dist_map.len() == g.n", "dist_map[s] == old_dist_map[s]", "pred_map.len() == g.n", "lex_dist.len() == g.n", "index_in_heap.len() == g.n", "vid(g, u)", "d_u.distance == d", "d_u == lex_dist[u]", "0 <= ei <= ei_c.len()", "ei_c == g_out(g, u)", "eiRange_second == ei_c.len()", "combine_combine.inf == dmax()", "forall|v: int| #[trigger] vid(g, v) && pred_map[v].0 ==> v != s && dist_map[v] == lex_dist[v].distance"],
      begin="assert(ei_c[ei] == out_edge(g, u, ei)); let w9 = oth(g, g.adj[u][ei], u); l_lex_b(%s, u, ei, d, w9); let c9 = lcomb(d_u, weight_map[g.adj[u][ei]], w9); assert(d_u.vertex_indices.insert(w9).insert(u) =~= c9.vertex_indices);" % A,
      gbegin="let ghost e0 = ei; let ghost h0 = heap; let ghost p0 = pred_map; let ghost l0 = lex_dist; let ghost d0 = dist_map;",
      end="let w9 = oth(g, g.adj[u][e0], u); let c9 = lcomb(d_u, weight_map[g.adj[u][e0]], w9); if w9 == u || w9 == s || (p0[w9].0 && !lexlt(c9, l0[w9])) { l_lex_old(%s, u, e0, d); assert(heap =~= h0 && pred_map =~= p0 && lex_dist =~= l0); } else { l_lex_new(%s, u, e0, d); assert(heap =~= h0.insert(w9, c9)); assert(lex_dist =~= l0.update(w9, c9)); assert(pred_map =~= p0.update(w9, (true, out_edge(g, u, e0)))); assert(dist_map =~= d0.update(w9, c9.distance)); }" % (P, P),
      after="l_lex_scanned(%s, u, d);" % A)})
