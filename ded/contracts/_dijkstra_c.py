A = "g, weight_map, s, dist_map, pred_map, heap, V"
P = "g, weight_map, s, d0, p0, h0, V"
DIJ = dict(name="dijkstra", find=r"parmcb::dijkstra", nloops=2,
  requires=["dpre(g, weight_map)", "vid(g, s)", "old_dist_map.len() == g.n", "old_pred_map.len() == g.n", "forall|v: int| 0 <= v < g.n ==> !(#[trigger] old_pred_map[v]).0"],
  ensures=["dij_post(g, weight_map, s, dist_map, pred_map)"],
  ghost="let ghost mut V: Set<int> = Set::empty(); let ghost mut d: real = 0real;",
  loops={0: dict(before="l_dij0(g, weight_map, s, dist_map, pred_map, heap);", inv=["dst(%s, -1, 0, d)" % A, "dist_map.len() == g.n", "pred_map.len() == g.n", "index_in_heap.len() == g.n"],
      begin="l_dij_keys(%s, d);" % A,
      after="l_dij_end(%s, d);" % A),
    1: dict(before="l_dij_pop(g, weight_map, s, dist_map, pred_map, h9, V, d, u); V = V.insert(u); d = d_u; l_adj(g, u);",
      inv=["dst(%s, u, ei, d)" % A, "dist_map.len() == g.n", "pred_map.len() == g.n", "index_in_heap.len() == g.n", "vid(g, u)", "d_u == d", "0 <= ei <= ei_c.len()", "ei_c == g_out(g, u)", "eiRange_second == ei_c.len()"],
      begin="assert(ei_c[ei] == out_edge(g, u, ei)); let w9 = oth(g, g.adj[u][ei], u); l_dij_b(%s, u, ei, d, w9);" % A,
      gbegin="let ghost e0 = ei; let ghost h0 = heap; let ghost p0 = pred_map; let ghost d0 = dist_map;",
      end="let w9 = oth(g, g.adj[u][e0], u); if w9 == u || w9 == s || (p0[w9].0 && !(d + weight_map[g.adj[u][e0]] < d0[w9])) { l_dij_old(%s, u, e0, d); assert(heap =~= h0 && pred_map =~= p0 && dist_map =~= d0); } else { l_dij_new(%s, u, e0, d); let c9 = d + weight_map[g.adj[u][e0]]; assert(heap =~= h0.insert(w9, c9)); assert(dist_map =~= d0.update(w9, c9)); assert(pred_map =~= p0.update(w9, (true, out_edge(g, u, e0)))); }" % (P, P),
      after="l_dij_scanned(%s, u, d);" % A)})
DIJ["loops"][0]["gbegin"] = "let ghost h9 = heap;"
