A = "dist, pred, queue, V"
BFS = dict(name="is_bfs_reachable", find=r"parmcb::is_bfs_reachable", nloops=2, requires=["wf(g)", "vid(g, s)", "vid(g, t)"],
  ensures=["r <==> within(g, s, t, max_hops)"],
  ghost="let ghost mut V: Set<int> = Set::empty().insert(s); let ghost mut d: int = 0;",
  loops={0: dict(before="l_bfs0(g, s, t, dist, pred, queue);", inv=["bst(g, s, t, %s, -1, 0, d)" % A, "dist.len() == g.n", "pred.len() == g.n"],
      begin="l_bfs_pop(g, s, t, %s, d); d = dist[queue[0]]; if d > max_hops { l_bfs_far(g, s, t, dist, pred, queue.drop_first(), V, queue[0], d, max_hops); } else if queue[0] == t { l_bfs_hit(g, s, t, dist, pred, queue.drop_first(), V, queue[0], d, max_hops); }" % A,
      after="l_bfs_end(g, s, t, %s, d, max_hops);" % A),
    1: dict(inv=["bst(g, s, t, %s, u, ei, d)" % A, "dist.len() == g.n", "pred.len() == g.n", "vid(g, u)", "u != t", "0 <= ei <= ei_c.len()", "ei_c == g_out(g, u)", "d_u == dist[u]", "d == d_u", "0 <= d_u < V.len() <= g.n"],
      begin="assert(ei_c[ei] == out_edge(g, u, ei)); l_adj(g, u); let w9 = oth(g, g.adj[u][ei], u); assert(vid(g, w9)); l_bfs_st(g, s, t, %s, u, ei, d, w9);" % A,
      gbegin="let ghost e0 = ei; let ghost q0 = queue; let ghost p0 = pred; let ghost d0 = dist;",
      end="let w9 = oth(g, g.adj[u][e0], u); if w9 == s || p0[w9].0 { l_bfs_old(g, s, t, d0, p0, q0, V, u, e0, d); assert(queue =~= q0 && pred =~= p0 && dist =~= d0); } else { l_bfs_new(g, s, t, d0, p0, q0, V, u, e0, d); assert(dist =~= d0.update(w9, d + 1)); assert(pred =~= p0.update(w9, (true, out_edge(g, u, e0)))); assert(queue =~= q0.push(w9)); V = V.insert(w9); }",
      after="l_bfs_scanned(g, s, t, %s, u, d);" % A)})
