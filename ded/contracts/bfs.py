"""is_bfs_reachable (C15)"""
from trg import TrG as TR
INST = "inst_graph.cpp"
PRELUDES = ["graph.rs", "bfs.rs"]
LEMMAS = ""
from contracts._bfs_c import BFS
FUNCS = [BFS]
