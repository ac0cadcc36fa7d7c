"""the spanner construction (C15)"""
from trg import TrG as TR
from contracts._bfs_c import BFS
INST = "inst_spanner.cpp"
PRELUDES = ["graph.rs", "bfs.rs", "spanner.rs"]
from contracts._spanner_c import SP_OK, spanner_funcs
LEMMAS = SP_OK
FUNCS = spanner_funcs(r"parmcb::detail::BaseApproxSpannerAlgorithm<.*>::", "BaseApproxSpannerAlgorithm", "sp_ok") + [dict(BFS, trusted=True)]
