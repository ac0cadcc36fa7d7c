"""shortest-path trees (C12, C14)"""
from trt import TrT as TR
INST = "inst_trees.cpp"
PRELUDES = ["graph.rs", "dijkstra.rs", "lexd.rs", "cspace.rs", "mcb.rs", "signed.rs", "sptree.rs", "cands.rs", "consist.rs"]
PROVIDED = ("LexDistance", "SPNode", "SPTree", "CandidateCycle", "SPSubtree", "SPSubtree_")
LEMMAS = ""
from contracts._lexd_c import LEX, LEXCMP
from contracts._sptree_c import *
FUNCS = [dict(LEX, trusted=True), INIT, FIRST, CTOR, PAR, CAND]
