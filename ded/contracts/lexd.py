"""shortest paths with lexicographic labels (C12)"""
from trt import TrT as TR
INST = "inst_trees.cpp"
PRELUDES = ["graph.rs", "dijkstra.rs", "lexd.rs"]
PROVIDED = ("LexDistance",)
LEMMAS = ""
from contracts._lexd_c import LEXCMP, LEX
FUNCS = [LEXCMP, LEX]
