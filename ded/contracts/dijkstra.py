"""Dijkstra's algorithm (C05, C06)"""
from trg import TrG as TR
INST = "inst_spanner.cpp"
PRELUDES = ["graph.rs", "dijkstra.rs"]
LEMMAS = ""
from contracts._dijkstra_c import DIJ
FUNCS = [DIJ]
