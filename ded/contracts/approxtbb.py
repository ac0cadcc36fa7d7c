"""the approximation algorithms run on TBB (C03, C05, C06): run() and the entry points; what they call by its contract"""
from trg import TrG as TR
from contracts import approx, closetbb, tbb
from contracts._spanner_c import SP_OK
from contracts._exact_c import cited
INST = "inst_atbb.cpp"
PRELUDES = approx.PRELUDES
TYS = approx.TYS + ["BaseApproxSpannerAlgorithm__"]
LEMMAS = approx.LEMMAS + SP_OK.replace("sp_ok", "sp_ok__").replace(TYS[0], TYS[2])
T = [f for f in tbb.FUNCS if f["name"] == "mcb_signed_tbb"][0]
for r in approx._M["ensures"]: assert r in T["ensures"], r
assert set(T["requires"]) <= set(approx._M["requires"])
FUNCS = [dict(approx.BFS, trusted=True)] + [approx.exact("signed_tbb"), approx.exact("fvs_trees_tbb"), approx.exact("iso_trees_tbb"), dict(closetbb.FUNCS[0], trusted=True)]
for j, k in enumerate(["signed_tbb", "fvs_trees_tbb", "iso_trees_tbb"]): FUNCS += approx.algo(k, j, TYS)
