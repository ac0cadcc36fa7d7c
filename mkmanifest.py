#!/usr/bin/env python3
"""writes MANIFEST.json (keeps the claims in one place)"""
import json
ALL = ["C%02d" % i for i in range(1, 21)]
NA = {
 "C09": "quantifies over arbitrary inexact double weights with a 1e-9 relative tolerance: it needs error bounds for IEEE-754 sums, comparisons and tie-breaking through four mutually recursive searches, and no installed deductive back end reasons about accumulated floating-point rounding; a contract over reals would prove a different statement",
 "C19": "a statement about C++ translation units (which headers parse alone, which symbols the linker sees twice), not about the behaviour of a function: no pre/postcondition, invariant or lemma over the code expresses it, it is decided by compiling and linking",
}
from vlib.claims import CLAIMS
checks = []
for p in ALL:
    if p in NA: continue
    c = CLAIMS.get(p, {})
    checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="python3 check.py %s --thorough" % p, technique=c.get("technique", "contracts on the real code + bounded run of the real code"), level=c.get("level", "exploration"), level_note=c.get("note", "bounded only so far")))
json.dump(dict(version=1, setup_cmd="python3 setup_check.py", checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in NA.items()], notes="See DESIGN.md. No hooks in /repo: the verified text is extracted from /repo's current source on every run."), open("MANIFEST.json", "w"), indent=1)
