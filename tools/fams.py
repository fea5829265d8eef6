"""Prints the families of an evidence file: evaluations, non-trivial, distinct outcomes."""
import json, sys
for i in sys.argv[1:]:
    d = json.load(open(f"/verif/evidence/{i}.json"))
    c = d["coverage"]
    print(i, d["wall_s"], "states", c.get("states"), "traces", c.get("traces_validated_against_impl"), "violations", d["violations"])
    for f in c["families"]:
        print("   %-24s %9d %9d %9d" % (f["family"], f["evaluations"], f["nontrivial"], f["distinct_nontrivial_outcomes"]))
