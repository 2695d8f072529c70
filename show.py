"""Developer aid: print the facet table of an evidence file."""
import json, sys
for p in sys.argv[1:]:
    d = json.load(open("/verif/evidence/%s.json" % p))
    print(p, d["coverage"]["evaluations"], d["coverage"]["distinct_nontrivial"], d["wall_s"])
    for k, v in d["coverage"]["facets"].items():
        print("  ", k, v["evaluations"], v["distinct_nontrivial"], "worst %.3g" % v.get("worst_error_over_tolerance", 0), v["labels"])
