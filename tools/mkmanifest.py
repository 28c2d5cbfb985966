#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED: property -> (technique, level note)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GRAPH = "TLA+ Engine.tla: TLC state graph replayed exhaustively on the real engines + trace validation of random runs by TLC"
TRACE = "TLA+ Engine.tla: trace validation of recorded runs of the real engines by TLC"
EN = ("Exhaustive within six universes of six patterns (all 64 subscription sets, all walks up to the bound) and sampled beyond; "
      "trusts TLC, Tdt.tla's bit layouts and the driver's projection of reports to destinations. Not a proof for all inputs.")
SA = "Sampled runs (seeded), every step judged by TLC against the specification; trusts TLC and the recording driver."
CLAIMED = {
 "C01": (GRAPH, EN), "C02": (GRAPH, EN), "C03": (GRAPH, EN), "C04": (GRAPH, EN), "C05": (GRAPH, EN),
 "C06": (TRACE, SA), "C07": (GRAPH, EN), "C17": (TRACE, SA),
}
exec(open(os.path.join(HERE, "tools", "claims.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "claims.py")) else None
NA = {"C35": "the repository contains no delivery code (cmd/gosstrak-fc discards the report URIs at a TODO), so a specification has nothing to bind to"}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
  checks=[dict(property=p, quick_cmd="python3 check.py %s --quick" % p, thorough_cmd="python3 check.py %s --thorough" % p,
               evidence_file="evidence/%s.json" % p, technique=CLAIMED[p][0], level="model_checking", level_note=CLAIMED[p][1])
          for p in props if p in CLAIMED],
  not_applicable=[dict(property=p, reason=NA.get(p, "no check has been built yet")) for p in props if p not in CLAIMED],
  notes="TLA+ checked with TLC; no hooks in /repo: everything is observed through the public API, sockets and files.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
