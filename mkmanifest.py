#!/usr/bin/env python3
"""Write MANIFEST.json from plan.py."""
import json, os, sys
sys.dont_write_bytecode = True
from plan import CHECKS, NOT_APPLICABLE, TITLES, NOTES
HERE = os.path.dirname(os.path.abspath(__file__))
T = "deterministic simulation with fault injection: "
checks = []
for p in sorted(CHECKS):
    c = CHECKS[p]
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p}",
                       evidence_file=f"evidence/{p}.json", technique=T + NOTES[p][0], level=c.get("level", "exploration"), level_note=NOTES[p][1]))
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="CEST_SIM_CHUNK_SIZE",
                    enable="-DCEST_SIM_CHUNK_SIZE=<n> when compiling the deque worlds (deque storage blocks of n elements instead of 1024); "
                           "every other world compiles /repo/include with no define of ours",
                    source_commits=["c968bd2"]),
         checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in sorted(NOT_APPLICABLE.items())],
         notes="One framework: worlds/*.cpp are simulated client programs compiled against /repo/include; sim/ is the simulator; check.py builds, "
               "explores seeds on all cores, minimises, replays and writes evidence. check.py --replay FILE rebuilds the world and replays a failure.")
assert set(CHECKS) | set(NOT_APPLICABLE) == set(TITLES), set(TITLES) - set(CHECKS) - set(NOT_APPLICABLE)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
