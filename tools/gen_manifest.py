#!/usr/bin/env python3
# Writes /verif/MANIFEST.json. A property is claimed when the harness has its check.
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
have = set()
for f in os.listdir(ROOT + "/harness"):
    if f.endswith(".go"):
        have |= set(re.findall(r'ID:\s*"(C\d\d)"', open(ROOT + "/harness/" + f).read()))
SCHED = "stateless model checking of the real code: exhaustive deviation-bounded exploration of goroutine schedules, selects and clock steps under a controlled scheduler"
BFS = "explicit-state exploration of the real code: every operation sequence up to a depth from every fixture, states deduplicated, each transition checked against an executable reference model"
GRID = "exhaustive enumeration of a bounded input/draw space executed on the real code and checked against an executable reference"
INFO = {
 "C01": (SCHED + "; plus exhaustive count/packet/worker enumeration", "model_checking", "every schedule within the deviation bound of each scenario, every tracker count in the enumerated windows; scheduling points at each statement and lock of the root package"),
 "C02": (SCHED, "model_checking", "deadlock, leak and late-callback freedom on every schedule within the deviation bound; other packages run atomically between scheduling points"),
 "C03": (SCHED + "; same schedules again under the race detector", "model_checking", "every schedule within the deviation bound; race detection on the explored schedules"),
 "C04": (BFS + "; and " + SCHED, "model_checking", "all histories up to the depth bound over 2 generators and 3 trackers; all schedules within the deviation bound for pairs and triples of calls"),
 "C05": (SCHED + " of every pair of tracker methods, results compared with all sequential orders; same schedules again under the race detector", "model_checking", "every pair of exported tracker methods, selected triples, within the deviation bound"),
 "C06": (SCHED + "; exhaustive enumeration of tick lengths and slow-callback patterns on the real generator under a fake clock", "model_checking", "bounded number of steps and ticks; the fake clock of testing/synctest is trusted"),
 "C07": (BFS, "model_checking", "bounded depth over fixture routes; random draws fixed per run to enumerated policies"),
 "C08": (BFS, "model_checking", "independent reference walker compared on every step of every enumerated walk"),
 "C09": (BFS, "model_checking", "every target index/id and a grid of distances from every reached place"),
 "C10": (BFS + "; every value of the offline draw", "model_checking", "all draws of small offline ranges, all battery/step combinations of the grid"),
 "C11": (BFS, "model_checking", "all edit/step histories up to the depth bound"),
 "C12": (GRID, "exploration", "control values from {0,1/2,max} per draw, step ratios on a grid; floating-point tolerance 1e-9 relative"),
 "C13": (BFS + " in lockstep on original and restored tracker", "model_checking", "save/restore inserted at every position of every history up to the depth bound"),
 "C14": (BFS + " in lockstep on original and decoded routes/sensors", "model_checking", "all routes built from up to the bounded number of tracks and edits"),
 "C15": (GRID, "exploration", "all route lists up to the bound, all geometry shapes up to the bound"),
 "C16": (GRID, "exploration", "all route lists up to the bound, all GPX structures up to the bound"),
 "C17": ("exhaustive fault enumeration on the real decoders: every truncation, byte substitution and structural removal of valid images", "fault_enumeration", "single (and structured double) faults of the seed images; every survivor is exercised"),
 "C18": (GRID, "exploration", "lattice of points, bearings and distances; tolerance-based comparison with independent formulas"),
 "C19": (BFS, "model_checking", "all edit histories up to the depth bound against a list model"),
 "C20": ("exhaustive enumeration of random-draw decisions (decision tree of the random source) on the real code", "exploration", "every draw from the extremes and the middle of its range, all listed countries"),
 "C21": (GRID, "exploration", "boundary lattice of every option, pairwise complete"),
 "C22": (BFS, "model_checking", "all edit histories up to the depth bound against a list model"),
 "C23": (SCHED, "model_checking", "every schedule within the deviation bound"),
 "C24": (BFS + " on pairs of trackers compared with each tracker left alone; and " + SCHED + " of pairs of calls on different objects, also under the race detector", "model_checking", "all interleavings of operation histories on two trackers up to the depth bound; all schedules within the deviation bound"),
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t, lvl, note = INFO[i]
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick ./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
                           evidence_file=f"evidence/{i}.json", technique=t, level=lvl, level_note=note))
    else:
        na.append(dict(property=i, reason="no check has been built yet"))
m = dict(version=1, setup_cmd="./tools/setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: checks instrument a copy of the working tree (tools/instr). Known and fixed defects: known_findings.txt.")
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
