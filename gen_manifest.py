#!/usr/bin/env python3
import json,sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"sim"))
from props import PROPS
NA={"P90":"Results of pure numeric kernels depend on their input values only: there is no schedule, clock, randomness, I/O or fault for a simulator to control, so seeded search over schedules and faults decides nothing beyond what a plain unit test samples.",
"P91":"The results are computed by GLSL compute shaders inside the GPU driver: that needs an OpenGL 4.4 implementation, and neither a GPU nor a software rasteriser is available here. Simulating the shaders would mean checking a re-implementation, not the code."}
ids=[json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"))]
for i in ids:
    if i not in PROPS and i not in NA: NA[i]="Check not built yet."
m={"version":1,"setup_cmd":"true",
"hooks":{"guard":"LITIV_SIM_CACHE_MIN_SIZE and LITIV_SIM_DEFAULT_FRAME_SIZE (preprocessor defines)","enable":"sim/build.py compiles /repo's sources with -DLITIV_SIM_CACHE_MIN_SIZE=sim_cache_min_size() and -DLITIV_SIM_DEFAULT_FRAME_SIZE=sim_frame_w(),sim_frame_h()","source_commits":json.load(open("hooks.json")) if os.path.exists("hooks.json") else []},
"checks":[{"property":p,"quick_cmd":"python3 check.py %s quick"%p,"thorough_cmd":"python3 check.py %s thorough"%p,"evidence_file":"evidence/%s.json"%p,
 "technique":"deterministic simulation with fault injection: seeded random-walk/PCT schedules and fault sequences over the real code in one process, checked against a reference model, with exact replay",
 "level":PROPS[p].get("level","exploration"),"level_note":PROPS[p].get("note","Seeded search: every run is one exactly repeatable execution; absence of violations is evidence over the explored seeds, not proof.")} for p in sorted(PROPS)],
"not_applicable":[{"property":p,"reason":r} for p,r in sorted(NA.items())],
"notes":"sim/: simulator runtime (rt_*), workloads and oracles (h_*), build (build.py, targets.py), per-property configuration (props.py). check.py drives 8 workers, re-runs and replays every violation before reporting it. known_findings.txt lists recorded and fixed defects."}
json.dump(m,open("MANIFEST.json","w"),indent=1)
