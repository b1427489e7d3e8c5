"""Writes MANIFEST.json (run from /verif: python3 tools/manifest.py)."""
import json, os, sys
sys.path.insert(0, os.getcwd())
from variants import PROPS
TECH = "deterministic simulation with fault injection: seeded search over %s"
WHAT = {
 "C01": "team schedules", "C02": "programs and team schedules", "C03": "histories and team schedules", "C04": "programs with one misuse, and team schedules",
 "C05": "schedules of resident teams", "C06": "configurations, programs and team schedules",
 "C07": "team schedules, layouts and systems", "C08": "team schedules, layouts and systems", "C09": "team schedules, layouts and ranges", "C10": "team schedules, layouts and columns",
 "C11": "schedules of host threads and of an asynchronous device, formulas and layouts",
 "C12": "arrival orders, delays and programs of collectives over simulated ranks", "C13": "programs of splits and traffic over simulated ranks", "C14": "injected MPI failures and arrival orders",
 "C15": "interleavings of logging threads", "C16": "crash points and disk faults", "C17": "disk and allocation faults while writing", "C18": "read and allocation faults and file corruption",
 "C20": "histories with allocation failures", "C21": "interleavings of failing assertions and unwinding", "C22": "histories of trap changes over threads", "C23": "histories of session calls",
 "C24": "suites, interleavings of concurrent tests and ranks, and process and system-call failures", "C25": "histories with allocation failures", "C26": "failing tests over simulated ranks",
 "C27": "histories of edits and configures with disk faults and crashes", "C28": "interleavings of concurrent configures with crashes and network failures",
    "C29": "histories of edits and configures with crashes and failing tools",
}
NOTE = "Samples schedules, inputs and faults from seeds; a quiet run is evidence, not proof. Trusts the compiler, the simulator in sim/ and the harness's reference model."
LATER = "Not claimed yet: the simulation harness for it is still being built."
PURE = "Pure function of its inputs with no schedule, clock, I/O, fault or shared state: nothing for a simulator to decide; input generation alone would be another technique."
NA = {"C30": PURE, "C31": PURE, "C32": PURE + " (Sub-block addresses inside workspaces are covered by C02 and C06.)", "C33": "Evaluated at compile time: no execution to simulate."}
NOTES = {}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": TECH % WHAT[i], "level": "exploration", "level_note": NOTES.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, LATER)})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "EKAT_SIM_GPU_SPACE", "enable": "The GPU harnesses are compiled with -DEKAT_ENABLE_GPU -DEKAT_SIM_GPU_SPACE=simgpu::SimGpu and sim/sim_gpu_space.hpp pre-included, so that EKAT's GPU code paths run on a simulated execution space (variants.py: GPU).",
               "source_commits": ["82283ab"]},
     "checks": checks, "not_applicable": na,
     "notes": "check.py builds the harnesses from /repo's working tree into .build/ (ignored by git) and runs one seeded search process per core. check.py <ID> --replay <file> re-executes a replay file. KNOWN_FINDINGS.txt lists repaired and recorded defects."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
