#!/usr/bin/env python3
"""Writes MANIFEST.json (run in /verif)."""
import json
T = "deterministic simulation: "
notes = {
 "C01": (T+"seeded scheduler interleaves real concurrent calls, result-table oracle", "Every result of a simulated concurrent run equals the result of the same call alone in a fresh process, over seeded schedules that pre-empt between single statements. Samples schedules and inputs; does not enumerate them."),
 "C02": (T+"seeded scheduler with the race detector blinded to the simulator's own hand-overs", "No unsynchronised conflicting access in any simulated run; the detector sees only the library's own synchronisation. Sampled schedules; accesses inside the Go runtime and cgo are not seen."),
 "C03": (T+"long seeded call histories with failing calls, fresh-process reference", "Every call of long random histories equals the call in a fresh process. Sampled histories."),
 "C04": (T+"recorded concurrent histories checked for linearizability against a sequential model", "Every recorded history of calls with and without TryPreviousLocales has a sequential explanation under a small model of the preference list."),
 "C05": (T+"process restarts with permuted map iteration orders, result tables compared", "The same calls return the same in processes whose map orders (at initialisation and in calls) are permuted by the simulator. Maps ranged over inside the standard library are not permuted."),
 "C06": (T+"simulated clock that ticks, jumps and rolls over during calls, frozen-clock oracle", "Every result under a moving clock equals the result under a clock frozen at one instant it showed during the call."),
 "C07": (T+"injected callback faults (panic, goroutine exit, stall, garbage, re-entry), result-table oracle", "All other calls return what they return without the fault; the fault reaches its caller unchanged."),
 "C08": (T+"hostile inputs, clocks and stalled callbacks under step budgets and deadlock detection", "Every simulated call ends within a step bound derived from its input, without a panic of its own, and is never held up by a call on another parser. The bound is generous: 50-100 times the usual work."),
 "C09": (T+"callers that share, snapshot and overwrite their data between and during interleaved calls", "Caller-owned data is compared before and after every call; overwriting it afterwards never changes another result."),
 "C10": (T+"simulated clock at delicate instants, independent calendar model", "Every relative or incomplete date of the generated grammar denotes what a calendar model of its own says at the simulated instant. Wall clocks that a zone skips or repeats are not judged."),
 "C11": (T+"long seeded histories with failing callbacks, live heap measured after forced collections", "Live heap and goroutines stay flat over hundreds of calls with ever-new strings and configurations; leaks below 2000 bytes per history are not seen."),
 "C12": (T+"host time zone changed between processes and runs, result tables compared", "The same calls return the same under every simulated local zone and clock position."),
}
na = {}
for l in open('properties.jsonl'):
    p = json.loads(l)
    if p['id'] not in notes:
        na[p['id']] = "pure function of the input: no schedule, clock, fault, restart or history takes part in it, so there is nothing for the simulator to decide"
extra = {
 "C27": "compares two builds on the same pure inputs; no nondeterminism of either build takes part, so simulation adds nothing to running both test suites",
}
na.update({k: v for k, v in extra.items() if k in na})
m = {"version": 1, "setup_cmd": "./run.sh setup",
 "hooks": {"guard": "none", "enable": "nothing is committed to /repo: every check copies /repo's current sources through an instrumenter into a go build overlay in a temporary directory", "source_commits": []},
 "checks": [{"property": k, "quick_cmd": f"./run.sh check {k}", "thorough_cmd": f"./run.sh check {k}",
   "evidence_file": f"evidence/{k}.json", "technique": t, "level": "exploration", "level_note": n} for k, (t, n) in notes.items()],
 "not_applicable": [{"property": k, "reason": r} for k, r in na.items()],
 "notes": "A violation prints the replay file; ./run.sh replay FILE executes it again. ./run.sh selftest checks that a seed is one execution."}
json.dump(m, open('MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open('MANIFEST.json', 'a').write('\n')
