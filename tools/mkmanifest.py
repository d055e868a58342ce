#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: real program threads and files under a seeded scheduler, simulated disk, clock and randomness; "
CLAIMED = {
 "C01": ("oracle: conservation and identity over the recorded history", "Sampled schedules and samples; real resampling code, rayon pool and locks; weak memory ordering not explored."),
 "C02": ("oracle: linearisation of the recorded cells against a sequential averaging model", "Sampled schedules; the linearisation search is capped (counted in probes), snapshots of all weights at every observation prune it."),
 "C03": ("oracle: brute-force neighbour ranking of every recorded cell", "Sampled schedules and metrics; early and late stopping is judged only where concurrent weight updates leave no ambiguity (counted in probes)."),
 "C04": ("oracle: sequential reference algorithm; equality across schedules and neighbour searches", "Sampled inputs and schedules with one worker; comparisons away from floating-point ties."),
 "C06": ("oracle: strict comparison of every output with the generated input and an independent reference pipeline for the weights", "Sampled inputs, options and schedules; weights are predicted where events form well-separated groups or one worker runs, otherwise sums and bounds are checked."),
 "C07": ("oracle: outputs decoded with reference decoders and compared with the input; write, open, mkdir faults and full disks at chosen operations", "Sampled fault points and sequences; faults of close and fsync are not injected because the program ignores close errors by design of std."),
 "C08": ("oracle: exit status and outputs compared with the fault-free run; read and open faults, truncated, cut and malformed inputs", "Sampled fault points; the end of lz4 input is a known finding."),
 "C09": ("oracle: inputs byte for byte unchanged, rerun after a crash equals an uninterrupted run", "Sampled crash points with torn and lost writes, and colliding paths."),
 "C10": ("oracle: weight sums and keep/promote/discard rules on the written weights and on the library result", "Sampled random streams, thresholds and runs."),
 "C11": ("oracle: byte equality of the outputs of pairs of runs differing in every simulated source of nondeterminism", "Sampled pairs."),
 "C12": ("oracle: equality of partitions between thread counts and schedules; median and membership conditions of every bisection", "Sampled inputs and schedules; parallel construction (1000 points and more) with synthetic metrics in process."),
 "C13": ("oracle: region files parsed and compared with the inputs, regions from an independent distance; read, write and open faults at chosen operations", "Sampled inputs and fault points; the STRIPPER XML structure is checked for balanced tags."),
 "C14": ("oracle: return codes, message buffers and outputs of every call in histories of calls from several threads, compared with the reference pipeline", "Sampled histories, schedules and faults; only the outermost error message is judged, as the interface promises no more."),
 "C15": ("oracle: every view passed to the callback compared with the clustered events, outputs compared with the reference pipeline", "Sampled; weights seen by the callback are compared with the set of values they may have where predictable."),
 "C16": ("oracle: sequential reference cells; kept and shown cells against the true largest", "Sampled distributions of cells over workers; uniformity of the random selection is not judged."),
 "C17": ("oracle: list model of the records, checked call by call, outputs compared after complete updates; read, open and write faults within the histories", "Sampled histories and faults; what the interface calls misuse (adding updates after a finished file was left unread) is not judged."),
 "C18": ("oracle: log level after every call; messages of pairs of runs with and without progress display, healthy and with faults, compared", "Sampled; messages are compared for single-threaded runs."),
 "C05": ("oracle: no deadlock, bounded steps to completion once faults stop", "Deadlock is detected exactly (all simulated threads blocked); livelock as exceeding a step budget far above normal."),
}
NA = {
 "N01": "a pure function of two events: no schedule, clock, fault or interleaving takes part, so simulation has nothing to decide",
 "N02": "a pure function of one event (clustering is done by the jetty crate): no schedule, clock, fault or interleaving takes part",
 "N03": "the ntuple feature needs the ROOT library, which is not installed here; the code cannot be built or run",
}
PROPS = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in CLAIMED:
        t, note = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i} quick", "thorough_cmd": f"python3 tools/check.py {i} thorough",
                       "technique": TECH + t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are the system-call layer (interposed libc functions) and compiler-inserted code-edge callbacks, both added at build time in /verif/sim. Replay a violation with: python3 tools/replay.py <replay file>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
