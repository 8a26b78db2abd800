#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and run.py's CHECKS."""
import importlib.util, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("run", V + "/run.py"); run = importlib.util.module_from_spec(spec); spec.loader.exec_module(run)
SIM = ("stateful property-based testing: random cluster histories over real raft_server objects with simulated network, clock, storage and threads, judged by history monitors; shrinking, replay",
       "Holds on every generated history (thousands quick, hundreds of thousands thorough); trusts the simulated log store, state machine, clock and message network, handler calls being atomic at message granularity except where the apply thread and storage operations are interleaved.")
TECH = {
 "C13": (SIM[0] + "; with add/remove server requests", SIM[1]),
 "C16": ("model-based property testing: random fs_log_store operation sequences against a list model", "Every generated sequence agreed with the model under ASan/UBSan; bounded sequence lengths and payload sizes; trusts the file system."),
 "C17": ("model-based property testing with reopen and file-copy after random operations", "As C16, plus the persisted files; a copy models a process crash after a completed operation, not power loss."),
 "C18": ("property testing of pack/apply_pack round trips against a list model", "Every generated pair of stores agreed with the model."),
 "C19": ("randomised concurrent histories of a writer and readers against an exact per-index oracle, with injected delays", "Real threads under ASan: schedules are sampled, not enumerated."),
 "C20": ("model-based property testing of buffer operations against a byte-array model under ASan/UBSan", "Every generated sequence agreed with the model."),
 "C21": ("round-trip and truncation property testing of all codecs under ASan/UBSan", "Every generated value round-tripped; truncations enumerated for every generated value."),
 "C22": ("property testing of request/response round trips over real loopback TCP with generated faults", "Every generated exchange; real asio, loopback sockets, OS schedules sampled."),
 "C23": ("structured fuzzing of a listening server's socket with mutated frames, oracle: only well-formed requests handled, service stays available, sanitizers quiet", "Every generated byte stream and fragmentation."),
 "C24": ("stateful property testing of schedule/reschedule/cancel sequences against a timing model", "Real time with tolerant bounds: lateness judged with generous slack, earliness exactly."),
 "C25": ("property testing of generated logging workloads against the expected file contents; generated stop timings", "OS schedules sampled."),
 "C26": ("randomised thread-schedule exploration of set/register/get with a controlled scheduler, exactly-once oracle", "Schedules at synchronisation-operation granularity, sampled and enumerated for small cases."),
 "C32": ("model-based property testing of fs_log_store with injected file system faults during compaction, against a list model", "Every generated store and single failing system call; trusts that the injected failures are the ones a file system makes."),
 "C33": ("randomised schedule exploration of multi-threaded programs over one real raft_server with a controlled scheduler; invariants over the history", "Schedules with pre-emption at synchronisation operations and chosen memory accesses, sampled; peers are scripted."),
 "C27": ("randomised schedule exploration of destruction against the apply thread with a controlled scheduler", "Schedules at synchronisation-operation granularity."),
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in run.CHECKS:
        t = TECH.get(i, SIM)
        checks.append(dict(property=i, quick_cmd="./run.py " + i, thorough_cmd="VERIF_TIER=thorough ./run.py " + i,
                           evidence_file="evidence/%s.json" % i, technique=t[0], level="exploration", level_note=t[1]))
    else:
        na.append(dict(property=i, reason="its check is not built yet"))
json.dump(dict(version=1, setup_cmd="./run.py --build-all", checks=checks, not_applicable=na,
               notes="No hooks in /repo: harnesses compile /repo's sources unchanged with stand-ins for time, threads, network and storage. Replay: ./run.py <ID> --replay <file> [-v]."),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
