#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("TLC checks bounded instances of the TLA+ specification completely; behaviours of the specification (every transition of its state "
        "graphs is walked) are replayed into the real containers, and long random histories recorded from them are judged by TLC against it. "
        "Bounds: 6-60 single keys plus a crowd of up to 69 632, the hash assignments listed in the evidence, the steps counted there. ")
HASH = "Hashes are programmed by building with a copy of hash/maphash (go build -overlay). Trusted: Go, TLC, the harness's encoding of keys and values. "
N = {
 "C09": "Includes client pointers kept across deletions, and garbage collection under pressure. ",
 "C13": "Callbacks are frames of the specification: calls made inside them, nested callbacks and recovered panics are part of the histories. ",
 "C14": "Readers.tla checks all interleavings of memory accesses of 2 readers (thorough: 3); recorded concurrent reads of the real code, built with the race detector, are judged by TLC. A race is observed on the schedules that ran. ",
 "C15": "Whether an object was released is observed with weak pointers after runtime.GC, and compared with what the specification says is still held. ",
 "C16": "Runs under clobberfree and constant garbage collection, and with checkptr; an access outside the container's memory is seen when it crashes, trips checkptr or changes a result. ",
 "C20": "Heap sizes are measured after garbage collection, for containers of up to 69 632 entries with histories and for new ones; differences below 32 KB + 1/16 are not seen. ",
 "C21": "Mean depths of 500 to 69 632 keys of every form, judged against the interval in Crowd.tla (a chance deviation is below 1e-15). ",
 "C17": "Helpers are called on 21 000 (content, seed, count) triples (thorough: more), judged by HashTrace.tla. ",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [dict(property=i, quick_cmd=f"python3 bin/check.py {i} --tier quick", thorough_cmd=f"python3 bin/check.py {i} --tier thorough",
               technique="TLA+ specification model-checked with TLC; replay of its behaviours into the code and TLC trace validation of recorded histories",
               level="model_checking", level_note=BASE + N.get(i, "") + HASH) for i in ids]
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=[],
         notes="No hooks in /repo: hash control and builds go through go build -overlay. /repo has fix: commits only; see known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
