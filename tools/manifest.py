#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below (run by hand when a check is added)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
BASE = "Seeded exploration, not proof: holds on every simulated run of this seed. "
NOTES = {
 "C16": "Trusts the contents model in scn/equal.rs. Elements whose equality, order and hash agree.",
 "C19": "Cost is counted in comparisons, clones, calls and allocations; moves of elements are not seen. The bounds carry constants two to three times those measured.",
 "C18": "Trusts the map model in scn/tree.rs. Sequentially consistent memory only. Destructors do not panic.",
 "C17": "Caller code and source iterators allocate nothing themselves and announce no more elements than they yield. While the heap is exhausted no panic is injected, because unwinding allocates.",
 "C01": "Trusts the set model in scn/sets.rs and the instrumented element/allocator. Assumes element destructors do not panic.",
 "C02": "Trusts the map model in scn/maps.rs and the instrumented key/value/allocator. Assumes destructors do not panic.",
 "C03": "Trusts the element-list model in scn/stream.rs and the thread scheduler of the simulator. Under a comparison that lies only memory safety is judged.",
 "C04": "Trusts the model in scn/serde_.rs and its transport format; the serde traits are exercised through the simulator's own format, not through a text format.",
 "C05": "rkyv 0.7.25 and bytecheck 0.6.7 run for real. Elements of fixed size or with one out-of-line part; rkyv's own string and pair-of-out-of-line types are left out because rkyv rejects or misreads them by itself.",
 "C06": "rkyv 0.7.25 and bytecheck 0.6.7 run for real. Accepted trees are walked up to 3000 nodes; what does not fit is looked at partially.",
 "C07": "rkyv 0.7.25 runs for real. An interrupted deserialize leaks inside rkyv itself, so leaks are judged for archiving and for From<&Archived> only.",
 "C08": "Trusts the simulated disk and the commit protocol of the simulated application (checksummed frames, sync before commit).",
 "C09": "Reached subtrees are those under an edge that a key of the operand continues into; bytes are bounded from the sizes of the new nodes.",
 "C10": "Trusts the map model in scn/tree.rs. Sequentially consistent memory only.",
 "C11": "Trusts the map model in scn/tree.rs. Structural equality of plain trees after an interrupted in-place operation is not judged. Destructors do not panic.",
 "C12": "Interleavings at lock operations, allocations, caller code and (in part of the runs) single instructions; sequentially consistent memory only.",
 "C14": "Trusts the state model in scn/replica.rs, the simulated network and disks, and the replica program around the collections. Messages that arrive are intact.",
 "C15": "Trusts the map model in scn/tree.rs, the simulated network and disks, and the source and follower programs. Messages that arrive are intact.",
 "C13": "What is loaded is seen through copies of archived values and through all_arcs.",
}
TECH = "deterministic simulation with fault injection: seeded search over histories and faults, checked against a reference model; minimised exact replay"
NA = {
}
built = os.environ.get("BUILT", "").split() or list(NOTES)
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
          "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "exploration", "level_note": BASE + NOTES[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "Check not built yet.")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks were needed in /repo: every seam (element types, callbacks, allocator, serialisers, archive bytes, locks) is public API, a trait or a libc symbol. Replay a violation with: bash replay.sh FILE"}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
