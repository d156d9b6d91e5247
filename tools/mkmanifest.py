#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vp import checks

TLA = "TLA+ specification: TLC model checking and TLC trace validation of the real code"
NOTES = {
    "C01": "constructor histories (TLC tour + seeded contents) on 90 array types; every observation equals the ArraySpec sequence",
    "C02": "reads judged against each other at every observation, iterator programs judged step by step against ArraySpec!CursorStep",
    "C03": "histories enumerated by TLC over the physical model plus seeded random ones, each step an ArraySpec action",
    "C04": "panicking sources at every item position incl. either side of the 1024-item batches; step must be ArraySpec!AppendPrefix",
    "C05": "memory refused at every allocation point in turn and capacities to usize::MAX; an error must be ArraySpec!Refuse and justified",
    "C06": "WellFormed/Decode of the Arrow rules evaluated by TLC on every dumped buffer set along the histories",
    "C07": "RawParts!RawErrs decides acceptance and truthful errors for generated and exhaustive small raw parts",
    "C08": "validity answers compared with the null pattern of the items for windows, paddings and histories",
    "C09": "bitmap windows at every offset 0..17: ArraySpec plus an unchanged-prefix frame condition",
    "C10": "the same parts over growable, boxed, Rc, Arc, slice, array and caller-supplied storage judged by one specification; storage identity",
    "C11": "allocator handle of every buffer at every level compared with the one supplied, along histories",
    "C12": "11 kinds of legal hints and sources that yield after their end; the result must be ArraySpec!AppendAll of the items before the end",
    "C13": "exported C structures dumped field by field and decoded by the specification's Arrow rules",
    "C14": "lifetime state machine of exported structures; TLC-enumerated move/release/drop orders replayed with byte and allocation accounting",
    "C15": "export outcome as a function of the bit offsets in the dumped representation; allocation accounting on refusal",
    "C16": "import decision specification over descriptions of foreign structures; single and combined defects at every depth",
    "C17": "export/import round trips judged against the items, validity answers and buffer addresses of the source",
    "C18": "growth requests counted by caller-supplied storage against Room/Within of the specification",
    "C19": "row comparisons judged as equality of items against near-miss candidates; histories over an original and its copy, each judged by its own ArraySpec sequence",
}
COMMON = (" Assumes the harness's dump and item encoding; contents are sampled, histories are bounded. Trusts TLC.")

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
claimed = checks.claimed()
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py check {p['id']}",
                 "thorough_cmd": f"python3 run.py check {p['id']} --tier thorough",
                 "technique": TLA, "level": "model_checking", "level_note": NOTES[p["id"]] + "." + COMMON}
                for p in props if p["id"] in claimed],
     "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in claimed],
     "notes": "The hooks expose export and import of bare layouts, so that 64-bit offset lists (which no array type uses) are reached; "
              "everything else goes through public API. Replay a violation with: python3 run.py replay <path>."}
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], stdout=subprocess.PIPE, text=True).stdout.split()
m["hooks"] = {"guard": "cfg(narrow_verif)", "enable": "RUSTFLAGS='--cfg narrow_verif' cargo build (vp/core.py)", "source_commits": hook}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
