#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
special = {
 "C01": ("hostile workload on the real build (overflow checks on) with panic/abort/CPU-time/allocation monitors; AddressSanitizer build in the thorough tier", None),
 "C25": ("ThreadSanitizer build of the concurrent workload + online checker of concurrent answers against sequential ones, with deadlock watchdog and injected start orders", None),
 "C26": ("differential monitor of call histories against fresh instances + counting allocator over phases of novel calls", None),
 "C28": ("monitor of the real generator (run once per document, from its own main) over shipped, recombined and synthetic plan documents; its output is decoded and compared with an independent derivation from the document", None),
 "C29": ("monitor of the real generator over spoilt documents, malformed commands and injected output faults: exit status and output file against an independent judge of the document", None),
 "C31": ("generated plan collections given to the real library through a guarded hook, watched by the monitors of C02-C24 against the executable reference over the same collection", None),
 "C32": ("runtime monitor of the plan enquiries (through guarded hooks), over the shipped plans and generated ones, against the plan document", None),
 "C33": ("runtime monitor of formatting by generated caller formats (through guarded hooks) against the executable reference, over the shipped plans and generated ones", None),
 "C34": ("runtime monitor of text matching (through guarded hooks) against the executable reference and against the match of the parsed numbers", None),
 "C35": ("runtime monitor of the text reductions (through guarded hooks), over all Unicode characters and generated texts, against the executable reference", None),
 "C30": ("runtime monitor of storing and reading messages against a hand-written reader and writer of the published wire format", None),
 "C27": ("field-by-field monitor of the compiled table as decoded by the real loader, and of the behaviour it causes, against an independent reader of the published XML", None),
}
checks = []
for p in props:
    t = special.get(p["id"], ("runtime monitor at the public API: generated and hostile workloads on the real build, judged online by relations and an independent executable reference of the published algorithm and metadata", None))[0]
    checks.append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
      "evidence_file": f"evidence/{p['id']}.json", "technique": t, "level": "exploration",
      "level_note": "held on every execution observed in the run (counts in the evidence file); nothing is claimed beyond them"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
 "hooks": {"guard": "--cfg rlibphonenumber_verif (plans to be given) and --cfg rlibphonenumber_verif_ops (crate-private operations)",
  "enable": "check.sh builds the monitor of C31 with RUSTFLAGS='--cfg rlibphonenumber_verif', those of C32-C35 with both; every other check builds without",
  "source_commits": ["8965af1"]}}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
