#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below (kept as a script so that it is reviewable)."""
import json, os
MACHINE = "Bounded exhaustive: the real interpreter is driven through every program of the bounds listed in the evidence, in lockstep with a reference machine written from Adobe TN 5177. Trusts that machine (model/t2.rs), which is compared with the code on every trace, and says nothing beyond the bounds."
READER = "Bounded exhaustive: the real readers are run on every input of the bounds listed in the evidence, in lockstep with a reference reader written from Adobe TN 5176. Trusts that reader (model/cff.rs), which is compared with the code on every trace, and says nothing beyond the bounds."
T = {
"C01": ("explicit enumeration of all operand encodings on the real code in lockstep with a reference machine", MACHINE + " Thorough covers the complete 2^32 domain of 16.16 numbers."),
"C02": ("explicit-state exploration of operator sequences to a depth, on the real code in lockstep with a reference machine", MACHINE),
"C03": ("explicit-state exploration of operator sequences to a depth, on the real code in lockstep with a reference machine", MACHINE),
"C04": ("explicit-state exploration of stem and mask histories, on the real code in lockstep with a reference machine", MACHINE),
"C05": ("explicit-state exploration of operator histories, on the real code in lockstep with a reference machine", MACHINE),
"C06": ("exhaustive enumeration of outlinings into subroutines, on the real code in lockstep with a reference machine and the inline program", MACHINE),
"C07": ("exhaustive enumeration of programs up to a length, on the real code in lockstep with a reference machine, with detection of crashes and loops", MACHINE + " A loop is a case without an answer in 20 s."),
"C08": ("exhaustive enumeration of number encodings on the real code against an exact reference decoder", READER + " Decimals are rounded by exact integer arithmetic."),
"C09": ("exhaustive enumeration of dictionaries to a depth, on the real code in lockstep with a reference reader", READER),
"C10": ("exhaustive enumeration of indices within bounds, on the real code in lockstep with a reference reader", READER),
"C11": ("exhaustive enumeration of identifiers and configurations on the real code against the tables of the specification", READER),
"C12": ("complete enumeration of codes and glyphs on the real code against the tables of the specification", "Complete: every 16-bit code or glyph of every predefined table. Trusts the tables typed in from Adobe TN 5176 (model/tables.rs)."),
"C13": ("exhaustive enumeration of character sets within bounds, on the real code in lockstep with a reference reader", READER),
"C14": ("exhaustive enumeration of encodings within bounds, on the real code in lockstep with a reference reader", READER),
"C15": ("exhaustive enumeration of font descriptions and layouts, on the real code in lockstep with a reference reader", READER),
"C16": ("exhaustive enumeration of font descriptions and layouts, on the real code in lockstep with a reference reader", READER),
"C17": ("exhaustive enumeration of corruptions and truncations, on the real code in lockstep with a reference reader, with detection of crashes and loops", READER),
"C18": ("exhaustive enumeration of stream faults and delivery patterns up to a number of deviations, on the real code under a fault injector", "Every call of every subject fails in every way and every pattern of deliveries within the bounds is explored on the real code; the oracle is the undisturbed reading (itself compared with the reference reader) or the error kind injected. Says nothing beyond the bounds."),
"C19": ("exhaustive enumeration of sequences of structures to a depth, on the real code in lockstep with a reference reader", READER),
"C20": ("exhaustive enumeration of extreme fields on the real code with a monitor of the peak of allocated memory", "Every enumerated input is read by the real code under a counting global allocator; the bound monitored is 8 MiB plus 256 bytes per byte delivered. Says nothing beyond the bounds."),
"C21": ("exhaustive enumeration of interleavings of requests under a controlled scheduler, on the real code compared with running alone", MACHINE + " Threads are scheduled at the granularity of requests and of machine instructions."),
}
EXTRA = {}
ids = [json.loads(line)["id"] for line in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
assert sorted(T) == sorted(ids), set(T) ^ set(ids)
manifest = {"version": 1, "setup_cmd": "bash tools/build.sh", "checks": [], "not_applicable": [],
  "notes": "No hooks: the public interface suffices. tools/check.sh rebuilds the explorer (harness/) against /repo's working tree. Repairs and findings: known_findings.txt."}
for id in ids:
    technique, note = T[id]
    manifest["checks"].append({"property": id, "quick_cmd": f"bash tools/check.sh {id} quick", "thorough_cmd": f"bash tools/check.sh {id} thorough",
      "evidence_file": f"evidence/{id}.json", "technique": "model checking: " + technique, "level": "model_checking", "level_note": note})
with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1); f.write("\n")
