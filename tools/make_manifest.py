#!/usr/bin/env python3
"""Writes ../MANIFEST.json."""
import json, os
REF = "differential against an independent reference parser (harness/src/ref*.rs)"
checks = {
 "C01": ("generated documents, token runs up to 70,000 repetitions and attribute texts, with step budget and bounded stack",
   "Search. Trusts the step counter (edge callbacks) for termination; deep container nesting is a known finding."),
 "C02": ("generated documents; invariant over the event history (stack machine)", "Search; the oracle is complete for the property."),
 "C03": ("generated documents; content-model grammar as oracle over the event tree", "Search; the grammar in checks/stream.rs is trusted."),
 "C04": ("generated documents; range invariants plus " + REF + " for exact ranges", "Search; ranges of the reference parser are trusted."),
 "C05": ("generated documents; text against source slices plus " + REF, "Search; invariants hold without the reference."),
 "C06": ("generated documents and clone points; metamorphic relation between ways of iterating and between two builds", "Search; compares the code with itself."),
 "C07": ("generated texts; by-construction oracle and " + REF, "Search."),
 "C08": ("generated contents and run lengths; by-construction oracle and " + REF, "Search."),
 "C09": ("generated contents, fences and containers; by-construction oracle and " + REF, "Search."),
 "C10": ("generated delimiter sequences; " + REF, "Search; pairing rules of the reference are trusted."),
 "C11": ("generated punctuation; " + REF, "Search; rules of the reference are trusted."),
 "C12": ("generated definitions, headings and uses; " + REF, "Search; rules of the reference are trusted."),
 "C13": ("generated attribute texts; reference parser of attributes, round trip of values, error position by minimal rejected prefix", "Search."),
 "C14": ("generated operation sequences on attribute collections; model-based", "Search; the model is a list of pairs."),
 "C15": ("generated documents with attributes in all positions; " + REF, "Search; attachment rules of the reference are trusted."),
 "C16": ("generated headings; " + REF + " and invariants on identifiers", "Search."),
 "C17": ("generated lists; " + REF, "Search; compatibility and tightness rules of the reference are trusted."),
 "C18": ("generated description lists; " + REF, "Search."),
 "C19": ("generated tables; " + REF, "Search."),
 "C20": ("generated reference graphs; graph model of the expected endnotes", "Search; reads the rendered HTML with an own tokenizer."),
 "C21": ("generated documents and container stacks; metamorphic relation (wrapping)", "Search; exclusions are listed in DESIGN.md."),
 "C22": ("generated pairs of documents; metamorphic relation (concatenation, blank lines)", "Search; exclusions are listed in DESIGN.md."),
 "C23": ("generated documents; reference renderer (harness/src/htmlmodel.rs), tag balance", "Search; the reference renderer is trusted."),
 "C24": ("generated documents with hostile strings; own HTML tokenizer must recover the original strings", "Search."),
 "C25": ("generated documents and indentations; metamorphic relation between modes via the tokenized output", "Search."),
 "C26": ("generated documents; fault injected at write indices and byte offsets, short writes", "Every write index for short outputs, sampled offsets for longer ones."),
 "C27": ("generated documents, options and faults; the built tool against the library", "Search; runs the real binary on files in a scratch directory."),
 "C28": ("generated documents of blocks; " + REF + ", block events with their starts only", "Search; block rules of the reference are trusted."),
 "C29": ("generated inline atoms and partial forms; " + REF, "Search; rules of the reference are trusted."),
 "C30": ("generated edits to event streams; reference renderer (harness/src/htmlmodel.rs) on the edited tree, in all modes", "Search; the reference renderer is trusted."),
}
m = dict(version=1, setup_cmd="./run.sh build", checks=[], not_applicable=[],
  notes="Known findings and repairs: known-findings.txt. Design: DESIGN.md.")
for i, (t, n) in checks.items():
    m["checks"].append(dict(property=i, quick_cmd=f"./run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
        evidence_file=f"evidence/{i}.json", technique="property-based testing and fuzzing: " + t,
        level="fault_enumeration" if i == "C26" else "exploration", level_note=n))
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
json.dump(m, open(p, "w"), indent=1, ensure_ascii=False)
open(p, "a").write("\n")
