#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
REF = "random rule sets and texts against an independent reference interpreter"
T = {
 "C01": ("property-based testing: " + REF + " (verdict)", ""),
 "C02": ("property-based testing: " + REF + " (whole tree, leaves rebuild the text)", ""),
 "C03": ("property-based testing: " + REF + " (repetition bounds, nullable bodies), deterministic work bound for termination", " Not coming to an end is recognised by a count of allocations (a thousand times what such cases need) or, without allocations, by CPU time."),
 "C04": ("property-based testing, metamorphic: order-preserving renaming of characters", ""),
 "C05": ("property-based testing: locations of errors recomputed from position and text", ""),
 "C06": ("property-based testing: " + REF + " (reported failure)", ""),
 "C07": ("property-based testing: " + REF + " (errors raised by the grammar)", ""),
 "C08": ("property-based testing, differential: parse against parse_debug, trace against the reference interpreter", ""),
 "C09": ("stateful property-based testing: histories of new/add/merge/parse against a map model", ""),
 "C10": ("property-based testing: grammars rendered to PEG text in random layouts, read back, compared with the intended grammar", ""),
 "C11": ("property-based testing: literals and classes in every written form against the intended characters", ""),
 "C12": ("property-based testing: valid, corrupted and random PEG texts against an independent hand-written reader", ""),
 "C13": ("property-based differential testing: shipped rules against regenerated rules on generated texts", " Both rule sets are reached through the hook."),
 "C14": ("property-based testing: generated Rust code compiled and run in batches, rules compared with the original", " Cases are chosen from many generated ones for variety, compiled with the installed rustc in edition 2021."),
 "C15": ("property-based testing: random trees against a reference operation and algebraic laws", ""),
 "C16": ("property-based testing: random trees against a reference operation and algebraic laws", ""),
 "C17": ("property-based testing: random trees against a reference operation and algebraic laws", ""),
 "C18": ("property-based testing: random trees against a reference operation and rebuilding (round trip)", ""),
 "C19": ("stateful property-based testing: sequences of helper calls on node lists against a list model", ""),
 "C20": ("stateful property-based testing: sequences of helper calls on flat lists against a list model", ""),
 "C21": ("stateful property-based testing: histories of calls repeated, permuted and from several threads against first results and the reference interpreter", " Threads share the process: interleavings are whatever the scheduler gives, not enumerated."),
 "C22": ("property-based testing: long texts, wide grammars and wide trees on a small stack, against the reference interpreter and reference operations", " The crate is built without optimisation for this check, so that the optimiser does not remove recursion."),
 "C23": ("property-based testing, metamorphic: equivalent rewritings of grammars", ""),
 "C24": ("property-based testing: odd rule sets and Unicode texts, everything returns", ""),
 "C25": ("property-based testing: stacks of errors against a list model of Display", ""),
 "C26": ("property-based testing: the whole pipeline against the composition of the reference reader, interpreter and tree operations", ""),
 "C27": ("property-based testing: macro source text compiled and run in batches, rules compared with the intended ones; macro forms in this crate on random arguments", ""),
 "C28": ("property-based testing: allocations (and CPU time for large inputs) of each call against the steps of the reference interpreter or the size of the input", " The constants are 7 to 30 times what the tree needs: a slowdown by a constant factor below that is not noticed."),
}
LEVEL = "Generated-input search with an explicit oracle, a fixed number of cases per tier from VERIF_SEED, failures shrunk to a replay file. Shows presence of violations, not absence. Trusts the reference model in harness/src (independent of the crate)."
m = {
 "version": 1,
 "setup_cmd": "./run.sh build",
 "hooks": {"guard": "--cfg dynparser_verif", "enable": "RUSTFLAGS=\"--cfg dynparser_verif\" cargo build (run.sh does it for the harness, which depends on /repo by path)", "source_commits": ["955105a958f9a69d59517ad0843193f542ade554"]},
 "checks": [
  {"property": k, "quick_cmd": f"./run.sh {k} --tier quick", "thorough_cmd": f"./run.sh {k} --tier thorough", "technique": t, "level": "exploration", "level_note": LEVEL + n}
  for k, (t, n) in T.items()],
 "not_applicable": [],
 "notes": "known_findings.txt lists what was found and repaired. tools/mkprops.py and tools/mkmanifest.py write properties.jsonl and this file.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
