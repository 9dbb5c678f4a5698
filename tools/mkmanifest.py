#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
model = "property-based testing against a reference model of the retained prefixes and suffix bits, with shrinking"
T = {
 "C01": model, "C02": model, "C03": model + "; statistical bound for hash bits", "C04": model + "; metamorphic widening of intervals",
 "C05": model, "C06": model, "C07": "stateful property-based testing of iterator histories against the sorted key list", "C08": model, "C09": model,
 "C10": "round-trip property-based testing: transcripts before and after serialisation", "C11": "differential property-based testing across size ratios and encodings",
 "C12": "metamorphic property-based testing: repeated, reordered and alternative constructions give equal bytes",
 "C13": "property-based fuzzing of operation programs under ASan, UBSan, memcheck and a junk-filling heap run twice over different contents",
 "C14": "property-based testing of life cycles with heap accounting", "C15": "property-based testing of multi-threaded programs under ThreadSanitizer against single-thread answers",
 "C16": "stateful property-based testing: histories over several filters and iterators against fresh filters",
 "C17": "property-based testing against a bit-by-bit scan", "C18": "property-based testing against a bit-by-bit scan", "C19": "property-based testing against a linear reference search, all 256 bytes per node",
 "C20": "property-based testing against bit extraction from the keys", "C21": "property-based testing: round trip, order and integer queries against a sorted list",
 "C22": "property-based testing: the built encoding is decoded and compared with the model trie",
 "C23": "property-based testing against the reference model and an equal filter; statistical bound for Bloom",
 "C24": "property-based testing of generated workload files and arguments with an independent recount", "C26": "property-based testing with counted branch edges against bounds per level", "C25": "property-based testing with heap measurement against the model trie's size",
}
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd="python3 tools/run_check.py " + i + " --tier quick", thorough_cmd="python3 tools/run_check.py " + i + " --tier thorough",
        technique=T[i], level="exploration",
        level_note="Generated search, not a proof: failing cases are shrunk and replayed; see DESIGN.md for the generators, the oracle and the bounds."))
m = dict(version=1, setup_cmd="python3 tools/run_check.py --setup",
    hooks=dict(guard="none", enable="no hooks: the checks compile /repo's headers and programs as they are", source_commits=[]),
    checks=checks, not_applicable=[],
    notes="Each check compiles its harness with /repo/include (and /repo/bench) in several builds, replays the committed reproductions under regressions/, then searches generated cases. Evidence counts are measured by the run.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
