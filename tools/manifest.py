#!/usr/bin/env python3
# Writes MANIFEST.json. Properties without a check are listed as not applicable (yet).
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
done = sys.argv[1:] or [p["id"] for p in props]
EX = ("stateless model checking of the real code: exhaustive bounded enumeration of {what}, "
      "against a reference model")
WHAT = {
    **{f"C{i:02d}": "sequences of document operations (and map orders)" for i in range(1, 12)},
    "C12": "documents from finite alphabets and scales", "C13": "token and byte sequences",
    "C14": "documents and JSON values from finite alphabets", "C15": "pairs of documents", "C16": "documents and paths",
    "C17": "documents and operation sequences", "C18": "pairs of documents and map orders", "C19": "pairs of documents and map orders",
    "C20": "patches from finite alphabets", "C21": "random answers of the generator (deviations from a base run) and its parameters",
    "C22": "thread interleavings up to a preemption bound", "C23": "histories and query windows of the comparison document",
    "C24": "battery and time sequences of the scenario machine", "C25": "random answers of the simulation (deviations from base runs)",
    "C26": "request sequences and interleavings against the running demo", "C27": "random answers of the generator (deviations from a base run)",
    "C28": "initial documents, recorded changes and experiment runs",
    "C29": "random answers of the simulation (constant answers and deviations from base runs), signal tables and scenarios",
    "C30": "sequences of recordings and saves", "C31": "random answers of the generator, catalogs and orders of calls",
    "C32": "command lines, contents of the file system and options",
    "C33": "document histories and impossible requests",
    "C34": "JSON texts from token, piece and byte alphabets",
}
checks = []
for p in props:
    i = p["id"]
    if i not in done:
        continue
    checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                   "technique": EX.format(what=WHAT[i]), "level": "model_checking",
                   "level_note": "The real code is explored directly; every execution within the bounds reported in the evidence is run. "
                                 "Deeper executions are explored as far as the time goes and are not part of the claim."})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "the check is not built yet"} for p in props if p["id"] not in done],
     "notes": "No hooks are committed in /repo: run.sh instruments a copy of the working tree at build time through go build -overlay."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
