#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (run by hand after changing either)."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
TECH = {
    "C01": "bounded exhaustive enumeration of texts on the real parser against a reference recogniser",
    "C02": "bounded exhaustive enumeration of documents on the real code, read back against a reference parser",
    "C03": "explicit-state exploration of edit histories with model conformance; serialisation compared on every state",
    "C04": "explicit-state exploration of histories ending in every failing operation, model conformance",
    "C05": "explicit-state model checking: all operation sequences to a depth, model and implementation in lock step",
    "C06": "explicit-state exploration of copy-then-edit histories, incl. release of either allocator, model conformance",
    "C07": "explicit-state exploration of move and delete histories, model conformance and probes",
    "C08": "exhaustive enumeration of bytes, escapes and surrogate pairs on the real code",
    "C09": "bounded exhaustive enumeration of setter arguments on the real code against a reference recogniser",
    "C10": "bounded exhaustive enumeration of literals and argument ranges on the real code",
    "C11": "bounded exhaustive exploration under a memory monitor (arena with canaries, guard pages, ASan, MSan)",
    "C12": "explicit-state exploration of histories with retained results and overwritten caller buffers",
    "C13": "exhaustive interleaving of API steps, and controlled two-thread scheduling (preemption bound 2, partial-order reduction) on the real code",
    "C14": "exhaustive exploration repeated on every build configuration, model conformance",
    "C15": "exhaustive exploration repeated on every API surface, model conformance",
    "C16": "bounded exhaustive enumeration of key sets, queries and edit histories on the real code",
    "C17": "enumeration of sizes and depths up to the stated bounds on the real code, 8 MB stack",
    "C18": "explicit-state exploration driving the Go binding in lock step with the document model",
    "C19": "explicit-state exploration and text enumeration on the beta header, model conformance, ASan and MSan",
    "C21": "explicit-state exploration of operation pairs on growing documents, counting basic blocks of the real code and system allocations",
    "C20": "explicit-state exploration with every getter on every handle in every state",
}
NOTE = {
    "C13": "Complete for the stated script pairs: all step interleavings; for threads every schedule (no shared memory is touched on this tree, so one execution represents all). Trusts the compiler's access instrumentation.",
    "C14": "Complete for the compact case set on each configuration listed in the evidence (quick: 17, thorough: about 240).",
    "C21": "Every pair of operations (second one measured) at several sizes; the work at small sizes fixes the cost per unit, at large sizes four times that is allowed. Asymptotic statement only. Trusts the compiler's coverage instrumentation.",
    "C17": "Sizes are enumerated around powers of two and at large values; sizes in between are not all visited.",
}
DEF = "Every case within the bounds named under coverage.families is executed on the code built from /repo and compared with an independent reference; outside those bounds nothing is claimed. Trusts the reference model, compilers and libc."
checks = []
for l in open(os.path.join(D, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --thorough", technique="model checking: " + TECH[p],
                       level="model_checking", level_note=NOTE.get(p, DEF)))
m = dict(version=1, setup_cmd="python3 -c \"import shutil,sys; sys.exit(0 if all(shutil.which(x) for x in ('gcc','g++','clang','clang++','go')) else 1)\"",
         checks=checks, not_applicable=[], notes="Each check compiles the explorer and the library from /repo's working tree into a scratch directory of its own and removes it. No hooks in /repo.")
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
