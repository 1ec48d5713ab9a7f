#!/usr/bin/env python3
"""Writes MANIFEST.json from what is listed here."""
import json, os
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
checks = {
 "C01": (T + "seeded hard faults (open/read errno, lost allocations, bad UTF-8) at chosen system calls of the real schema loader under an in-process libc seam",
         "Seeded search, not exhaustive. Trusts the interposed open/read/close/fstat/... seam to be the loader's only I/O; a run where a call bypasses it would be noticed as a fault that did not fire."),
 "C02": (T + "seeded short reads, EINTR and false size information in every file's load, compared with an undisturbed load of the same schema",
         "Seeded search. The undisturbed load by the same code is the oracle, so it shows independence of the disturbances, not correctness of the load itself."),
 "C03": (T + "seeded histories of compiles with failing, panicking and repaired storage on one compiler, each step compared with a fresh compiler",
         "Seeded search over histories of up to a dozen compiles. The oracle is a fresh compiler of the same code."),
 "C04": (T + "a simulated disk on which files are replaced at seeded points of the load schedule; what was compiled must be one snapshot",
         "Seeded search. Snapshot equality is decided by recompiling the recorded texts with the same code."),
 "C05": (T + "seeded graphs of files (cyclic and acyclic) on a simulated disk; reference graph computed by the generator",
         "Seeded search over graphs of up to 14 files. Which references exist is known from generation, not parsed back."),
 "C06": (T + "one seeded error (storage fault, damage or mistake) at a known place of a random multi-file schema; reported places and chain compared with the reference graph",
         "Seeded search. Lines and files are compared, columns are not; the chain is read from the error when its positions agree with the rendered diagnostic, else only from the rendered diagnostic."),
 "C07": (T + "seeded torn, lost, duplicated, swapped, stale and flipped blocks in any file of a schema on the simulated disk; a step budget (allocations) decides hangs",
         "Seeded search. Judges panics, hangs, memory and readable diagnostics, not which damage ought to be rejected. Panics that the datatype code documents as missing features are exempt."),
 "C08": (T + "seeded truncation and block damage of documents in flight to a session; an independent XML parser decides what is still well-formed",
         "Seeded search. roxmltree is the oracle for well-formedness; whether a well-formed damaged document is valid is not judged (except when only the end after the root was cut)."),
 "C09": (T + "seeded damage to documents, sessions continued past errors, with step budgets; every diagnostic rendered and its places checked against the damaged text",
         "Seeded search. Places are checked to lie in the document, on character boundaries, and at a construct that fits the error."),
 "C10": (T + "the same work under other seeds for the intercepted getrandom, other heap layouts, threads and earlier work",
         "Seeded search. Relations between executions of the same code: constant wrong answers are not seen."),
 "C11": (T + "a seeded turn scheduler for sessions, compiles and drops on several threads and inside storage callbacks; histories compared with the same work alone in a forked process",
         "Seeded search. Threads take turns at API calls and storage callbacks; there is no preemption inside a call, and the types are not Send."),
 "C12": (T + "long seeded streams of records with rebound prefixes and one bad record; a counting allocator watches live memory over identical rounds",
         "Seeded search. Which record is bad is known from generation; memory is compared between eighths of the stream, with 1 KiB of slack."),
 "C13": (T + "the real rng process under a preloaded libc seam: seeded hard and benign I/O faults on every file of the run and on standard error",
         "Seeded search. Which file is at fault is known from generation and from the log of faults that took effect."),
 "C14": (T + "the same document with its character data cut into other pieces (CDATA, comments, references, entities) by a seeded rewriter",
         "Seeded search. roxmltree confirms that the content is the same; validity is known from generation for most documents."),
}
na = {
 "C15": "A pure function from schema and document to a verdict: no scheduling, time, I/O or fault changes it, so simulation has nothing to schedule; deciding it needs an independent RELAX NG implementation or proof.",
 "C16": "A pure function of the schema text; no nondeterminism or fault takes part. (Restrictions that the compiler does not implement would be many findings of conformance, not of robustness.)",
 "C17": "A pure relation between two texts; deciding it needs a translator between the syntaxes and no schedule or fault takes part.",
 "C18": "Pure functions from strings to booleans; no schedule, clock, I/O or fault takes part.",
 "C19": "Worst-case cost is a property of the algorithm on adversarial inputs, without schedule or fault; simulation steps could only sample it. (Bounded steps under damage are part of C07 and C09.)",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(home, "properties.jsonl"))]
for i in ids:
    if i not in checks and i not in na:
        na[i] = "No check has been built yet."
m = {
 "version": 1,
 "setup_cmd": "bin/build",
 "checks": [{"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"bin/check {i} --tier thorough",
             "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n}
            for i, (t, n) in sorted(checks.items())],
 "not_applicable": [{"property": i, "reason": r} for i, r in sorted(na.items())],
 "notes": "No hooks in /repo: the code's own seams (the Files trait, FsFiles over libc, the tokenizer) and libc interposition suffice. All changes to /repo are fix: commits (known-findings.txt).",
}
json.dump(m, open(os.path.join(home, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(home, "MANIFEST.json"), "a").write("\n")
