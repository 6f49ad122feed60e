#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = "reference-model monitor over generated executions of the library"
CLI = "reference-model monitor over generated runs of the pica program"
T = {
 "C01": ("independent decoder run next to the library on generated, mutated and all neighbouring byte strings", None),
 "C02": ("stream-history checker: injected chunkings, interruptions, read faults and damaged gzip members; every result compared with the lines", None),
 "C03": ("write-history checker: faulty sinks (short writes, interrupts, failure at a random byte) and append histories, read back and compared", None),
 "C04": ("independent recogniser and evaluator compared on whole tag, occurrence and code domains", "The tag, occurrence and code domains are covered completely for every pattern tried; the patterns are generated."),
 "C05": (LIB, None), "C06": (LIB, None), "C07": (LIB, None), "C08": (LIB, None), "C09": (LIB, None),
 "C10": ("parse-history monitor (repetition, fresh threads, failed parses before) with round trips and a reference evaluation", None),
 "C11": (LIB + ", partly from several threads", None),
 "C12": (LIB + " after random reduction histories", None),
 "C13": (CLI, None), "C14": (CLI, None), "C15": (CLI, None), "C16": (CLI + " (whole scratch tree compared)", None),
 "C17": (CLI + " and concatenation of adjacent slices", None),
 "C18": ("offline checker of sampled runs (conservation, distinctness, reproducibility, coverage of positions over seeds)", "A weak statistical statement only: that every position is selected by some seed."),
 "C19": (CLI, None), "C20": (CLI + ", tables read by an independent CSV reader", None),
 "C21": (CLI + ", tables read by an independent CSV reader", None),
 "C22": (CLI, None), "C23": (CLI + ", tables read back from CSV, TSV and Arrow", None),
 "C24": ("round-trip monitor with an independent decoder per format", None),
 "C25": (CLI, None), "C26": (CLI + " and permutations of the input", None),
 "C27": ("differential monitor: runs with and without invalid lines; grammar oracle for `invalid`", None),
 "C28": (CLI + " with SHA-256 computed by the harness", None), "C29": (CLI, None),
 "C30": (CLI + "; config-file histories checked against a model", None),
 "C31": ("differential monitor: a selection against a run on the records the model selects; list files read in all formats", None),
 "C32": ("fault injection (file size limits, full devices, unwritable places, closed pipes) with completeness oracle on the outputs", None),
 "C33": ("crash, hang and exit-status monitor over hostile bytes, expressions, options and files", None),
 "C34": ("reference-model monitor over generated pieces and near-equal pairs; serialisation round trips", None),
 "C35": ("differential monitor: the same lines delivered in two ways; the terminal is recorded and its last count compared", None),
 "C37": ("resource and timing monitor: peak memory and processor time of runs on growing inputs, output and end watched while the input stays open", None),
 "C38": ("differential monitor over spellings of the same command line; table of the documented options as oracle for rejections, help and completions", None),
 "C36": ("file-system snapshot monitor around normal, failing and concurrent runs", None),
}
checks = []
for p, (tech, note) in sorted(T.items()):
    base = ("Held on the executions listed in the evidence file (generated from VERIF_SEED), nothing beyond them. "
            "Trusts the harness's own model of the documented behaviour")
    base += ", which uses only the library's public API." if p <= "C12" or p == "C34" else " and of the program's command line; the program is observed from outside only."
    checks.append(dict(
        property=p,
        quick_cmd=f"bin/check {p} quick",
        thorough_cmd=f"bin/check {p} thorough",
        technique=tech,
        level="fault_enumeration" if p == "C32" else "exploration",
        level_note=(note + " " if note else "") + base))
m = dict(version=1, setup_cmd="bin/setup.sh", checks=checks, not_applicable=[],
         notes="No hooks in /repo: every property is observable through the library's public API or the program. See DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
