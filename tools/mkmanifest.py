#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Seeded sample, not a proof. Real: the seam command and library exactly as /repo builds them, their dependencies and the Rust runtime. "
         "Simulated: the C library's file, directory, clock, randomness, memory, signal-interruption and thread calls (sim/libsim.c). Trusted: the simulator, the reference model of driver/src/model and the kernel's pipes. ")
C = {
 "C01": ("seeded runs of one build under different hash seeds, heap layouts and reuse, listing orders and read sizes, compared byte for byte, with poisoned freed memory",
         "No source of nondeterminism the simulator controls changed a byte of any sampled build, and no released memory reached the output."),
 "C02": ("seeded read segmentation, interrupted and failing reads on standard input, files and a caller's reader, against the unsegmented build",
         "Every sampled segmentation and placement of interruptions gave the same result; every sampled hard read error gave a clean failure."),
 "C03": ("seeded persistent open, read, stat and directory faults and invalid UTF-8 on the files a build needs, judged by a reference model",
         "Every sampled unreadable input the model says is needed failed the build with a diagnostic and no output for that document."),
 "C04": ("seeded short, interrupted and failing writes on standard output, with a prefix check against the fault-free run",
         "Every sampled write history kept the prefix property and status 0 only with everything delivered."),
 "C05": ("seeded file trees and per-candidate faults; successful-open history and output against a reference model of the search order",
         "For every sampled tree and fault placement the candidates opened and the result were those of the stated order."),
 "C06": ("seeded include structures with files replaced between evaluations; output against a reference model and against the textually expanded twin",
         "Every sampled include history matched the model, and the twin with the text written out gave the same output."),
 "C07": ("seeded torn, flipped, lost, doubled and overwritten blocks in sources and included files; termination, status and partial-output invariants under an operation budget",
         "No sampled damage caused a panic, signal, hang or partial document."),
 "C08": ("seeded failing writers for all five generators; call history after the failure, prefix check and regeneration into a healthy writer",
         "No sampled writer failure was swallowed, followed by another write, or changed a later generation."),
 "C09": ("seeded schedules of several builds in one process and on cooperatively scheduled threads, compared with each build alone",
         "No sampled order, failure history or thread interleaving changed the result of a build."),
 "C10": ("seeded directory trees, listing orders, vanishing entries and per-entry faults; listing against a reference model",
         "Every sampled listing was the one the model computes from the simulated tree."),
 "C11": ("seeded clocks with jumps, time zones and zone-data faults; dates against a reference model",
         "Every sampled date followed the clock reading or the explicit time and the zone the model derives."),
 "C12": ("seeded faults and errors in nested includes; location in the diagnostic against the model's innermost location",
         "Every sampled failure named the place the model computes."),
 "C13": ("seeded standard-error faults and silenced twins; log history against the model's evaluation order",
         "Every sampled log message appeared once, in order and with its location, and never affected output or status."),
 "C14": ("seeded builds with faults and small descriptor limits; file-system effect history and open-handle conservation against the model's candidate set",
         "No sampled build had an effect on the file system, opened a path outside the model's set, or kept a handle."),
 "C15": ("seeded kills, memory exhaustion and failing documents at arbitrary operations; prefix and whole-document check over the write history",
         "Every sampled crash point left a prefix of the documents, none begun before it was generated."),
 "C16": ("seeded process environments, allocation layouts and irrelevant variables; output against a reference model",
         "Every sampled variable came through exactly or failed the build."),
 "C17": ("seeded torn and damaged data files under read segmentation; imported definitions against independent parsers",
         "Every sampled file defined exactly what it holds or failed the build."),
 "C18": ("seeded command lines over sources that are absent, faulted, or change while earlier ones are built, and an unwanted faulty standard input; outcome and reads against a reference model and against the rearranged command line",
         "Every sampled command line was examined before anything was built, and every option held for every document."),
 "C19": ("seeded documents and input faults, built by a caller of the library and by the command; outcome by outcome comparison, with survival of the caller",
         "For every sampled build the library returned what the command showed, and the caller went on."),
}
NA = {
 "C30": "A pure function from tree to text: no clock, schedule, fault or history takes part in it. (Escaping of values that enter from the environment or from files is decided under C16 and C06.)",
 "C31": "A pure function from tree to text; nothing nondeterministic takes part. (What a failing writer does to it is decided under C08.)",
 "C32": "A round trip between two pure functions on text; no schedule, clock or fault takes part.",
 "C33": "A pure function of a list. (Listings sorted from a real directory are decided under C10.)",
 "C34": "A pure function of a definition and a call; no schedule, clock or fault takes part.",
 "C35": "An inverse of two pure functions. (Dates that read the clock or the zone data are decided under C11.)",
 "C36": "A pure function of the source text. (Definitions brought in by included and data files are decided under C06 and C17, leaks between builds under C09.)",
}
m = {"version": 1, "setup_cmd": "./check --build",
 "checks": [{"property": k, "quick_cmd": f"./check {k} quick", "thorough_cmd": f"./check {k} thorough", "evidence_file": f"evidence/{k}.json",
             "technique": "deterministic simulation with fault injection: " + t, "level": "exploration", "level_note": n + " " + TRUST.strip()} for k, (t, n) in C.items()],
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
 "notes": "No hooks in /repo: the simulator sits below the C library (LD_PRELOAD), so the shipped binary is what runs. Replay a violation with ./check --replay FILE. Known findings: known-findings.txt."}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
