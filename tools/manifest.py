#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = "TLA+ specification of the detector checked with TLC; its behaviours replayed into the code"
BOTH = REPLAY + ", recorded executions validated against it by TLC"
READER = "Every case of the bounded model is checked by TLC (operational reader = declared meaning, family, bounds) " \
         "and replayed into the real code from in-memory and file-like streams; mutated streams are recorded on " \
         "the real code and validated by TLC. Assurance ends at the bounds of DESIGN.md; trusts the harness and the " \
         "transcription of the published rules."
T = {
 "C01": (REPLAY, "Hostile streams of the specification plus exhaustive single and sampled multiple damage of every base stream "
         "from its alphabet of values, in a build with overflow and debug checks. Exhaustive only over that alphabet."),
 "C02": (REPLAY + " with its step counter as work bound", "Calls and bytes of the real code are bounded by the number of steps of the "
         "specified detector, which TLC bounds; growing streams must not take more work. Bounds carry slack (DESIGN.md)."),
 "C03": (REPLAY + " under a counting allocator", "Peak heap of the real code below 4 MiB on all hostile and damaged streams of the specification."),
 "C04": ("TLA+ model of delivery (TLC) whose schedules drive the real code", "All schedules of the bounded model (one short or interrupted read anywhere, "
         "uniform chunk sizes, first-read sizes) on a sample of streams of all families."),
 "C05": ("TLA+ session model (TLC); histories replayed into the code", "All histories of the bounded session model over all entry points, replayed in one process; all interleavings of the reader operations of two detections (up to the bound) forced on two real threads; detections nested inside the reads of detections, in all shapes of the bounded model; files of the kernel, whose length is not known."),
 "C06": (REPLAY, "All streams of up to two bytes and unknown content in several lengths, with three feature builds."),
 "C07": (REPLAY, "Every published alternative: exact, truncated, each byte flipped, moved; SigTable is the transcription of the published table."),
 "C08": (REPLAY, "Every compatible pair of alternatives whose parts fit one stream; order from the transcribed table."),
 "C09": (REPLAY, "Signatures at and across the window limit; tails behind the window; signatures behind unknown content at every distance class."),
 "C10": ("TLA+ model of faults (TLC) drives the real code; recorded outcomes validated by TLC", "A fault of every error kind, at every call position and every byte position of sampled "
         "streams of every family, outcomes checked against the fault specification."),
 "C11": (REPLAY + " in many feature builds", "All single-feature builds, all-but-one builds, none, all, group; every case of a cross-section of the suite."),
 "C12": (REPLAY, "Every truncation point and every damaged structural field of the base streams of every family, with and without text."),
 "C27": ("TLA+ catalogue checked with TLC; rows of the real library validated against it by TLC", "All formats: constants, const evaluation, copies and values returned by detection."),
 "C28": ("TLA+ model of the example (TLC); its behaviours replayed into the compiled example", "All argument lists up to the bound over a pool of files, missing files and directories."),
}
for k in "C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26".split():
    T[k] = (BOTH, READER)
props = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                 "evidence_file": f"evidence/{p}.json", "technique": T[p][0], "level": "model_checking", "level_note": T[p][1]}
                for p in props],
     "not_applicable": [],
     "notes": "TLA+ with TLC. No hooks in /repo are needed: everything is observed through the public API."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
