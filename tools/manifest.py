#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ref = "reference-model monitor over generated programs"
sem = "reference-validator monitor with planted faults and exhaustive small sweeps"
meta = "metamorphic trace monitor over pairs and histories of compilations"
notes_ref = "Held on the executions counted in the evidence. Trusts the independent reference front end in harness/kf (own lexer, parser, validator), written from the documentation and cross-checked against the compiler on every case."
T = {
 "C01": (ref, notes_ref), "C02": (ref, notes_ref), "C03": (ref, notes_ref), "C04": (ref, notes_ref), "C05": (ref, notes_ref),
 "C06": (ref + ", with read-back through the exported reader", notes_ref), "C07": (ref, notes_ref),
 "C08": ("reference-parser monitor over edited, truncated and random texts; every single-token edit of a full-grammar program", notes_ref + " Which texts are in the grammar is the reference parser's verdict."),
 "C09": (ref + " and very large programs", notes_ref),
 "C10": (sem, notes_ref), "C11": (sem, notes_ref), "C12": (sem, notes_ref), "C13": (sem, notes_ref), "C14": (sem, notes_ref + " What is valid SQL is decided by construction (a generator of valid statements and a catalogue of broken ones)."),
 "C15": (meta, "Compares the compiler with itself; needs no model of what is right, only that the re-layout keeps the tokens."),
 "C16": (meta + ", fresh processes, heap and goroutine watch", "Compares the compiler with itself over histories of bounded length."),
 "C17": ("Go race detector under stress with injected jitter, plus comparison of every outcome with the sequential one", "No race on the schedules that ran; the evidence counts the distinct phase interleavings seen."),
 "C18": (ref + "; strict decode and re-encode of every artifact", notes_ref),
 "C19": ("file-system model monitor over random command histories", "A model predicts every file, exit code and message of the real binary; runs as an unprivileged user in scratch directories."),
 "C20": ("fault injection into the real binary (environment faults, system call errors, kills) with a completeness oracle", "Enumerates the system calls on the three paths where strace works, and a catalogue of environment faults; exit 0 must mean a complete artifact."),
 "C21": ("differential monitor, WebAssembly under node against native", "Compares with the native compiler, which the other checks judge; texts are valid UTF-8."),
 "C22": ("crash, hang and sanity monitor over hostile inputs", "No crash on the inputs that ran; a hang means no answer within 150 s."),
 "C23": (ref + " for positions, kinds and names of diagnostics", notes_ref),
 "C24": (meta + ", captured output streams", "Compares the compiler with itself in both modes."),
 "C25": ("exhaustive lookup monitor", "Exhaustive over all strings of up to three letters, all case variants and single-character edits of the keywords."),
 "C26": (meta, "Compares the compiler with itself, and with the reference where both accept."),
 "C27": ("listener monitor over hostile inputs", "Compares the listener, the returned error and a run without listener."),
 "C28": ("monitor over schemas made by hand: rules read off the value, a recording validator, twin values with other nil lists, JSON round trip", "Rules that are not documented (foreign keys of unequal length, an index named like a column, statements outside a few forms) are left open; for these only panics, output, change and stability are judged."),
 "C29": ("monitor of the exported stages run by hand, against an independent lexer and the compiler", notes_ref),
 "C30": ("model-based monitor over random histories of calls", "The model of a list is the slice of what was added."),
 "C31": ("monitor of the annotation reader against an independent one, exhaustive on short texts", "Of texts that are no annotation the verdict is left open (result or error); only invention, panic and instability are judged."),
 "C32": ("monitor of the parse tree: every accessor found by reflection against the list of children, recording visitors, reused stages against new ones", "Which children a node should have is not judged here (C08, C29 and the faithfulness checks do)."),
 "C33": (meta + ": closed parts of programs and unions of programs", "Compares the compiler with itself; the reference only says what belongs together."),
}
level = {"C20": "fault_enumeration"}
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep", "^hook:"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "bash run.sh setup",
     "hooks": {"guard": "verif", "enable": "go build -tags verif", "source_commits": hook},
     "checks": [{"property": k, "quick_cmd": f"bash run.sh {k}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {k}", "technique": "runtime monitoring: " + t, "level": level.get(k, "exploration"), "level_note": n} for k, (t, n) in T.items()],
     "not_applicable": [],
     "notes": "bash run.sh replay FILE judges a recorded violation again. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
