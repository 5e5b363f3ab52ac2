#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("round trip: generated crash states encoded by an independent encoder, loaded, compared with the state", ""),
 "C02": ("metamorphic: hex text form against binary form of the same generated dump bytes", ""),
 "C03": ("generated damage to dumps against a reference decoder which predicts code and message", ""),
 "C04": ("round trip: generated registers and memory printed as a GDB log, parsed, compared with a reference model", "The one long-symbol known finding is excluded by construction and reported by its own probe."),
 "C05": ("metamorphic: log with inserted noise against the log without; byte fuzzing for robustness", ""),
 "C06": ("round trip: generated ELF images against the segments they were made from", ""),
 "C07": ("generated damage to ELF images with guard pages behind the image, against a reference validity predicate; byte fuzzing", ""),
 "C08": ("round trip: generated raw images and command lines, memory compared byte for byte", ""),
 "C09": ("metamorphic: permuted command lines and the three dump formats of one generated crash must load the same", ""),
 "C10": ("generated invalid command lines and files against a reference command line model, with leak and open file accounting", ""),
 "C11": ("stateful model-based testing: generated operation histories against a reference memory model", ""),
 "C12": ("stateful model-based testing with aliases against a reference memory model", ""),
 "C13": ("stateful model-based testing: memory map document predicted by the model after every step", ""),
 "C14": ("stateful model-based testing with break and watchpoints against a reference model", ""),
 "C15": ("stateful model-based testing with read counts against a reference model", ""),
 "C16": ("generated flash images against a reference model, with injected allocation failures", ""),
 "C17": ("round trip and reference encoding of generated register contexts and register packets", ""),
 "C18": ("stateful model-based testing of the debugger's memory accesses against a reference model", ""),
 "C19": ("generated crash contexts and histories against the documented signal table", ""),
 "C20": ("generated fault status registers against a reference report writer", ""),
 "C21": ("generated contexts: parsed target description against the register block, piecewise reads against the whole", ""),
 "C22": ("generated sequences of resume, step and breakpoint requests: nothing may change (invariant over the history)", ""),
 "C23": ("stateful model-based testing of the channel against a scripted console", ""),
 "C24": ("stateful model-based testing: generated remote protocol sessions with the real executable and in process, against a model of the device", "The remote protocol core is the framework's own stand-in for the empty mri submodule (shim/core); the entry points it calls are the repository's."),
 "C25": ("generated invalid command lines and files given to the real executable, against a reference model", ""),
 "C26": ("generated scenarios with every allocation failing in turn, compared with the run without failures", "Within a scenario the failing allocation is drawn from all of its allocations."),
 "C27": ("generated scenarios with a failing or short file operation drawn from all file operations of the run, against the run without failures", "The known finding about read errors inside GDB logs is excluded by construction and reported by its own probe."),
 "C28": ("generated programs of nested try/catch blocks run against a reference interpreter", ""),
 "C29": ("generated files, positions and injected failures against the file's real size and contents", ""),
 "C30": ("stateful model-based testing of the allocation hooks", ""),
 "C31": ("stateful model-based testing of the printf spy, with a duplicated stdout and stderr watched", ""),
 "C32": ("stateful model-based testing of the file hooks against real files", ""),
 "C33": ("stateful model-based testing of the console and channel doubles", "The known finding about setting the capture size twice is excluded by construction and reported by its own probe."),
}
NOTE = ("Searches generated cases with coverage guidance and shrinking; shows no violation in those explored and does not prove absence. "
        "The code under test is compiled from /repo with address and bounds sanitizers. Trusts the reference model, the encoders and the header shim in /verif.")
checks = []
for p, (t, extra) in sorted(T.items()):
    checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": "property-based testing; " + t,
                   "level": "exploration", "level_note": (NOTE + " " + extra).strip()})
m = {"version": 1, "setup_cmd": "./check --build", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo are needed. See DESIGN.md. Replays: ./check <property> --replay <file>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
