#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 "C01": ("deterministic simulation: seeded short and interrupted reads", "The same bytes are loaded under several drawn deliveries; all outcomes must agree with the plain one and, for valid files, with the reference decoder."),
 "C02": ("deterministic simulation: seeded short and interrupted writes", "The same class is saved under several drawn acceptances; every output must be byte-identical to the plain one."),
 "C03": ("deterministic simulation: seeded read faults and truncation", "Read errors of drawn kinds and early ends at drawn bytes, biased to field boundaries; the error must be reported and nothing read afterwards."),
 "C04": ("deterministic simulation: seeded write faults and full stores", "Write errors, full and non-accepting streams at drawn bytes; the error must be reported, the output a prefix, and nothing written afterwards."),
 "C05": ("deterministic simulation: seeded storage damage and hostile files", "Damage drawn from a storage-fault model plus hand-made hostile shapes; panics, crashes, hangs, memory and unstable results are noticed; memory bound 32 MiB + 3000 times the input."),
 "C06": ("deterministic simulation of a store with crashes, against a reference class-file model", "Every saved file is decoded by an independent decoder and compared with the model of what was saved; files of an independent encoder are loaded and compared."),
 "C07": ("deterministic simulation of a store with crashes, against a reference model of code", "As C06, for method bodies: positions are compared as instructions, jumps by target."),
 "C08": ("deterministic simulation of a store with crashes, against a reference model of constants", "As C06, for strings and constants drawn from extreme code points and bit patterns; malformed text must be refused."),
 "C09": ("deterministic simulation of a store with crashes, against a reference model of bootstrap tables", "As C06, for dynamic constants; drawn tables with dangling and cyclic references must be refused; repeated trips must not grow the file."),
 "C10": ("deterministic simulation: seeded hash keys, clocks, threads and histories", "The same work under different hash keys, clock readings, threads and earlier operations must give identical results."),
 "C11": ("deterministic simulation of streams of several classes and trailing data", "Consumption is measured by the simulated stream, byte by byte, for successful and refused loads."),
 "C12": ("deterministic simulation: seeded thread scheduler", "Simulated threads switch at stream calls and, in some runs, at allocations; each result must equal that of the operation alone; a thread waiting for another is reported. Interleavings inside code without a stream call or allocation are not explored."),
 "C13": ("deterministic simulation at the format's limits, against a reference model", "Classes at, just below and beyond each limit of the format, saved through simulated streams."),
 "C14": ("deterministic simulation of attribute framing faults, against a reference model", "Unknown attributes with drawn content at every place; recorded lengths changed in both directions; loading must fail and other attributes stay untouched."),
 "C20": ("deterministic simulation: constant pools and streams of the caller under seeded numbering and faults", "Every field, method and attribute of a drawn class is written and read through a simulated pool (six numberings, drawn sharing, lost entries) and simulated streams, and compared with the reference model. Lost bootstrap rows are not injected: the trait gives the pool no way to report them."),
 "C15": ("deterministic simulation: histories with faults and retries", "Histories of operations with drawn faults; every retry and every other operation must give the result it gives in a fresh process state."),
}
NA = {
 "C16": "A pure function between a string and a value: no stream, schedule, fault, clock or shared state for a simulator to control. (Where the text passes through a stored class it is covered by C05, C06 and C08.)",
 "C17": "A pure in-memory string library: its results depend on nothing a simulator schedules or faults.",
 "C18": "Pure functions of two bit patterns; nothing for a simulator to control.",
 "C19": "A pure predicate over a finite set of kinds and a name; nothing for a simulator to control.",
}
common = " Exploration by seeded random search: no violation among the simulated runs, no proof. Trusted: the reference encoder and decoder (JVMS chapter 4), the simulated streams, scheduler and allocator counters in /verif/sim. All of coffer, wtf-8 and coffer_macros runs for real, built from /repo with overflow checks."
m = {"version": 1, "setup_cmd": "./check.sh build",
     "checks": [{"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"./check.sh {p} thorough", "evidence_file": f"evidence/{p}.json",
                 "technique": t, "level": "exploration", "level_note": n + common} for p, (t, n) in T.items()],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
     "notes": "No hooks in /repo: the Read/Write arguments, the global allocator, the libc symbols for randomness and the clock, and the caller's threads are seams the library already has. Known findings: known_findings.txt."}
open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
