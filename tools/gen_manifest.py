#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "sim"))
from simconfig import PROPS
T = {
    "C01": ("streams delivered in seed-chosen pieces, overloads, alignments and interleavings, dirty memory; refinement against a reference model",
            "Seeded search over delivery histories of all 47 hasher classes in three builds (g++ C++14, clang++ C++20, g++ C++17 with sanitizers); every digest compared with an independent model. Evidence, not proof."),
    "C02": ("simulated multi-gigabyte streams (mapped window), copies taken at and across the 2^29, 2^31 and 2^32 borders; refinement against frozen checkpoints of the reference",
            "Every algorithm crosses 2^32 bytes with seed-chosen small pieces and takes one piece above 2^32 bytes in every quick run; MD2 (9 MB/s) takes giant pieces only in the thorough tier."),
    "C03": ("seeded scheduler deciding every preemption at memory-access granularity over real code, plus operations nested in interrupted ones; vector-clock race detection and refinement per thread",
            "Sampled interleavings of up to 4 threads over all hashers; races are found from happens-before, so they need not corrupt a digest to be reported."),
    "C04": ("seeded scheduler over concurrent readers, comparers and copiers of one shared hasher; vector-clock race detection and refinement",
            "As C03, with one shared object: any write to it by a reader is a race report whatever the values."),
    "C05": ("copies, assignments, moves, swaps, crash and resume from checkpoints at seed-chosen points; refinement of every live object",
            "Crash = all live hashers vanish, only checkpoint copies survive; the resumed run must end with the uninterrupted run's digest."),
    "C06": ("seed-chosen histories ending in reset, then a fresh message; refinement against a newly made model",
            "Histories include finalization, readouts, copies, failed operations and crashes."),
    "C07": ("allocation failures injected at seed-chosen and at each successive allocation of an operation; refinement, balance and retry checks",
            "Once and persistent failures inside construct, copy, assign, feed, finalize, reset and readout of the hashers that allocate; heap balance is checked at the end of each run."),
    "C08": ("readouts, comparisons, std::hash and copies in seed-chosen order and repetition after seed-chosen histories; refinement",
            "Every readout form is compared with the model's digest every time it is read."),
    "C09": ("caller memory under simulator control: guard pages on both sides, read-only during the call, revoked or overwritten right after it; address sanitizer build",
            "An access out of bounds, a write, or a later use faults at once or changes a digest."),
    "C10": ("element sequences with seed-chosen boundaries, interleaved hashers, copies, resets and crashes; refinement against SP 800-185 plus boundary-shift twins",
            "Both TupleHash variants with all overloads; twins differ in one boundary and must differ in digest."),
    "C11": ("whole program over a simulated kernel: short reads, single bytes, delays, EINTR, fifos, growing files; output compared with the reference",
            "Every system call of the program is answered by the simulator; g++ and clang++ builds of the unmodified main.cpp."),
    "C12": ("whole program over a simulated kernel with open and read errors at seed-chosen points (each kind at every early call)",
            "Success or a digest line after an input fault is a violation."),
    "C13": ("whole program over a simulated kernel with write errors, full disk, closed pipe, partial and interrupted writes",
            "Success without the complete line on the simulated output is a violation."),
    "C14": ("whole program over a simulated kernel and heap, each allocation of the program failing in turn (once or persistently)",
            "Success with anything but the complete correct line is a violation."),
    "C18": ("whole program over a simulated kernel and heap, started with seed-chosen malformed argument lists while writes, reads and allocations may fail; classified by an independent reading of the arguments",
            "Arguments outside a strict reading are refused or (decorated numbers) taken at face value; a crash, a digest for a refused list, or silence is a violation. Digest lengths above 100000 are not asked for."),
}
NA = {
    "C15": "compile-time evaluation has no run: no schedule, fault, delivery or history for a simulator to decide",
    "C16": "needs execution on a big-endian machine; byte order is a property of the target, not a fault or schedule a simulator on this machine can inject (no big-endian toolchain or emulator here)",
    "C17": "a property of compiling and linking combinations of headers; nothing runs",
}
m = {
    "version": 1,
    "setup_cmd": "python3 sim/check.py --build",
    "hooks": {"guard": "none", "enable": "no hooks: the library's seams (allocator, caller memory, compiler instrumentation) and the program's system calls are taken over from outside", "source_commits": []},
    "checks": [{"property": p, "quick_cmd": "python3 sim/check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 sim/check.py %s" % p, "evidence_file": "evidence/%s.json" % p,
                "technique": "deterministic simulation with fault injection: " + T[p][0], "level": PROPS[p].get("level", "exploration"), "level_note": T[p][1]} for p in PROPS],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "One orchestrator (sim/check.py) drives four simulators; a violation is minimised and written to replays/, and sim/check.py --replay FILE reproduces it exactly.",
}
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
