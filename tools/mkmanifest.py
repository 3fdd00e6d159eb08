#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTE = {
 "C01": "Seeded block schedules (zero, tiny, huge, unaligned) over all 96+ configurations and 7 builds; oracle: one single call over the recorded stream on a second copy of the same build, tolerance a fixed multiple of float rounding.",
 "C02": "Threads of the instrumented build run one at a time; a seeded scheduler decides after every basic block, load and store who continues (cold process included). Oracle: bit-identical to the same thread alone. Weak memory orders beyond sequential consistency are not simulated.",
 "C03": "reset() after arbitrary histories, NaN, moves, and calls abandoned at a seeded instruction; oracle: newly constructed instance fed the same blocks.",
 "C04": "Buffers directly between unmapped pages, canaries, sentinel values, NaN surroundings, and per-access checking in the instrumented build.",
 "C05": "Every allocation position of every configuration is failed (once, and from there on), plus seeded positions inside longer histories; oracle: all-or-nothing, ownership accounting, undisturbed twin.",
 "C06": "All allocations fail during processing, seeded rounding mode, FTZ/DAZ, x87 precision and rand() state; oracle: undisturbed twin and unchanged environment.",
 "C07": "Seeded corruption (garbage, NaN, Inf, reset) of streams; oracle: the filter's own linear response with a bound that decays with its memory.",
 "C08": "Tones over seeded schedules, moves, resets and chains; oracle: measured phase against delay().",
 "C09": "Replica groups across 7 builds (gcc, clang, header-only, no SSE, emulated NEON, NDEBUG, debug) with separate schedules and restarts; NEON runs on a lane-wise stand-in.",
 "C10": "Tone mixtures in pass band and stop band over seeded schedules and stream ages; oracle: analytically resampled signal and the named level.",
 "C11": "Seeded moves, swaps, container growth between blocks and threads; oracle: undisturbed twin and ownership accounting.",
 "C12": "Seeded allocator placement (every offset of a cache line), failure, throwing constructors; oracle: layout, construction/destruction log, ownership accounting.",
 "C13": "Queries woven into every history and made concurrently under the seeded scheduler; oracle: values of a fresh instance, undisturbed twin.",
 "C14": "Hostile bounded signals, long histories, silence, FTZ and directed rounding; oracle: gain bound and decay to zero.",
 "C15": "Same trace executed under different memory contents, placement, address offsets and interleaved strangers; oracle: identical bits.",
 "C16": "Self test called at seeded points, with seeded rand() state, allocation failures and dirty memory; oracle: true, silent, no leak.",
 "C17": "Scaling, superposition and shifts of streams at seeded ages and levels; oracle: linear model built from the measured impulse response.",
}
NA = {
 "C18": "A pure function of one integer: no schedule, time, I/O, fault or history for a simulator to decide; input generation alone would be another technique.",
 "C19": "Whether a constant invalid argument prints a message depends on nothing a simulator controls (no schedule, fault or history), so deterministic simulation does not apply.",
 "C20": "Comparing shipped tables with the output of offline design tools is a static build-time fact without runtime nondeterminism or faults; the tools (octave, qdsp based) are also not installed here.",
 "C21": "Packaging and link behaviour is decided by compiler and linker, not by an execution a simulator could schedule or disturb.",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i + " --tier quick", "thorough_cmd": "python3 check.py " + i + " --tier thorough",
                   "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection (seeded search, minimised replayable traces)",
                   "level": "fault_enumeration" if i == "C05" else "exploration", "level_note": NOTE[i] + " Sampled, not exhaustive."})
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: malloc, rand, locks, thread scheduling (via compiler instrumentation of the 'cov' build), buffers and floating-point state are seams outside the sources", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Same engine for all checks: sim/ (C++) driven by check.py. See DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
