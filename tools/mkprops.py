#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing a property)."""
import json, os
H = "include/pandaresampler.hh"; C = "include/pandaresampler/pandaresampler.cc"; I = "include/pandaresampler/hiir/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

prop("C01", "Output does not depend on how the stream is cut into blocks",
 "For every mode, ratio, precision, filter type and instruction set, the output stream is the same (up to float rounding) whatever sequence of block lengths (including zero-length blocks and blocks much longer than the internal ones) and whatever buffer alignments the host uses to deliver the input stream. Every call on n input samples yields exactly n*ratio (up) or n/ratio (down) output samples, and each of them equals what one single call over the whole stream would have put at that stream position. Ratio 1 passes every sample through bit for bit.",
 ["schedules","inputs","histories"],
 "all block-length sequences (down: multiples of the ratio), all float alignments of input and output, all supported configurations, all input streams of finite samples",
 "testresampler draws a few random block sizes below 128 for ratio 2 FIR only and looks at the upper error of a sine; ratio 4/8, IIR, long blocks, zero-length blocks and the boundaries at the filter length and at 1024/2048 samples are never compared with anything (testmultidelay asserts nothing).",
 [H, C, I+"Downsampler2xSse.hpp", I+"Upsampler2xSse.hpp", I+"Downsampler2xFpuTpl.hpp", I+"Upsampler2xFpuTpl.hpp"],
 [("history buffers carried between calls", C), ("aligned/unaligned block split", C), ("1024-sample cascade loop", H+" process_block"), ("2048-sample downsampling loop", C)],
 ["Resampler2::process_block"], [("history, history_even, history_odd", "last ORDER-1 samples of the stream", C), ("_filter[]._mem", "IIR stage memories", I)])

prop("C02", "Resamplers used on different threads never influence one another",
 "When several threads each construct, use, reset and destroy their own resamplers, every resampler produces exactly the output it would have produced had its thread run alone, for every interleaving of the threads down to single memory accesses. This includes the very first use in a process, where one thread may be preempted inside its first construction or first call.",
 ["schedules","configurations"],
 "all preemption schedules of 2-4 threads, all assignments of configurations to threads, cold and warm process state",
 "All existing tests are single threaded and a stress test would only sample whatever interleavings the OS happens to produce.",
 [C, H, I+"Downsampler2xSse.hpp"],
 [("no shared mutable state: all state per instance or on the stack", C), ("constexpr coefficient tables", C)],
 ["Resampler2::Resampler2", "Resampler2::process_block", "Resampler2::reset", "Resampler2::~Resampler2"])

prop("C03", "reset() at any point is equivalent to a fresh resampler",
 "After reset(), whatever the resampler has processed before and wherever in the stream (or inside an abandoned call) it was, every later output equals that of a newly constructed resampler with the same parameters fed the same blocks. Resetting repeatedly, or before any input, changes nothing, and reset() leaves delay(), order() and the instruction-set choice as they were.",
 ["histories","crash_points","configurations"],
 "all histories of blocks before the reset, all positions of the reset, including after a call that was cut off by the death of its thread, all supported configurations",
 "No test calls reset() at all.",
 [H, C, I+"Downsampler2xSse.hpp", I+"Upsampler2xSse.hpp", I+"Downsampler2xFpuTpl.hpp", I+"Upsampler2xFpuTpl.hpp"],
 [("reset() of each cascade stage", H), ("fill of the histories", C), ("clear_buffers", I)],
 ["Resampler2::reset", "Resampler2::process_block"])

prop("C04", "Processing reads and writes exactly the caller's buffers",
 "A call reads no sample outside the n input samples it was given, never modifies them, and writes every one of the promised output samples and nothing else. This holds for buffers at any float alignment, ending or beginning directly at unmapped memory, and for zero-length blocks, for which no pointer is dereferenced.",
 ["inputs","schedules","configurations"],
 "all placements and alignments of the two buffers relative to unmapped or foreign memory, all block lengths and block sequences, all supported configurations",
 "testaddr runs AddressSanitizer over FIR upsampling with fresh instances and block lengths below 100; the IIR filters, unaligned starts, the state reached after earlier blocks, and writes are not covered.",
 [C, H, I+"Downsampler2xSse.hpp", I+"Upsampler2xSse.hpp"],
 [("i + 6 < n bound of the vector loops", C), ("unaligned head/tail loops", C), ("pairwise loads", I+"Downsampler2xSse.hpp")],
 ["Resampler2::process_block"])

prop("C05", "Construction under allocation failure is all-or-nothing",
 "Whichever memory allocation fails while a resampler is constructed, construction either reports std::bad_alloc to the caller or yields a fully working resampler; it never crashes, corrupts memory, or leaks any block it had obtained. Other resamplers are unaffected, a later retry succeeds and works, and destroying any resampler at any time releases exactly what it obtained.",
 ["fault_sequences","configurations","histories"],
 "all subsets of failing allocations during construction, all supported configurations, any set of other live resamplers",
 "No test makes an allocation fail, counts allocations or destroys resamplers in varied orders.",
 [H, C],
 [("AlignedArray::allocate_aligned_data", H), ("unique_ptr ownership of the stages", H), ("create_impl_with_coeffs", H)],
 ["Resampler2::Resampler2", "Resampler2::~Resampler2", "malloc/operator new seam"])

prop("C06", "Processing needs no memory and leaves the host environment alone",
 "Once a resampler exists, processing, resetting, querying, moving and destroying it succeed with correct output even while every memory allocation in the process fails. These operations leave the floating-point control state (rounding mode, flush-to-zero, exception masks), the C library random generator and the standard output and error streams as they found them, and give the right samples under any rounding mode or flush-to-zero setting the host has chosen.",
 ["fault_sequences","schedules","configurations"],
 "all points at which memory runs out, all host floating-point environments, all operation sequences and configurations",
 "No test runs out of memory, changes the floating-point environment or looks at side effects.",
 [H, C, I+"def.h"],
 [("stack-only scratch buffers", C), ("float arithmetic without control register changes", C)],
 ["Resampler2::process_block", "Resampler2::reset", "malloc seam", "MXCSR/x87 control word", "fd 1 and 2", "rand()"])

prop("C07", "A corrupted stretch of input is forgotten within bounded time",
 "If part of the input stream is corrupted by finite garbage of any size (for IIR up to 1e30), the output returns to that of the uncorrupted stream within a bounded number of samples: exactly after the filter's length for FIR, and below the float rounding level after a bounded decay for IIR. NaN or infinite samples disturb an FIR resampler only within its filter length (plus a few samples of vector grouping), and any resampler produces correct output again after reset().",
 ["fault_sequences","histories","schedules"],
 "all positions, lengths, sizes and bit patterns of corruption, all block schedules around it, all supported configurations",
 "No test feeds anything but sines or zeros, and none looks at what happens after a disturbance.",
 [C, I+"StageProcSseV2.hpp", I+"StageProcFpu.hpp", I+"Upsampler2xSse.hpp", I+"Downsampler2xSse.hpp"],
 [("finite history", C), ("stable allpass sections", I+"StageProcSseV2.hpp"), ("clear_buffers", I)],
 ["Resampler2::process_block", "Resampler2::reset"])

prop("C08", "delay() is the latency the stream really suffers",
 "At any time in a resampler's life delay() tells, in output samples, how far the output stream lags the input stream: a host that compensates by that amount gets input and output aligned (for FIR at every in-band frequency, for IIR at low frequencies), in every configuration and for any block schedule. It is never negative, and chaining an upsampler with a downsampler gives the sum of the two delays at the common rate.",
 ["configurations","schedules","histories"],
 "all supported configurations, all block schedules, before/after any amount of processing and resets, alone and in up/down chains",
 "testresampler uses delay() for ratio 2 FIR only; testmultidelay computes the error for ratio 4/8 but asserts nothing, and IIR delays are never tested.",
 [H, C, "filter-design/mkiir.cc"],
 [("delay() accumulation over the stages", H), ("group delay constants", C)],
 ["Resampler2::delay", "Resampler2::process_block"])

prop("C09", "All implementations of one configuration agree",
 "Vectorized and scalar code, builds with and without SIMD support, header-only and library builds, and different compilers give the same stream (up to float rounding) for the same parameters, even when each is fed through a different block schedule. A replica that is restarted mid-stream and fed only recent history agrees with the others again within a bounded number of samples.",
 ["configurations","schedules","crash_points"],
 "all pairs of implementations and builds, all block schedules on either side, all restart points",
 "Tests check each of two FIR variants against loose sine thresholds at ratio 2; IIR, ratio 4/8, SIMD-less and NEON code paths are never executed, let alone compared.",
 [C, H, I+"Downsampler2xSse.hpp", I+"Upsampler2xSse.hpp", I+"StageProcSseV2.hpp", I+"StageProcFpu.hpp"],
 [("fir_compute_sse_taps / fir_process_4samples_sse", C), ("USE_SSE template switch", C), ("NEON mapping", C), ("hiir SSE lane layout", I)],
 ["Resampler2::process_block", "Resampler2::sse_enabled"])

prop("C10", "Each precision grade delivers the accuracy it is named after",
 "For streams band-limited to the passband (0.408 of the low sample rate, 18 kHz at 44.1 kHz) the resampled FIR signal equals the ideal one, delayed by delay(), with an error no worse than the named level (48, 72, 96, 120, 144 dB, the last two limited by float rounding to about 110 dB) up to 8, 10 or 13 dB for upsampling and 3, 6 or 9 dB for downsampling by ratio 2, 4, 8; IIR preserves the amplitude and adds no other component beyond that level. Downsampling suppresses every component that would alias into the passband to the named level within 3 dB (FIR) or 6 dB (IIR), up to the same float limit, at any stream age and under any block schedule.",
 ["inputs","schedules","configurations"],
 "all in-band and stop-band tone mixtures, all stream ages and block schedules, precisions 48dB..144dB, all ratios, both filters",
 "testresampler checks ratio 2 FIR with fixed frequencies and only the positive error; ratio 4/8 and IIR quality is never asserted, and no stream is longer than 20000 samples.",
 [C, H, "filter-design/mkiir.cc", "filter-design/mkfir.sh"],
 [("coefficient tables", C), ("stage cascade", H)],
 ["Resampler2::process_block", "Resampler2::delay"])

prop("C11", "Ownership can move mid-stream without disturbing the stream",
 "Moving a resampler to another variable, container slot or thread at any point between blocks (move construction, move assignment over a live resampler, swap, container growth) carries the whole stream state and all parameters along: the stream continues as if nothing happened. The replaced resampler's resources are released exactly once, and moved-from objects can be destroyed or assigned to.",
 ["histories","configurations"],
 "all interleavings of moves, swaps and container growth with blocks, resets and destruction, all supported configurations",
 "No test moves a resampler.",
 [H], [("compiler generated move operations over unique_ptr stages and parameters", H)],
 ["Resampler2 move operations", "Resampler2::process_block"])

prop("C12", "AlignedArray is aligned, private to its cache lines, and leak-free",
 "Whatever address the allocator returns, an AlignedArray starts on a 64-byte boundary, no cache line of its data is shared with memory outside its own allocation, and its elements keep the values written to them. Every element is constructed exactly once and destroyed exactly once in reverse order, and the memory is released exactly once. If the allocation or an element constructor fails, the exception reaches the caller, already constructed elements are destroyed and no memory leaks.",
 ["fault_sequences","inputs","histories"],
 "all allocator placements, sizes (including 0 and sizes whose byte count overflows), element types, failing allocations and throwing element constructors",
 "AlignedArray has no test of its own; the allocator of the test machine returns few distinct alignments and never fails.",
 [H], [("allocate_aligned_data", H), ("constructors and destructor", H)],
 ["AlignedArray", "malloc/free seam"])

prop("C13", "Queries are total, constant and free of effect",
 "On every resampler that can be constructed for a supported configuration (including ratio 1), order(), delay(), sse_enabled() and the static queries return at any time, return the same values over the whole lifetime (across processing, reset and moves), and never change the stream. Several threads may query one resampler concurrently.",
 ["histories","configurations","schedules"],
 "all supported configurations, all positions of queries in any operation sequence, all interleavings of concurrent queries",
 "Tests query ratio 2 FIR resamplers right after construction only.",
 [H, C], [("order(), delay(), sse_enabled()", H)],
 ["Resampler2::order", "Resampler2::delay", "Resampler2::sse_enabled", "Resampler2::sse_available"])

prop("C14", "Bounded input stays bounded and silence becomes silence",
 "For input bounded by A the output stays below A times a fixed small gain for ever, whatever the input, the block schedule and the age of the stream. When the input falls silent, the output becomes exactly zero (FIR) or decays below any audible level and on to float insignificance (IIR) within a bounded number of samples and stays there, also under flush-to-zero or directed rounding.",
 ["inputs","histories","schedules"],
 "all bounded input streams, worst-case sign patterns included, all lengths of history before the silence, all host floating-point modes",
 "Tests run at most 20000 samples of a sine of amplitude 1 and never look at the tail of the response.",
 [C, I+"StageProcSseV2.hpp", I+"StageProcFpu.hpp", I+"Upsampler2xSse.hpp", I+"Downsampler2xSse.hpp"],
 [("finite impulse response", C), ("allpass coefficients inside the unit circle", C), ("unused SSE lane handling for odd coefficient counts", I+"Upsampler2xSse.hpp")],
 ["Resampler2::process_block"])

prop("C15", "Results depend on nothing but parameters and input",
 "Feeding the same blocks, at the same buffer alignments, to resamplers with the same parameters gives bit-identical output, whatever the uninitialised stack and heap memory contained, wherever the allocator placed the objects, and whatever other resamplers did earlier in the process.",
 ["histories","fault_sequences","configurations"],
 "all contents of uninitialised memory, all allocator placements, all prior process histories (recycled blocks of destroyed resamplers included), all supported configurations",
 "A test process sees one memory state; fresh pages are zero, which hides uninitialised reads.",
 [H, C, I+"StageDataFpu.h", I+"Downsampler2xSse.hpp", I+"Upsampler2xSse.hpp"],
 [("value initialisation in AlignedArray and vector", H), ("initialising constructors of the IIR classes", I)],
 ["Resampler2::process_block", "malloc seam", "stack below the call"])

prop("C16", "The built-in self test always gives the right verdict",
 "On a correct build the filter self test returns true at every call, whatever the state of the C library random generator, however often it is called, between any other operations of the process and with any contents of fresh memory. It prints nothing unless asked to be verbose, leaks nothing, and reports out-of-memory as an exception without leaking.",
 ["histories","fault_sequences","schedules"],
 "all seeds and positions of the C library generator, all call sequences, all failing allocations during the test",
 "The test suite calls it once with the default seed.",
 [C], [("fir_test_filter_sse", C)],
 ["Resampler2::test_filter_impl", "rand() seam", "malloc seam", "fd 1 and 2"])

prop("C17", "A resampler is one fixed linear filter at every age and level",
 "Scaling the input scales the output, the output for a sum of streams is the sum of their outputs, and delaying the input stream by any (down: multiple of ratio) number of samples delays the output accordingly, up to float rounding relative to the recent signal level. This holds unchanged after millions of samples and for signal levels from far below to far above full scale.",
 ["inputs","histories","schedules"],
 "all finite streams and sums of streams, levels from 1e-25 to 1e25, stream ages up to hours, all block schedules, all supported configurations",
 "Tests use one amplitude and at most 20000 samples; state that is only wrong after a long history or at extreme levels is never reached.",
 [C, H, I+"StageProcSseV2.hpp", I+"StageProcFpu.hpp"],
 [("fixed tap convolution", C), ("allpass sections", I)],
 ["Resampler2::process_block"])

prop("C18", "Bit counts map to the weakest sufficient precision and to its name",
 "Asking for a precision for b bits returns the weakest grade that offers at least b bits (the best one beyond 24), and every grade has its own human-readable name.",
 ["inputs"], "all unsigned bit counts, all precision values",
 "Tests call it with five values.", [C], [("find_precision_for_bits, precision_name", C)], ["Resampler2::find_precision_for_bits", "Resampler2::precision_name"])

prop("C19", "Unsupported requests are diagnosed",
 "Constructing a resampler with a ratio other than 1, 2, 4, 8, or a combination without filter, and handing an odd number of samples to a factor 2 FIR downsampler, prints a check failure message naming the condition.",
 ["inputs","configurations"], "all parameter combinations and block lengths",
 "No test makes an invalid request.", [H, C], [("PANDA_RESAMPLER_CHECK", H)], ["stderr"])

prop("C20", "Shipped coefficient tables are those of the filter design tools",
 "Running the IIR and FIR design tools reproduces the coefficient and group delay tables compiled into the library.",
 ["configurations"], "all precisions and stages",
 "The design tools are built but never run by the tests.", ["filter-design/mkiir.cc", "filter-design/mkfir.sh", C], [("generated code sections", C)], ["mkiir output"])

prop("C21", "The library can be consumed in every documented way",
 "The installed headers are self-contained, can be included from any number of translation units in header-only mode without link conflicts, and the pkg-config flags suffice to build against the shared library.",
 ["programs","configurations"], "all client programs and build set-ups",
 "Tests link two translation units with one include order.", ["meson.build", H, C], [("PANDA_RESAMPLER_FN inline", C), ("pkg-config generation", "meson.build")], ["compiler and linker"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
