import json
ps=[json.loads(l) for l in open('/verif/properties.jsonl')]
head=open('/verif/DESIGN.md').read()
i=head.find('## Properties')
if i>=0: head=head[:i]
body='''## Properties

For each: what is specified (module in `spec/`), what is explored, against what oracle, within what bounds, and why this
reaches what the tests cannot. Costs are for the quick command on 8 cores. The thorough command uses the same machinery with larger model
constants and about ten times the scenarios.

### C01 to C06 sequencer (Sequencer, MC_Seq, TraceSeq; harness/seq_drv.c, lib/seqfam.py; 10 to 30 s each)
`Sequencer` is the state of a list of events: for each node parent, range, phase (new, prepared, freed), rendered position, absolute
range, and registered memory. Each observable step (add, prepare, generate, map, free, register, release, start and return of a block call) has a
guard, the name of the rule it would break, and an effect. The output block is predicted position by position: each generator
adds `position + 1 + channel` weighted with an own digit in base 128, so that a sum of all overlapping events shows which event wrote
which of its positions where.
`MC_Seq` models the walk over lists (groups, maps, isolated maps, events whose prepare sets another end) as an explicit stack machine and is checked exhaustively
for all start times and durations up to the constants, all divisions into blocks, and all single failing callbacks, for eleven shapes of composition.
Its finished histories are printed and replayed with the library (replay); random compositions to depth 4, all divisions of small lists, direct use
of events without a list, repeated frees and random memory registers are recorded and validated (trace validation).
Bounds: up to 6 writing nodes and 16 nodes, 40 positions, 2 channels. C06 adds event memory: up to 28 registrations in any mixture; group
memory registered before and after members are added.
Further scenario families move the same histories to other magnitudes: start times near the end of the 32 bit time, lists with up to 300 events, nesting to depth 60,
blocks that are longer than the events, positions that stand for up to 65537 samples each (all of which must be equal; limits of block sizes and offsets),
and compositions that are cut at a position, everything after which happens near 3000, 2^16, 2^24, 2^31 or 2^32: events and distances that are longer than half of the range of times,
which a change to signed or narrower arithmetic breaks.
`Mix` (MC_Mix, TraceMix; harness/mix_drv.c, lib/mixfam.py) describes compositions of the events of the library itself (waves and noises with amplitude arrays and paths, in groups, parallel
groups and maps): the output at each position is the sum of the members' own renderings, weighted by the maps above them. It is used for C04 and C05 with sp_seq, for C07 with sp_seq_parallel, and for
C18 with sp_render_range_block. MC_Mix shows that the sums of sub lists at block positions arrive at that definition.
Tests only contain a handful of fixed compositions and no failing callbacks.

### C07 to C09 parallel rendering (ParAlg, Sequencer; harness/sched.c; 25 to 50 s each)
`ParAlg` models sp_seq_parallel with futures: count, distribute, workers, waiting that runs queued tasks itself, merge, failure clean up and nested groups; checked for
all interleavings for agreement with sequential rendering, containment of failures, deadlock freedom and termination.
The implementation runs under a controlled scheduler: all pthread and sleep calls are scheduling points, one thread runs at a time, chosen at random, by priorities with change points, or round robin with
delays, with spurious wakeups and failing thread creation. Thread sanitizer sees only the synchronisation of the code under test and reports races of the explored schedule.
The recorded executions are validated with the same `Sequencer` rules as sequential ones. Bounds: 1 to 4 workers, sampled schedules; single runs with up to 150 workers and 300 events or tasks. Real compositions (Mix) are rendered under address and thread sanitizer.
`Order` describes the order of floating point additions for the events of one list with values that absorb each other; `MC_Order` shows that merging the blocks of the events in the order of the list agrees with it and that merging in
completion or reverse order does not. With failing events it also decides which failure is reported: the first one in the order of the list (C08, MC_Order with FAIL, order_drv, and traces with two failing callbacks). C02 includes parallel rendering under the scheduler.
Initialisation also runs with failing allocations.
A test sees one schedule per run and cannot tell a lost wake up from a slow machine.

### C10 task pool (Pool, MC_Pool, TracePool; harness/pool_drv.c; 30 s)
`Pool` is a fifo with once-only execution and visible results, `MC_Pool` the implementation at the level of mutex and condition variable with spurious wakeups, safety and liveness under fairness.
Traces do not show internal steps; TLC searches for an explanation of the trace (non-deterministic validation).

### C11 to C13 convolution, filters, moving average (Convolve, MC_Convolve, MC_Average; harness/conv_drv.c; 10 to 30 s)
Convolution is specified as a register of pending contributions per future position, so changing impulse responses are part of the definition. The model contains the carryover algorithm.
Signals and impulse responses are integers, for which fast convolution is exact after rounding. All divisions of small signals into segments, random larger ones, sequences of changed parameters, failing impulse response functions. Averages as wide as the segments; segments and impulse responses of more than 255 and 65535 values.

### C14 wave events (Wave, MC_Wave), C15 noise events (Noise, MC_Noise) (10 to 60 s)
Closed forms over time; the models show that an oscillator with kept phase and the division of ranges into resolution sized parts arrive at them for all divisions.
Integer waveforms make wave samples exact. Noise is compared between divisions, with bounds, and with the filtered white noise in fixed point. Channel defaults are part of both. Channel count limits 1 to 3 are compiled. Long events (more than 65535 positions) are rendered in blocks and compared at recorded windows, waveforms are up to more than 65535 values long, and first blocks are so long that frequency times length exceeds 32 bits. Amplitudes are also zero and negative: a silent channel is still the source of others.

### C16 paths (Path, MC_Path; 30 s)
Lines exactly in fixed point, curves by bounds, monotonicity, side and middle. MC_Path: the remembered segment never changes which segment a position is read from, for all sequences of reads. Ends of curves, positions at the upper end of the time and value range, paths with hundreds of segments. Scaled copies with fractional points.

### C17 wav files (File, MC_File), C18 render (Render, MC_Render), C19 failures (Fault, MC_Fault)
File: one file as sequence of written frames and a handle; every byte of the header is checked; every nth I/O operation fails in turn. Files made by the driver with other chunks, also of more than 65535 bytes, before the data are read. Render: block algorithm over the timeline with every operation failing.
Fault: ownership of each allocation and file through a call; for each of the listed calls every allocation and file operation fails in turn (complete over single failures), then the objects are freed and the call is repeated. Defective variants of the protocol
(not freeing temporaries, freeing what the caller owns, swallowing a failure, ..) are rejected by TLC, which shows that the rules are not vacuous.

### C20 arrays (Arrays, MC_Sort), C21 enumerations (Comb, MC_Comb), C22 random (Words, Random, MC_Random), C23 statistics (Stat, MC_Stat)
Definitions as TLA+ operators, evaluated by TLC on recorded arguments and results; all small arrays plus random large ones; address sanitizer for bounds. MC_Sort is the partitioning algorithm with an invariant that all
reads are inside (it found the read before the array before the implementation was run). 64 bit generators are specified on sequences of bytes (Words), bit exact. C22 takes 150 s because of this.
Series of up to some 65536 results are checked in runs (each step against the increment that defines it). Bounded draws use ranges to 2^32 and compare with the definition on 64 bit products. Samples can be infinite where operations only select or limit values.
Statistics also include large values with small differences, where one pass formulas lose the result. Completeness of permutations and compositions is decided on the whole recorded series.

### C24 oscillators and conversions (Osc, Trig, MC_Osc, MC_Trig), C25 Fourier transform, C26 frequency responses (Spectrum, MC_Spectrum)
Sines read from the tables of sp_initialize, with amplitude and frequency modulation, kept phases and frequencies longer than the table, are compared with the phase accumulated by definition.
Real functions in fixed point against a cosine table whose defining identities are checked by MC_Trig. 32 bit times are pairs of 16 bit, so all values including the limits are decided exactly.
MC_Spectrum is the radix 2 algorithm on Gaussian-like small sizes. Dense transforms to length 40, few values to 1025, and selected results to length 200000. Transforms of all residue classes of lengths are checked with the circular convolution of sparse signals. Responses at up to 50 frequencies per filter.

### C27 blocks and lists (Blocks, MC_Blocks), C28 containers, strings, directories (Tools, MC_Tools), C29 plots (Plot, MC_Plot)
Large sizes: strings to 70000 characters and joins of 300 strings (as runs of characters), arrays, queues and registers of 70000 elements, directories to depth 130, long plot series and many plots in one process, sums of long arrays, lists of hundreds of blocks.
Pointer algorithms are modelled (links of lists and queues) and single step faults of the models have to be rejected. Recorded random operation sequences are validated.

## Why TLA+ is the oracle here
The specifications are not transcriptions: results are specified by definition (sums over positions, registers of contributions, sets of words), the algorithm models are separate and are shown to
arrive at them. Traces of the implementation are only compared with the definitions, so refactoring the code does not disturb a check.

## Excluded
* gnuplot itself, only declared functions (sp_block_to_file, sp_envelope_scaled_c3/4/5, state variable filters).
* rendering events with state (wave phases, noise) from a start after their begin: such events are generated consecutively from their start.
* prepare functions that change the event's end in sp_seq_parallel, or shorten it to before the current block; zero length events; adding to a reversed list; order of events with equal start.
* more than sp_channel_count_limit channels; wave phases beyond the waveform; noise without a used first channel; sp_phase and times arithmetic that overflow by definition; bounded draws with range 0; skewness and kurtosis without deviation.
* wav: odd sized chunks (RIFF puts a pad byte behind them, which sp_file_open_read does not skip: by reading the code, files with such a chunk before the data are rejected or misread; found late, neither demonstrated in the check nor repaired), trailing chunks, fmt sizes other than 16, more than 255 channels, more than 4 GB; failing fseek.
* paths: horizontal curved segments, nested paths at fractional positions, re-using prepared arcs; curved segments need not pass exactly through their start. spline_path_path falls back to a constant when malloc fails. sp_times_select_random ignores failures of random_binary.
* the `.sc` sources from which the C files were generated are not changed by the fix commits: the C files are what is built.

## False alarms that were corrected
C16 direction of curvature and harness that prepared segments twice; C24 tolerance of sinc for large arguments; C28 dirname of "//"; C20/C23 rules for arguments the documentation excludes. C18 rendering ranges that start after the begin of a wave; C28 harness macro without braces. All in the machinery, the code was right.

## Genuine defects
Repaired in /repo with one commit each, listed in known_findings.txt. Not repaired: sp_stat_times_center counts the first value twice, and the project's own test expects that value (C23).
sp_noise_event_prepare draws its seed from the random state that all threads share; when noises are prepared by different workers of sp_seq_parallel, the draws race and which
noise gets which seed depends on the schedule (C07). A lock would not make the result independent of the schedule and the state is part of the public interface, therefore it is recorded and not repaired.
Only races whose address is in that state are accepted as this finding, all other races are violations.

## Planted bugs
`tools/planted/batch*.py` contain them with demonstrations, `tools/seed.py new` verifies and writes them to seeded/, `tools/seed.py run` runs the check of the property. Misses that led to stronger checks:
c01-stale-generate (prepare that sets another end), c04-group-end (groups with a start before members are added), c05-free-twice (events used and freed without a list), c25-square-overflow (long transforms), c26-even-length (narrow transitions), c21-count-16 (series of more than 65535 results), c22-bounded-float (ranges above 2^24), c24-group-pointer (status groups that are equal strings at other addresses),
c18-many-blocks (more blocks than a 16 bit counter has), c07-block-16 (samples per position), c14-phase-16 (long waveforms), c17-chunk-16 (long chunks before the data), c16-scaled-truncated (fractional scaled points),
c02-signed-end (events longer than half of the range of times), c15-muted-first (channels with amplitude zero), c20-limit-negative-values (infinite samples), c24-lfo-table (sines from tables with frequency modulation),
c07-merge-order (Order.tla: values for which the order of floating point additions is visible), c09-count-late (allocations that fail during initialisation), c13-shared-edge (the input as its own neighbour),
c22-discrete-unique-contains (more unique choices than eight), c23-one-pass (large offsets), c08-main-thread (which of several failures is reported), c14-phase-product (long first blocks), c02-parallel-late (lifecycle in sp_seq_parallel, which only C07 noticed),
and earlier ones on channel defaults, shuffling distributions and header sizes. `tools/mutants.py` additionally makes single line changes in all lines that the scenarios reach (found with VERIF_COVERAGE=1 and gcov) and lists those that no check notices. `tools/refactor.py` applies a larger set of edits that keep the behaviour (helpers extracted, loops rewritten, conditions inverted, statements reordered) to a copy; all checks are quiet on it.

| planted bug | property | what it breaks |
|---|---|---|
'''
import os
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%d)); body+="| %s | %s | %s |\n"%(d,m['property'],m['what_it_breaks'].replace('|','/'))
body+="\nAll of them are caught by the check of their property.\n"
open('/verif/DESIGN.md','w').write(head+body)
