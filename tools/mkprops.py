#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that long lines stay reviewable)."""
import json, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Resampling conserves every weight sum and loses, reorders or alters no event",
  "For every event sample, seed strategy, cell-size limit, neighbour search and number of worker threads, resampling returns exactly the input events, in the same order, with unchanged ids and momenta. The sum of each weight channel over all events is unchanged up to floating-point rounding, and no weight becomes NaN or infinite. Events that are in no cell keep bit-identical weights.",
  ["schedules", "inputs", "configurations"],
  "All interleavings of the worker threads that build and average overlapping cells, over generated event samples (1-3 weight channels, zero and tied weights, empty samples) and all strategies, cell limits, searches and pool sizes 1-8.",
  "The only end-to-end test resamples one file on whatever schedule the machine happens to produce and checks no weight at all; lost updates between overlapping cells need a preemption inside the lock window.",
  ["src/resampler.rs", "src/cell.rs", "src/event.rs"],
  [("Cell::resample locks all members, writes the mean", "src/cell.rs"), ("parallel loop over seeds", "src/resampler.rs: Resampler::resample")],
  ["return value of Resample::resample", "weights of the returned events"],
  [("Event::weights", "per-event lock around the weight vector", "src/event.rs")])

p("C02", "Concurrent cells act atomically, as if resampled one after another",
  "Whatever the interleaving of worker threads, the final weights of all events are those obtained by taking the cells that were constructed one at a time, in some order consistent with when each was built, and replacing each weight channel of all members by the mean over the cell. No averaging ever starts from or leaves behind a half-averaged other cell, and a cell observer sees each constructed cell exactly once, after its members were averaged.",
  ["schedules", "histories"],
  "All interleavings of 2-8 workers building overlapping cells; the recorded history of (cell started, cell observed) pairs is checked against a sequential averaging model by searching for a linearisation.",
  "Unit tests never run two cells concurrently under a controlled schedule; a released or missing lock shows only when another worker is scheduled in between.",
  ["src/cell.rs", "src/resampler.rs", "src/event.rs"],
  [("write_lock_weights: all member locks held during averaging", "src/cell.rs"), ("observer called after resample", "src/resampler.rs")],
  ["ObserveCell callback", "weights of returned events"],
  [("Event::weights", "per-event RwLock", "src/event.rs")])

p("C03", "Every cell is its seed plus its nearest neighbours within the size limit",
  "Every constructed cell consists of its seed and a gap-free set of the seed's nearest neighbours under the chosen distance, none farther away than the maximum cell size, and its reported radius is the distance from the seed to its farthest member. Growth stops as soon as the accumulated weight is non-negative and otherwise only when no eligible neighbour is left. This holds identically for tree and naive search, for user-defined distances including infinite ones, and while other threads are changing weights.",
  ["schedules", "inputs", "configurations"],
  "Samples from 1 to above the parallel tree-building threshold (1000 events), generated metrics and pseudo-metrics with ties and infinities, both searches, all limits, pool sizes 1-8, all interleavings of tree building, search and averaging.",
  "No test looks inside a cell; parallel tree construction only starts at 1000 events and stale weights are only read under contention.",
  ["src/cell.rs", "src/vptree.rs", "src/neighbour_search.rs", "src/distance.rs"],
  [("Cell::new growth loop", "src/cell.rs"), ("VPTree parallel construction and NearestNeighbourIter", "src/vptree.rs"), ("NaiveNeighbourSearch", "src/neighbour_search.rs")],
  ["ObserveCell callback (Cell::iter, radius, weight_sum)"])

p("C04", "One worker thread reproduces the sequential cell-resampling algorithm",
  "With a single worker the result equals the sequential algorithm: visit the events that start with negative weight in the order of the chosen strategy, skip a seed whose weight is no longer negative, otherwise build its cell and average it. With unlimited cell size and a non-negative weight total, no negative weight is left. The result does not depend on how the run is scheduled or on the neighbour search used.",
  ["schedules", "inputs", "configurations"],
  "Generated samples with distinct distances, all three strategies, optional cell-size limits, both searches, the single worker being in the global pool or in an installed pool and preempted against the submitting thread anywhere.",
  "The existing test has no expected weights at all; the strategy order and the skip rule are never asserted.",
  ["src/resampler.rs", "src/seeds.rs", "src/cell.rs"],
  [("StrategicSelector::select_seeds", "src/seeds.rs"), ("skip of non-negative seeds", "src/resampler.rs"), ("Cell::new / Cell::resample", "src/cell.rs")],
  ["weights of returned events", "ObserveCell callbacks in order"])

p("C05", "Resampling and reading always terminate: no deadlock, livelock or stall",
  "For every sample and every schedule, with any worker stalled for a while, futex wake-ups delivered late, spuriously or to any waiter, resampling and the whole program finish within a bounded number of steps once every thread is scheduled again. No worker ends up waiting forever for event locks held by another cell.",
  ["schedules", "inputs"],
  "All interleavings of 1-8 workers with heavily overlapping cells in the strategies' worst-case orders, plus thread stalls and spurious wake-ups, for the library loop and for the complete program.",
  "A lock-order inversion between cells deadlocks only when two particular workers interleave; tests run one uncontrolled schedule.",
  ["src/cell.rs", "src/resampler.rs", "src/cres.rs"],
  [("members sorted before locking", "src/cell.rs: Cell::resample"), ("in_place_scope_fifo joins all conversions", "src/cres.rs: read_events")],
  ["process exit / return of Resample::resample"],
  [("RwLock per event", "taken in index order", "src/event.rs")])

p("C06", "Every event record reaches its output file exactly once, only weights changed",
  "For every set of HepMC2, LHEF or STRIPPER XML input files in any compression, a successful run writes, for each input file, an output file of the same name holding the same header and every record exactly once and in the original order, identical, white space included, except for the weight entries. Inputs made of several concatenated gzip, bzip2 or zstd streams are read completely. The weight written to each record is the resampled weight of that very event, in every requested weight channel, and events without identified particles keep their weights. This holds for every thread count and every completion order of the parallel event conversion.",
  ["schedules", "inputs", "configurations"],
  "Generated multi-file inputs, mixed formats and compressions in and out, named extra weights, events without particles, empty files, pool sizes 1-8, all completion orders of the conversion tasks; the expected weights come from an independent reference pipeline.",
  "The one end-to-end test only checks that the run does not fail; it never opens the output file.",
  ["src/cres.rs", "src/io.rs", "src/hepmc2.rs", "src/lhef.rs", "src/stripper_xml.rs", "src/bin/main.rs"],
  [("ids assigned by record position, weights indexed by id", "src/cres.rs"), ("CombinedFileIO switches files in order", "src/io.rs"), ("in-place weight replacement", "src/hepmc2.rs, src/lhef.rs, src/stripper_xml.rs")],
  ["output files on the simulated disk", "exit status"])

p("C07", "Success is reported only if the complete output has reached the disk",
  "If a failing write, file creation or directory creation leaves any output incomplete, at whatever point, including the very last buffered bytes and the end of a compressed stream, the program exits with failure. Short and interrupted writes are retried and leave no trace in the output. Whenever success is reported, every output file decodes completely with a standard decoder of the chosen compression and is what a fault-free run writes.",
  ["fault_sequences", "configurations"],
  "Every write, open and mkdir of the run as fault point, with ENOSPC, EIO, EINTR, short writes, permanently or once, and a full disk after any number of bytes; all formats and compressions; resampling, partitioning and classification.",
  "Tests run on a healthy disk; the interesting failures happen when buffered data is flushed after the last explicit write.",
  ["src/compression.rs", "src/hepmc2.rs", "src/lhef.rs", "src/stripper_xml.rs", "src/io.rs", "src/bin/partition.rs", "src/bin/classify-events.rs"],
  [("compress_writer", "src/compression.rs"), ("finish_weight_update", "src/traits.rs, src/io.rs"), ("write_footer", "src/bin/classify-events.rs")],
  ["exit status", "output files on the simulated disk"])

p("C08", "Read faults are reported and never silently change or drop events",
  "A failing read or open of an input never silently drops, repeats or alters an event: the program exits with failure, or its outputs are exactly those of a fault-free run. A compressed input that ends before its end marker, a record that is cut off or malformed in any parsed field (a number followed by other characters, an infinite or undefined momentum or requested weight), a record without one of the requested weights, or STRIPPER XML events without a usable normalisation of their channel make it exit with failure. Short reads and interrupted reads change nothing: neither the detected format nor a single output byte. An input that turns out to hold fewer or more events when it is read the second time is never reported as success.",
  ["fault_sequences", "inputs"],
  "Every open and read of the run as fault point with EIO, EINTR, ENOENT and short reads of any length, truncation of compressed inputs at any byte, corruption of a parsed field in any record, and inputs truncated between the two passes.",
  "Tests read one intact file from a healthy disk in full-size chunks.",
  ["src/io.rs", "src/hepmc2.rs", "src/lhef.rs", "src/stripper_xml.rs", "src/cres.rs"],
  [("detect_event_file_format", "src/io.rs"), ("read_raw", "src/hepmc2.rs, src/lhef.rs, src/stripper_xml.rs"), ("update_all_weights return value", "src/cres.rs")],
  ["exit status", "output files on the simulated disk"])

p("C09", "Inputs survive any run or crash, and a rerun after a crash repairs everything",
  "No run, successful, failing or killed at any point, ever modifies, truncates or removes an input file; a run whose outputs would be one of its inputs, be it through a symbolic or a hard link, or would share a name, is refused. After a crash at any point, also one that loses data not yet on stable storage, repeating the same command produces exactly the output files of an uninterrupted run.",
  ["crash_points", "fault_sequences", "configurations"],
  "A crash before or in the middle of every file-system operation of the run, with torn last writes and optional loss of unsynced data, followed by a rerun; also output directories that coincide with the input directory and output names that collide.",
  "No test kills the program or runs it twice into the same directory.",
  ["src/io.rs", "src/bin/main.rs", "src/bin/partition.rs", "src/bin/classify-events.rs"],
  [("File::create of output files", "src/hepmc2.rs, src/lhef.rs, src/stripper_xml.rs"), ("output path = outdir / input file name", "src/bin/main.rs")],
  ["input and output files on the simulated disk after the crash and after the rerun"])

p("C10", "Unweighting keeps the weight sum and the keep, promote, discard rules",
  "For every stream of random numbers, unweighting leaves events with |weight| above the threshold in place, keeps an event below the threshold exactly if its random draw falls below |weight|, promotes kept ones to the threshold and rescales all kept events by one common factor so that the sum of central weights is unchanged (unless the kept weights cancel exactly); all weight channels of an event are scaled alike. The written output agrees: events discarded by unweighting carry zero weight, so the written weights have the original sum. A threshold of zero changes nothing.",
  ["inputs", "schedules", "histories"],
  "Arbitrary random-number streams (including extreme draws) behind the unweighter's RNG parameter, generated weights on both sides of and equal to the threshold, and complete runs with unweighting enabled on any schedule.",
  "No test exercises unweighting; the outcome depends on the random stream, of which tests sample none.",
  ["src/unweight.rs", "src/cres.rs"],
  [("Unweighter::unweight", "src/unweight.rs"), ("weights vector indexed by id", "src/cres.rs: Cres::run")],
  ["return value of Unweight::unweight", "weights in output files"])

p("C11", "With one thread the output is a function of inputs and options only",
  "Running the resampling program with one worker thread on the same inputs and options gives byte-identical output files, whatever the clock, operating-system randomness, chunk sizes of reads and writes, log level, terminal and scheduling between the main thread and the worker do.",
  ["schedules", "configurations", "fault_sequences"],
  "Pairs of runs that differ in every source of nondeterminism the simulator owns: clock values and jumps, getrandom, scheduling, short reads and writes, EINTR, log level, terminal, CPU count.",
  "A test on one machine sees one clock, one schedule and one chunking.",
  ["src/cres.rs", "src/resampler.rs", "src/bin/main.rs", "src/unweight.rs"],
  [("par_sort by id", "src/cres.rs"), ("seeded Xoshiro256Plus", "src/bin/main.rs")],
  ["output files on the simulated disk"])

p("C12", "Partitioning does not depend on thread count or schedule",
  "For given inputs and options, the partitioning program writes the same partition for every number of threads and every schedule. The partition has exactly the requested number of regions, each bisection is centred on one of the negative-weight events and splits what is left of its region at the median distance, and a request that the negative-weight events cannot support is refused with an error message instead of a crash.",
  ["schedules", "inputs", "configurations"],
  "Generated samples, region counts 1-16 from too many to plenty, pool sizes 1-8, all interleavings of the parallel tree construction (in-process above its 1000-event threshold).",
  "There is no test of partitioning; parallel construction needs at least 1000 events and a controlled schedule.",
  ["src/bin/partition.rs", "src/partition.rs", "src/vptree.rs"],
  [("VPTree::from_par_iter_with_dist_and_depth", "src/vptree.rs"), ("guard on number of events", "src/bin/partition.rs")],
  ["partition file", "exit status"])

p("C13", "Classification puts each record into exactly one well-formed region file",
  "Classifying event files with a partition writes, per input file, one file per region; every record appears unmodified in exactly one of them, in the region the partition assigns to it, in input order, and each region file is a complete file of the same format that can be read back. No input is overwritten. If reading or writing fails at any point, the program exits with failure.",
  ["fault_sequences", "inputs", "configurations"],
  "Generated inputs of all formats and compressions, partitions produced by the partitioning program, every write, read and open as fault point.",
  "There is no test of classification at all.",
  ["src/bin/classify-events.rs", "src/partition.rs"],
  [("classify_byte_records", "src/bin/classify-events.rs"), ("VPTreePartition::region", "src/partition.rs")],
  ["region files on the simulated disk", "exit status"])

p("C14", "The C interface reports every failure, contains panics and isolates threads",
  "A call through the C interface returns zero exactly if the run succeeded, returns non-zero on every failing input, disk fault or panic inside, and never unwinds into the caller. The error message of a failed call can be retrieved completely on the calling thread, in buffers of any size, without out-of-bounds writes, and is neither visible to nor overwritten by other threads. A failed call leaves the library usable: no file stays open and the next valid call succeeds.",
  ["schedules", "fault_sequences", "histories"],
  "Sequences of valid and failing calls from several caller threads under all interleavings, with disk faults, unreadable inputs, panics provoked inside the library and message buffers of every length.",
  "There is no test of the C interface.",
  ["src/c_api/cres.rs", "src/c_api/error.rs"],
  [("catch_unwind and LAST_ERROR thread local", "src/c_api"), ("cres_get_last_err", "src/c_api/error.rs")],
  ["return codes and buffers of the extern C functions", "output files"])

p("C15", "Distance callbacks of the C interface see the true events and drive the result",
  "A distance function registered through the C interface is called, from however many threads, with views that show exactly the particles, momenta and weights of the two events, and with the user data pointer's calls never mixed up. The result of the run is what the same run with the same distance in Rust produces.",
  ["schedules", "inputs"],
  "Generated events with one or several weights, callbacks that validate each view against the sample, pool sizes 1-8, all interleavings with concurrent weight updates.",
  "There is no test of the C interface; the view is built from raw pointers into data other threads modify.",
  ["src/c_api/distance.rs", "src/c_api/event.rs"],
  [("EventView / TypeSetView raw views", "src/c_api/event.rs"), ("DistanceFn adapter", "src/c_api/distance.rs")],
  ["arguments of the callback", "output files"])

p("C16", "Cell statistics do not depend on how many threads collected them",
  "The cells kept by a cell collector are always the overall largest by radius, by number of members and by weight, plus the first and a random selection, and each kept cell lists its true members. This holds no matter how many worker threads observed the cells, how they interleaved, and whether the collector is used for one run or several.",
  ["schedules", "histories"],
  "Samples whose cells are schedule independent, 1-8 workers, all distributions of cells over workers, one or several resamplings with one collector.",
  "Per-thread statistics are only combined when more than one worker observed cells, which no test arranges.",
  ["src/cell_collector.rs", "src/resampler.rs"],
  [("CellCollector::collect / combine", "src/cell_collector.rs"), ("thread-local observers combined in finish", "src/resampler.rs")],
  ["CellCollector::event_cells", "DefaultResampler::cell_collector"])

p("C17", "Combined event I/O behaves like one long event sequence in any call history",
  "In any sequence of reading the next event, rewinding, asking for size hints, updating the next event's weights and updating all weights, a combined reader over any number of files (also none, or empty ones) behaves like a single sequence of records: reads and updates proceed in order across file boundaries, rewind restarts at the first record of the first file, and the end is signalled without panicking, however often it is reached. Reading errors are returned as errors, and after a rewind everything is readable again. After all records have been updated in order from the start, every output file is complete and holds the new weights.",
  ["histories", "fault_sequences", "inputs"],
  "Generated histories of up to about 20 calls over 0-4 files of mixed formats, with transient read and open errors in between, checked call by call against a list model.",
  "Tests call only the one fixed sequence the program uses.",
  ["src/io.rs", "src/hepmc2.rs", "src/lhef.rs", "src/stripper_xml.rs"],
  [("CombinedFileIO: Iterator, Rewind, UpdateWeights", "src/io.rs"), ("EventFileReader rewind", "src/hepmc2.rs, src/lhef.rs, src/stripper_xml.rs")],
  ["return values of next / rewind / update_next_weights / update_all_weights", "output files"])

p("C18", "Progress display never swallows log output or outlives a failed run",
  "Whatever happens during a run, success, an input error, a disk fault or an early return, once the operation that showed progress is over the log level is what it was before, so that later messages, in particular error reports, reach the log. Progress display never changes results or blocks workers.",
  ["schedules", "fault_sequences", "histories"],
  "Sequences of successful and failing runs in one process with progress display enabled, with faults at any file operation, all interleavings of workers advancing the progress display, and any clock behaviour including jumps.",
  "Tests run one successful run and do not look at the log.",
  ["src/progress_bar.rs", "src/cres.rs", "src/io.rs", "src/resampler.rs"],
  [("ProgressBar changes the global log level while active", "src/progress_bar.rs")],
  ["log::max_level()", "captured standard error"])

p("N01", "Event distance is a symmetric pseudo-metric invariant under particle order",
  "The built-in event distance is symmetric, non-negative, zero for identical events, independent of the order in which particles are listed, and obeys the triangle inequality.",
  ["inputs"], "All pairs and triples of events.",
  "The existing tests do not compute a single distance; the quantifier is over all inputs.",
  ["src/distance.rs"], [("EuclWithScaledPt", "src/distance.rs")], ["Distance::distance"])
p("N02", "Clustering is infrared and collinear safe and independent of particle order",
  "Clustered jets, dressed leptons and isolated photons do not depend on the order of the particles and are unchanged by soft emissions and collinear splittings.",
  ["inputs"], "All particle configurations.",
  "The quantifier is over all real-valued inputs.",
  ["src/cluster.rs"], [("DefaultClustering::cluster", "src/cluster.rs")], ["Clustering::cluster"])
p("N03", "ROOT ntuple input and output keeps every event",
  "Resampling and classifying BlackHat ROOT ntuples keeps every event and changes only weights.",
  ["inputs", "fault_sequences"], "All ntuple files and disk faults.",
  "The feature needs the ROOT library, which the test environment lacks.",
  ["src/ntuple.rs"], [("FileIO", "src/ntuple.rs")], ["output ntuple"])
with open(sys.argv[1], "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
