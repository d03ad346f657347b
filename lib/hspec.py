"""What the bounded harness does per property (numbers are measured at run time)."""
SPEC = {
 "C01": {"rule": "random samples of events (1 to 60 events, integer and real momenta, integer, fractional, tied, zero and widely spread weights, 1 to 8 threads, all strategies, both searches) resampled; non-trivial: at least one cell with more than one member"},
 "C02": {"rule": "random cells over random events, resampled sequentially and concurrently with shared members; non-trivial: cell with more than one member"},
 "C03": {"rule": "random events, seeds and maximum cell sizes, growth recomputed by an independent oracle; non-trivial: cell with more than one member"},
 "C04": {"rule": "random point sets (integer metrics with ties, duplicates, limits exactly at a distance), both searches against brute force; non-trivial: at least one neighbour"},
 "C05": {"rule": "trees for every number of points up to a bound and every depth, sequential and parallel; non-trivial: at least two points"},
 "C06": {"rule": "random pairs of events, distance against all permutations; non-trivial: at least two momenta of one type", "assumptions": ["events are built by EventBuilder, so that types come in strictly descending order (proved under C07)", "permutohedron::next_permutation enumerates the distinct arrangements in lexicographic order; pathfinding::kuhn_munkres_min returns the least total weight of an assignment", "particle ids are above -2^31"]},
 "C07": {"rule": "random particle lists in random order; non-trivial: a particle id given more than once"},
 "C08": {"rule": "random weights with ties and zeros; non-trivial: at least one negative weight"},
 "C09": {"rule": "random weighted events (ties with the threshold, zeros, sums that cancel, several weights), random thresholds, random-number streams constant at either end, alternating or pseudo-random, 1 to 4 threads; non-trivial: at least one event below the threshold"},
 "C10": {"rule": "random points and depths, regions recomputed from the tree; non-trivial: depth at least one"},
 "C11": {"rule": "random sequences of up to 25 records run through Cres::run on one to eight threads, with several weights, records without particles, records discarded by the unweighter, converters that finish out of order, resamplers that reorder and change weights, wrong size hints, and failures injected in reading, converting or clustering; the weights passed to the writer compared by position; non-trivial: at least two records took part", "assumptions": ["trait contracts: a resampler returns the events it was given, in any order, each with at least one weight; an unweighter returns some of the events it was given; converters and clustering return any event or an error", "rayon::scope runs every spawned closure before it returns; each closure pushes into a shared list under a mutex, and the list arrives in any order", "logging is off (log statements are not followed)"]},
 "C12": {"rule": "up to four files of up to five records in each format and mixed, with empty files, several weights, compressed inputs and outputs, STRIPPER normalisation files at any position, and random sequences of reading, rewinding, updating all weights or one at a time (with too few and too many weights) and finishing; records, size hints and every byte of the outputs compared; non-trivial: more than one file and more than one record", "assumptions": ["a single file delivers its records in order and then none, and writes the header, then a record per weight (its formats are C13 and C14)", "output files are distinct from each other and from the inputs", "fewer than 2^31 files and fewer than 2^60 records; size hints of single files are bounds below 2^31"]},
 "C13": {"rule": "generated HepMC2 files (random numbers of states, weights, named weights, vertices and particles of all statuses, both units, with and without final newline, footers, compressed inputs and outputs) updated with random weights for random selections of names; every byte of the output compared with the input outside the weights, outputs read back and parsed; broken records parsed; non-trivial: the record has particles", "assumptions": ["a number formatted and parsed again is the same number (std's shortest representation); numbers are parsed by fast-float", "nom's combinators and leaf parsers, and the search and splitting functions of str, as specified", "fewer than 2^60 bytes per file; the first read of a file delivers at least its first 64 bytes"]},
 "C14": {"rule": "generated LHEF and STRIPPER XML files (random spacing, headers, numbers of events and particles, trailing text, several contributions and normalisation files, several files per contribution) updated with random weights; every byte of the output compared with the input outside the weight, outputs read back and parsed; broken records parsed; non-trivial: the record has particles", "assumptions": ["a number formatted and parsed again is the same number (std's shortest representation); numbers are parsed by fast-float", "nom's combinators and leaf parsers, and the search and splitting functions of str, as specified; quick-xml reads the header of a STRIPPER file", "the scaling of a STRIPPER file is not zero", "fewer than 2^60 bytes per file; the first read of a file delivers at least its first 64 bytes; a STRIPPER file does not contain more events than its header says; a contribution has fewer than 2^63 events"]},
 "C15": {"rule": "random events of up to 40 particles of all kinds (partons, all hadrons of the particle table, leptons, neutrinos, photons, others) clustered with random jet, lepton and photon definitions; the expected event is put together independently, with jetty for the jets; non-trivial: at least one jet and one other particle", "assumptions": ["what else is in the cone around a photon is not spacelike along the beam (true for physical momenta; otherwise the square root in is_isolated panics in debug builds)", "particle ids are above -2^31", "jetty clusters as specified: every inclusive jet is offered to the selection, delta_r is some function of two momenta"]},
 "C16": {"rule": "cells grown around random seeds distributed over one to three collectors that are then combined in either direction, and repeated runs of the complete resampler on up to four threads with one collector; ties and distinct values; non-trivial: more than ten cells"},
 "C17": {"rule": "cres_get_last_err with canaries around buffers of every length around that of the message, with and without an error; user distance functions that compare every field of both views with the events; events to views and back; cres_run with missing files, malformed files, null-free bad settings and a user distance that panics; non-trivial: an error is present, or the event has particles", "configs": ["multi"], "assumptions": ["lifetimes of raw pointers are not tracked: a pointer stays valid (bounds are checked)", "error messages are shorter than 2^31 - 1 bytes (what the return value can express)", "the caller's pointers satisfy the documented requirements (at least buflen bytes; weights, type sets and momenta as counted)", "what cres_run does inside the panic barrier is arbitrary (any result or panic); aborts are outside"]},
 "C19": {"rule": "random sequences of operations on four-momenta; every operation counts as non-trivial once per distinct input"},
 "C18": {"bin": "options", "rule": "command lines with random settings built from supported values, mutations of them in case, spelling, length and level, and all levels around the limits, given to the parsers of all three tools and to the built executables; non-trivial: the value is accepted"},
 "C20": {"configs": ["multi"], "budget": 15, "rule": "random event files of all three formats (with and without events, with footers with and without trailing space), random partitions with one to many regions and random output compression given to the built executable; the outputs decompressed and put together from the records whose region is recomputed from the partition file; non-trivial: more than one region receives an event"},
}

TECH = "contracts on the real functions (MIR of the current tree), verification conditions discharged by z3"
CLAIMED = {
 "C01": {"technique": TECH, "note": "Resampler::resample, Cell::new, Cell::resample and the weight arithmetic are proved to return the same events with the total of an arbitrary weight unchanged, for every sample, selector, neighbour search and observer allowed by their trait contracts; real arithmetic. The seeds are treated one after the other in the proof (serialisable because of the two-phase locking proved under C02)."},
 "C08": {"technique": TECH, "note": "StrategicSelector::select_seeds is proved for every list of events and every strategy, with sorting and filtering of the standard library by contract."},
 "C02": {"technique": TECH, "note": "Cell::resample and the weight arithmetic it calls are proved against their contracts for every cell, number of members and weights, in real arithmetic; lock contents may change arbitrarily until all members are locked (interference)."},
 "C03": {"technique": TECH, "note": "Cell::new is proved to grow exactly as stated for every neighbour sequence allowed by the trait contract of NeighbourSearch::nearest; real arithmetic. The settings given to the default resampler and its builders are proved to reach the resampler that runs."},
 "C04": {"technique": TECH, "note": "VPTree::nearest_in_subtree (recursive, with pruning and distance cache), nearest_in_impl, the neighbour iterators of the tree and of the naive search, and both ways to start a search are proved for every set of points, every metric, every maximum distance and every history of earlier results; real arithmetic, so rounding in the triangle inequality is outside."},
 "C05": {"technique": TECH, "note": "build_tree, par_build_tree and all constructors are proved to return a complete bisection tree over a permutation of the points, for every number of points, distance and depth; sorting, swapping and splitting of the standard library by contract."},
 "C07": {"technique": TECH, "note": "EventBuilder::build and the helpers it calls (compress_outgoing, the adders, rescaling) are proved to give every added outgoing particle exactly once, under its particle id, ids in strictly decreasing order and no group empty; sorting of the standard library by contract."},
 "C09": {"technique": TECH, "note": "Unweighter::unweight, Event::rescale_weights and Event::weight are proved for every list of events, threshold and random-number stream, with Vec::retain and rayon's for_each by contract; real arithmetic, so rounding and overflow of the factor are outside."},
 "C10": {"technique": TECH, "note": "VPTreePartition::region, len, into_tree and the conversion from a complete tree are proved for every tree, event and distance; the command line tool around them is covered by the bounded harness only in part."},
 "C06": {"technique": TECH, "note": "distance, set_distance, min_paired_distance (naive and by assignment), paired_distance, pt_norm and pt_dist are proved to return the sum over all particle types of the least total distance over all pairings with padding, for every pair of events and every transverse-momentum weight; symmetry, positivity and vanishing for equal momenta in any order are lemmas about that sum. The enumeration of permutations (permutohedron) and the assignment algorithm (pathfinding) are dependencies by contract. Real arithmetic with an exact square root."},
 "C11": {"technique": TECH, "note": "read_events and Cres::run are proved for every sequence of records, every order of parallel conversion, and every converter, clustering, resampler and unweighter allowed by their trait contracts: the weights written at position k are the final weights of the event read at position k, zero if it was discarded, the input weights if it has no particles; an error in reading, converting or clustering gives an error."},
 "C12": {"technique": TECH, "note": "All functions of CombinedFileIO (construction, reading, rewinding, size hints, updating all or the next weights, finishing) and the building of it from a list of files are proved for every number and size of files and every history, over a contract for one file's reader and writer; ghost state records what is written where."},
 "C13": {"technique": TECH, "note": "The record splitter (read_raw, init_source), opening and rewinding, the splice of the central weight, the iterators, the writer of the next record (update_next_weights, when no named weights are wanted), format detection and the dispatch of opening and parsing to the detected format, the splice of named weights (update_named_weights), extract_weights, the line parsers (particles, units, weight names, leading entries of the event line) and the parser of complete records (parse_hepmc: every outgoing particle with id and momentum in GeV, central and wanted weights in order, acceptance exactly of valid records) are proved for every file, every record and every weight. Writing a whole file with named weights is covered by the bounded harness only."},
 "C14": {"technique": TECH, "note": "The record splitters of both formats, opening and rewinding, the search for the weight entry, the splice of the weight, the rescaling of STRIPPER weights on reading and writing, the iterators, the writer of the next record and of the end tag, format detection and the dispatch of opening and parsing to the detected format, and the parsers of complete records (weight and exactly the outgoing particles) are proved for every file, every record and every weight. So is the normalisation of STRIPPER files over all input files (extract_scaling); the first tag of a file as read by quick-xml is taken by contract."},
 "C15": {"technique": TECH, "note": "DefaultClustering::cluster, is_isolated, cluster() and NoClustering::cluster are proved to route every particle to exactly one place for every event and all options; jet clustering itself (jetty) and the particle tables are dependencies taken by contract, and the event is assembled through the contract of EventBuilder::build (C07). Real arithmetic."},
 "C16": {"technique": TECH, "note": "CellCollector::new, collect and combine (with truncate), and the combination of thread-local data, are proved for every sequence of observed cells, every random number stream and every combination of collectors; BTreeMap by contract. The observer that calls them from several threads is covered by the bounded harness."},
 "C17": {"technique": TECH, "note": "cres_get_last_err, cres_last_err_internal (raw pointer arithmetic with bounds obligations), cres_print_last_err, cres_run (panic barrier), cres_run_internal, cres_run_with_dist and cres_run_with (the settings given are those used), DistanceFn::distance with the views it builds, and the conversion from a view to an event are proved for every message, buffer, event and user function; raw pointers are allocations with bounds, lifetimes are not tracked. Equality of an event after a round trip follows with the contract of EventBuilder::build (C07)."},
 "C18": {"technique": TECH, "note": "parse_compr, parse_strategy, parse_nregions, validate, the parser of jet algorithms and the conversions of jet, lepton and photon settings are proved for every string and combination, with strings as uninterpreted tokens and the regular expression's groups and number parsing by contract; that the expression is the intended one is an obligation on its text. How clap routes the options to these functions is covered by the bounded harness."},
 "C19": {"technique": TECH, "note": "Every constructor and operation of FourVector is proved to keep the cached transverse momentum consistent; real arithmetic with an exact square root."},
 "C20": {"technique": TECH, "note": "Classifier::classify_byte_records, make_byte_writers, trim_footer, write_footer and get_footer are proved for every file, partition, number of regions and compression: a ghost log of all writes is the header for each region, then each record without the file's footer to the writer of its event's region in input order, then one footer for each region. Reading, converting, clustering and the region of an event are taken by contract (C10, C15); the conclusion holds if no write fails (a failure to write a footer is only logged by the program)."},
}
NOT_APPLICABLE = {}
