#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=None)))

W = ("The only end-to-end test runs one sample file through the command line entry point and checks that no error is "
     "returned; ")

prop("C01", "Resampling preserves the total of every weight",
 "Resampling a sample of events leaves the sum over all events of every weight (the central one and each additional one) "
 "unchanged up to floating-point rounding. The returned events are exactly the input events in the input order, with unchanged "
 "ids, momenta and number of weights; only weight values may differ.",
 ["inputs", "schedules", "configurations"],
 "every event sample (any number of events, weights and particles, including ties, zero weights and all-negative samples), every "
 "seed strategy, distance, neighbour search, maximum cell size, thread interleaving, with and without multiple weights",
 W + "no weight is ever inspected.",
 ["src/cell.rs", "src/resampler.rs", "src/event.rs"],
 [("averaging over the locked members", "cell.rs resample (both cfg variants)"),
  ("weight arithmetic", "event.rs Weights: AddAssign, copy_from, iter_mut"),
  ("parallel loop over seeds", "resampler.rs resample")],
 ["Resampler::resample", "DefaultResampler::resample", "Cell::resample"],
 [("weights", "per-event weights behind a lock", "event.rs Event")])

prop("C02", "Every member of a cell gets the cell mean and nothing else changes",
 "When a cell is resampled, each weight of each of its members becomes the arithmetic mean of that weight over the members of the cell "
 "(with the values they had when the cell was locked), and the weights of all events outside the cell stay untouched. "
 "Cells that share members can be resampled concurrently without deadlock, because each takes all its members' weights "
 "exclusively, each once and in one global order, before reading any of them.",
 ["inputs", "schedules", "configurations"],
 "every cell of every sample (any size, any number of weights), every interleaving of concurrent resamplings",
 W + "cells are never inspected and concurrency is not controlled.",
 ["src/cell.rs", "src/event.rs"],
 [("sorted lock acquisition", "cell.rs write_lock_weights, resample"), ("mean", "cell.rs resample"),
  ("copying weights", "event.rs Weights::copy_from, new_single")],
 ["Cell::resample", "Event::weights"])

prop("C03", "A cell is the seed and its nearest neighbours until the weight balances",
 "The cell built around a seed consists of the seed followed by its nearest other events in order of increasing distance; it grows until the accumulated "
 "central weight is non-negative or no event within the maximum cell size is left, and not further. Its reported radius is the distance of the last "
 "event added (zero for a lone seed) and never exceeds the maximum cell size, its reported weight is the sum of its members' central "
 "weights when they were added, and its reported size and number of negative-weight members match its members. Events whose weight is not negative when their turn comes never seed a cell.",
 ["inputs", "configurations"],
 "every sample, seed, distance function, neighbour search and maximum cell size",
 W + "no cell is compared with its definition.",
 ["src/cell.rs", "src/resampler.rs", "src/neighbour_search.rs"],
 [("cell growth", "cell.rs Cell::new"), ("seed filter", "resampler.rs resample closure"), ("limit", "resampler.rs max_cell_size")],
 ["Cell::new", "Cell::radius", "Cell::weight_sum", "Cell::nmembers", "Cell::iter", "ObserveCell::observe_cell"])

prop("C04", "Nearest-neighbour search is exact and ordered",
 "For every point, both nearest-neighbour searches enumerate exactly the other points whose distance does not exceed the maximum distance, each once, "
 "with its true distance and in order of non-decreasing distance, and never the query point itself. This holds for every distance that is non-negative, symmetric and satisfies the triangle inequality, including "
 "ties, duplicate points and points exactly at the limit.",
 ["inputs", "configurations"],
 "every finite point set, metric, query point and maximum distance; tree and naive search",
 W + "neighbour lists are never compared with an exhaustive search.",
 ["src/vptree.rs", "src/neighbour_search.rs"],
 [("tree descent with pruning", "vptree.rs nearest_in_subtree, nearest_in_impl, NearestNeighbourIter::next"),
  ("exclusion set and distance cache", "vptree.rs NearestNeighbourIter"), ("naive search", "neighbour_search.rs NaiveNeighbourIter")],
 ["NeighbourSearch::nearest", "VPTree::nearest_in"])

prop("C05", "Vantage-point trees keep every point and split at the median",
 "A vantage-point tree built from a list of points contains each of them exactly once. For every inner node, each point on its inside is at most, and each point on "
 "its outside at least, the node's radius away from its vantage point, and the two sides differ by at most one point, the outside never being the smaller one. "
 "Sequential and parallel construction both guarantee this, for every number of points and every depth limit, and a depth limit of n leaves no inner node below the first n layers.",
 ["inputs", "schedules", "configurations"],
 "every point list (including empty, one point, duplicates), distance function, depth limit; sequential and parallel construction around the size where parallel switches to sequential",
 W + "tree structure is never inspected.",
 ["src/vptree.rs"],
 [("median split", "vptree.rs build_tree, par_build_tree"), ("corner point", "vptree.rs find_corner_pt, par_find_corner_pt")],
 ["VPTree::seq_new", "VPTree::par_new", "VPTree::into_nodes_dist", "VPTreePartition::into_tree"])

prop("C06", "The event distance is the optimal pairing distance",
 "The built-in distance between two events is the sum, over all particle types in either event, of the minimum over all one-to-one pairings of the total distance between paired momenta, "
 "the smaller set being padded with zero momenta; the distance between two momenta is the square root of the squared spatial difference plus the squared scaled difference of "
 "transverse momenta, ignoring energy. It is therefore symmetric, non-negative and zero between events with the same outgoing momenta, whatever order the particles were given in.",
 ["inputs", "configurations"],
 "every pair of events (any types, multiplicities on both sides of the switch to the assignment algorithm) and every transverse-momentum weight",
 W + "no distance is ever compared with its definition.",
 ["src/distance.rs", "src/four_vector.rs"],
 [("merge of sorted particle groups", "distance.rs EuclWithScaledPt::distance"),
  ("minimum over pairings", "distance.rs min_paired_distance, _naive, _hungarian"), ("momentum distance", "distance.rs pt_dist, pt_norm")],
 ["Distance::distance"])

prop("C07", "Building an event groups its particles and loses none",
 "An event built from a list of outgoing particles holds exactly these momenta, grouped by particle id in strictly decreasing order of id with no empty group, independent of the order of insertion. "
 "Looking up a particle id returns exactly the momenta added with that id (none if there are none), rescaling energies multiplies all momentum components, and weights are kept in the order they were added.",
 ["inputs", "configurations"],
 "every list of particles and weights",
 W + "events are never inspected.",
 ["src/event.rs"],
 [("sort and group", "event.rs compress_outgoing"), ("binary search", "event.rs outgoing_with_pid"), ("weights", "event.rs add_weight, build")],
 ["EventBuilder::build", "Event::outgoing", "Event::outgoing_with_pid", "Event::weight"])

prop("C08", "Seeds are exactly the negative-weight events in strategy order",
 "Seed selection yields the index of every event with negative central weight exactly once and no other index. With the least-negative strategy they come in order of decreasing weight, with the "
 "most-negative strategy in order of increasing weight, and otherwise in the order of the events.",
 ["inputs", "configurations"],
 "every list of events and each strategy, including zero weights and ties",
 W + "the selected seeds are never inspected.",
 ["src/seeds.rs"],
 [("filter and sort", "seeds.rs select_seeds")],
 ["SelectSeeds::select_seeds"])

prop("C09", "Unweighting discards only small weights and preserves the sum",
 "Unweighting with threshold m keeps every event whose weight is at least m in magnitude, keeps each other event either not at all or with magnitude raised to m and unchanged sign, and finally scales all weights of all kept events by one common factor such "
 "that the sum of central weights is preserved up to rounding. Kept events stay in order with unchanged ids and momenta and with unchanged ratios between their weights; a threshold of zero changes nothing, an event of zero weight is never kept, and no event ever ends up with a weight that is not a number.",
 ["inputs", "configurations"],
 "every event list, non-negative threshold and random-number stream, including sums that cancel",
 W + "with unweighting disabled.",
 ["src/unweight.rs", "src/event.rs"],
 [("keep/discard", "unweight.rs unweight"), ("rescaling", "event.rs rescale_weights")],
 ["Unweight::unweight"])

prop("C10", "Partitions classify every event into the region the tree dictates",
 "A partition into n regions assigns every event an index below n, found by descending from the root to the inside of a bisection exactly when the distance to its vantage point is at most its radius. "
 "A tree limited to depth d over enough points yields a partition with exactly 2^d regions whose bisections are the tree's inner nodes in breadth-first order, inside child before outside child.",
 ["inputs", "configurations"],
 "every partition, event and distance; every complete tree depth",
 "Only the integer logarithm used for the depth has unit tests.",
 ["src/partition.rs", "src/vptree.rs", "src/bin/partition.rs"],
 [("descent", "partition.rs region"), ("breadth-first conversion", "vptree.rs From<VPTree> for VPTreePartition"), ("depth", "bin/partition.rs log2 and region check")],
 ["VPTreePartition::region", "VPTreePartition::len", "VPTreePartition::into_tree", "cres-partition"])

prop("C11", "Each event's final weight reaches the record it came from",
 "After a run, the weights written for the record at position k of the input are those of the event read from position k after resampling and unweighting, whatever the order in which events were converted in parallel, resampled or sorted. "
 "Records without identified particles take no part in the resampling and keep the weights they were read with, and records discarded by unweighting are written with all updated weights zero. Any error in reading, "
 "converting or clustering a record fails the run.",
 ["inputs", "schedules", "configurations"],
 "every sequence of records, every conversion order, every resampler and unweighter, one or several weights",
 W + "the written weights are not compared with anything.",
 ["src/cres.rs"],
 [("event ids", "cres.rs read_events"), ("filter of empty events", "cres.rs run"), ("scatter by id", "cres.rs run")],
 ["Cres::run", "UpdateWeights::update_all_weights"])

prop("C12", "Several files behave like one stream and stay matched to their outputs",
 "Reading from several input files yields all records of all files in order, and after rewinding yields them again from the start; size hints are bounds on the number of records left. "
 "When all or individual weights are updated, the k-th weight goes to the k-th record of that stream, into the output file that belongs to the record's input file, and every output file is completed; "
 "running out of records or of weights ends the update with the number of records updated (or with 'no further record') and without an error.",
 ["inputs", "histories"],
 "every number and size of files (including empty files and no files), every interleaving of reading, rewinding and updating, every number of weights",
 W + "with a single input file.",
 ["src/io.rs"],
 [("file sequencing", "io.rs CombinedFileIO next, rewind, update_all_weights, update_next_weights, size_hint")],
 ["CombinedFileIO"])

prop("C13", "HepMC records keep everything but their weights",
 "Writing new weights into a HepMC file changes the central weight and the requested named weights of each record and nothing else: header and every other byte of the record except spacing inside the list of weights are kept, and reading the result gives back exactly the "
 "weights written, each under its own name. Parsing a record yields its central weight followed by the requested named weights in record order, and one outgoing particle with its id and momentum for each particle of status 1, converted to GeV; records that lack a requested weight or are malformed are reported as an error.",
 ["inputs", "configurations"],
 "every HepMC2 record (any number of random states, weights, names, vertices and particles, either energy unit), every weight value and selection of names, with and without multiple weights",
 W + "the output is not read back.",
 ["src/hepmc2.rs", "src/parsing.rs"],
 [("splice of the weight entries", "hepmc2.rs update_central_weight, update_named_weights"), ("parser", "hepmc2.rs parse_hepmc, extract_weights, parse_particle_line"),
  ("record splitting", "hepmc2.rs read_raw, init_source")],
 ["hepmc2::FileIO", "HepMCParser::parse_hepmc"])

prop("C14", "LHEF and STRIPPER records keep everything but their weight",
 "Writing a new weight into a Les Houches or STRIPPER XML event file replaces the weight entry of each record and no other byte of the record or header, and reading the result gives back exactly the weight written (for STRIPPER, where weights are rescaled when read and written, up to rounding). Parsing a record yields its weight and exactly the outgoing particles with their "
 "ids and momenta; for STRIPPER files read weights are multiplied by the cross section of the matching normalisation divided by the total number of events of that contribution over all files.",
 ["inputs", "configurations"],
 "every well-formed LHEF or STRIPPER XML record, every weight value, every set of STRIPPER files",
 "No test touches these formats.",
 ["src/lhef.rs", "src/stripper_xml.rs", "src/hepmc2.rs"],
 [("splice", "hepmc2.rs update_central_weight; stripper_xml.rs rescale_weight, update_next_weights_helper"), ("parsers", "lhef.rs parse_lhef; stripper_xml.rs parse_stripper_xml"),
  ("scaling", "stripper_xml.rs extract_scaling")],
 ["lhef::FileIO", "stripper_xml::FileIO", "LHEFParser", "StripperXmlParser"])

prop("C15", "Clustering keeps identity and routes every particle exactly once",
 "Clustering an event keeps its id and all its weights. Every outgoing particle ends up in exactly one place: partons and hadrons go into the jet clustering, electrons, muons and non-isolated photons (of either charge) into the lepton dressing if that is enabled, "
 "isolated photons are kept as such, neutrinos are dropped unless requested, and everything else is kept unchanged; only jets and dressed leptons above their minimum transverse momentum are added.",
 ["inputs", "configurations"],
 "every event and every combination of jet, lepton and photon definitions",
 W + "the clustered events are not inspected.",
 ["src/cluster.rs"],
 [("routing", "cluster.rs DefaultClustering::cluster"), ("isolation", "cluster.rs is_isolated"), ("classification", "cluster.rs is_parton, is_hadron, is_clustered_to_lepton")],
 ["Clustering::cluster"])

prop("C16", "The cell collector keeps the extreme cells and the first ones",
 "After any number of observed cells the collector holds the first ten, and the ten largest by radius, by number of members and by weight (all of them if there are fewer than ten), each under its running number with the ids of its members, and a random selection of at most ten observed cells. Combining two collectors "
 "keeps the ten largest of both by each criterion, renumbering the cells of the second after those of the first, and adds up their counts.",
 ["inputs", "histories"],
 "every sequence of observed cells, every pair of collectors",
 "No test uses the collector.",
 ["src/cell_collector.rs", "src/resampler.rs"],
 [("replacement", "cell_collector.rs collect"), ("merge", "cell_collector.rs combine, truncate")],
 ["CellCollector::collect", "CellCollector::combine", "CellCollector::event_cells"])

prop("C17", "The C interface stays in bounds and shows events faithfully",
 "Asking for the last error writes at most the given number of bytes, always ends what it writes with a NUL byte, gives a prefix of the message, and returns zero exactly when the whole message fitted and otherwise the size needed. "
 "A user-defined distance function sees, for both events, the event's id, all its weights and all its particle ids and momenta, and converting such a view back into an event gives an equal event; errors and panics in a run are reported through the return value and never unwind into the caller.",
 ["inputs"],
 "every error message, buffer length, event and user distance function",
 "No test calls the C interface.",
 ["src/c_api/error.rs", "src/c_api/distance.rs", "src/c_api/event.rs", "src/c_api/cres.rs"],
 [("bounded copy", "c_api/error.rs cres_last_err_internal"), ("views", "c_api/distance.rs distance; c_api/event.rs view, from"), ("panic barrier", "c_api/cres.rs cres_run")],
 ["cres_get_last_err", "cres_run", "DistanceFn"])

prop("C18", "Option values are accepted exactly when they are supported",
 "A compression setting is accepted exactly if it names a known algorithm, in any case, with no level or one within that algorithm's limits (gzip 9, lz4 16, zstd 19, none for bzip2), and selects exactly that algorithm and level. "
 "A number of regions is accepted exactly if it is a power of two, the seed strategy and jet algorithm exactly by their documented names, and lepton and photon settings exactly if all or none of each group are given.",
 ["inputs"],
 "every option string and every combination of optional settings",
 "Only one fixed set of options is used by the tests, and it bypasses the parsers.",
 ["src/bin/opt_common.rs", "src/bin/opt_cres.rs", "src/bin/opt_cres_validate.rs", "src/bin/opt_partition.rs", "src/cluster.rs"],
 [("parsers", "opt_common.rs parse_compr; opt_cres.rs parse_strategy; opt_partition.rs parse_nregions"), ("validation", "opt_cres_validate.rs validate")],
 ["cres command line", "cres-partition command line"])

prop("C19", "Four-momenta always carry a consistent transverse momentum",
 "However a four-momentum was obtained (from components, by addition, subtraction or rescaling), its transverse momentum equals the square root of the sum of squares of its two transverse components, its components are the componentwise result of the operation, "
 "and its norms are the square roots of the sums of squares of all four or of the three spatial components.",
 ["inputs"],
 "every four-momentum and every sequence of operations",
 W + "no four-momentum is inspected.",
 ["src/four_vector.rs", "src/event.rs"],
 [("cached pt", "four_vector.rs update_pt"), ("operators", "four_vector.rs From, AddAssign, SubAssign")],
 ["FourVector"])

prop("C20", "Classification sends each event to exactly one region's file",
 "Classifying an input file writes, for every region, an output file with the input's header and footer, and copies each event record unchanged to the file of the one region its clustered event belongs to, in input order. "
 "Each event therefore appears exactly once over all output files, which are as many as the partition has regions.",
 ["inputs"],
 "every input file, partition, number of regions and output compression",
 "No test runs the classifier.",
 ["src/bin/classify-events.rs", "src/partition.rs"],
 [("routing", "classify-events.rs classify_byte_records"), ("footer", "classify-events.rs trim_footer, write_footer")],
 ["cres-classify-events"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
