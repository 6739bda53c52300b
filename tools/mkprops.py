#!/usr/bin/env python3
"""Single source of properties.jsonl (run after editing)."""
import json, pathlib
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})
ONE="The only end-to-end test runs one showered sample and asserts nothing but success"

prop("C01","Resampling conserves the total weight",
 "For every event sample, distance function, maximum cell size, seed strategy, neighbour search and number of threads, the sum of the central weights over all events after resampling equals the sum before, up to floating-point rounding. The same holds separately for every named weight that takes part in the resampling.",
 ["inputs","schedules","configurations"],"all samples x options x thread interleavings",
 ONE+"; it never compares weights, and a single schedule cannot speak for all interleavings.",
 ["src/cell.rs","src/resampler.rs","src/event.rs","src/cres.rs"],
 [("cell average: sum of member weights times 1/members, written back to all members","src/cell.rs Cell::resample"),("weights guarded by one lock per event","src/event.rs Event::weights")],
 [("weights","per-event vector of weights (central first)","src/event.rs Event::weights")],["Resample::resample result","output files of cres"])
prop("C02","Unlimited cells leave no negative weight in any schedule",
 "If the cell size is unlimited and the weights of the resampled events do not sum to a negative number, no event has a negative weight after resampling (beyond floating-point rounding). This holds for every number of threads and every interleaving of the worker threads.",
 ["inputs","schedules","configurations"],"all samples with non-negative total weight, all thread counts and interleavings",
 ONE+" with a limited cell size; races between cell construction and averaging need particular interleavings.",
 ["src/cell.rs","src/resampler.rs","src/seeds.rs"],
 [("cell grows until its accumulated weight is non-negative","src/cell.rs Cell::new"),("members are locked and averaged","src/cell.rs Cell::resample"),("seeds processed by a parallel iterator","src/resampler.rs Resampler::resample")],
 None,["Resample::resample result","output files of cres"])
prop("C03","A cell is the smallest sufficient set of nearest neighbours, averaged",
 "A cell consists of its seed and the nearest other events in order of increasing distance, none further away than the maximum cell size, and it stops growing as soon as its accumulated central weight is no longer negative. Resampling sets each weight of every cell member to the mean of that weight over the cell and changes no other event. A proposed seed whose weight is not negative (zero included) when its turn comes is left alone.",
 ["inputs","configurations"],"all samples, distances, cell-size limits and seed orders",
 ONE+"; no test looks at a cell or at the weights of any event.",
 ["src/cell.rs","src/resampler.rs","src/neighbour_search.rs"],
 [("accumulation loop with early stop","src/cell.rs Cell::new"),("mean over members","src/cell.rs Cell::resample"),("non-negative seeds skipped","src/resampler.rs Resampler::resample"),("max_cell_size handed to the neighbour search","src/resampler.rs Resampler::resample")],
 [("members, radius, weight_sum","cell contents as seen by an observer","src/cell.rs Cell")],["ObserveCell::observe_cell","Resample::resample result"])
prop("C04","Concurrent cells act atomically and never deadlock",
 "However the worker threads interleave, resampling always completes, and the averaging of each cell acts as one indivisible step on the weights of its members. The final weights are therefore the result of applying the observed cells' averages one after the other in some order, and no concurrent weight change is ever lost.",
 ["schedules"],"all interleavings of any number of worker threads with overlapping cells",
 "Lock-order inversions and lost updates depend on rare interleavings that the one end-to-end test neither forces nor would notice.",
 ["src/cell.rs","src/resampler.rs"],
 [("members sorted before locking (lock order)","src/cell.rs Cell::resample"),("all write locks held while averaging","src/cell.rs Cell::write_lock_weights")],
 [("weights","one read-write lock per event","src/event.rs Event::weights")],["ObserveCell::observe_cell","Cell::resample"])
prop("C05","Both nearest-neighbour searches are exact",
 "For every set of points and every (pseudo-)metric, tree search and naive search both enumerate all other points within the distance limit (inclusive), each exactly once and with its correct distance, in order of non-decreasing distance, and then end. The queried point itself is never returned, and the result does not depend on how the search structure was built (sequentially, in parallel, or depth-limited) or on previous searches.",
 ["inputs","configurations","histories"],"all finite metric spaces including ties and coincident points, all limits, all query points",
 "No test touches the neighbour search; the pruning logic has case distinctions (inside/outside, ties, limits) that only specific geometries reach.",
 ["src/vptree.rs","src/neighbour_search.rs"],
 [("median split of the vantage-point tree","src/vptree.rs build_tree/par_build_tree"),("pruned recursive search","src/vptree.rs nearest_in_subtree"),("naive minimum over remaining candidates","src/neighbour_search.rs NaiveNeighbourIter")],
 None,["NeighbourSearch::nearest","VPTree::nearest_in"])
prop("C06","Seeds are exactly the negative-weight events in strategy order",
 "Every event with negative central weight, and no other event, is proposed as a cell seed exactly once. The order is the order of the events, by increasing weight (most negative first, the default) or by decreasing weight (closest to zero first), according to the chosen strategy, and with a single thread cells are built in that order.",
 ["inputs","configurations"],"all weight assignments including ties and zeros, samples larger than one task, all strategies and strategy names",
 ONE+" with the default strategy and does not look at the seeds.",
 ["src/seeds.rs","src/resampler.rs","src/bin/opt_cres.rs"],
 [("filter negative weights and sort by strategy","src/seeds.rs StrategicSelector::select_seeds"),("strategy names","src/bin/opt_cres.rs parse_strategy")],
 None,["SelectSeeds::select_seeds","order of observed cells","cres --strategy"])
prop("C07","The event distance is the published optimal-pairing metric",
 "The built-in distance between two events is the sum over particle types of the minimum over all pairings of same-type particles (missing partners replaced by zero momenta) of the summed sqrt(tau^2 (pt-qt)^2 + |p-q|^2), where tau is the transverse-momentum weight. It therefore does not depend on particle order, energies or weights, is symmetric, is zero between events with equal outgoing momenta, and fulfils the triangle inequality.",
 ["inputs","configurations"],"all pairs and triples of events, any numbers and types of particles, any tau",
 "No test computes a distance; the assignment solver switches algorithm with multiplicity and errors there only change which neighbour is considered nearest.",
 ["src/distance.rs","src/four_vector.rs","src/event.rs"],
 [("merge over sorted particle types","src/distance.rs EuclWithScaledPt::distance"),("permutations up to 3 particles, Hungarian algorithm above","src/distance.rs min_paired_distance"),("particle sets sorted by type","src/event.rs compress_outgoing")],
 None,["Distance::distance"])
prop("C08","Clustering maps particles to infrared-safe objects by fixed rules",
 "Partons and hadrons are clustered into jets above the jet transverse-momentum cut; photons that are hard and isolated become isolated photons, other photons and electrons and muons are dressed together when lepton clustering is enabled and are kept as they are otherwise; neutrinos are dropped unless they are to be included; all other particles are kept. Clustering neither creates nor loses any other momentum and preserves the event's id and all its weights.",
 ["inputs","configurations"],"all particle contents and all combinations of jet, lepton, photon and neutrino options",
 ONE+" with one set of cuts; a misclassified particle type does not make it fail.",
 ["src/cluster.rs","src/event.rs"],
 [("classification by particle id","src/cluster.rs DefaultClustering::cluster"),("isolation criterion","src/cluster.rs DefaultClustering::is_isolated"),("pt cut","src/cluster.rs cluster")],
 None,["Clustering::cluster"])
prop("C09","Every event is read exactly once, in order and faithfully",
 "Reading a list of event files yields every event record of every file exactly once, in file order, whatever mix of formats (HepMC2, LHEF, STRIPPER XML), compressions and energy units is used. Each event carries exactly the weights and the outgoing particles (type and four-momentum in GeV) that its record states, with intermediate and incoming particles left out.",
 ["inputs","configurations"],"all well-formed event files, including empty ones, unusual spacing, several weights, MeV units and any chunking into files",
 ONE+" on a single HepMC2 file; LHEF and STRIPPER input, MeV units and multiple files are never read by a test.",
 ["src/io.rs","src/hepmc2.rs","src/lhef.rs","src/stripper_xml.rs","src/cres.rs"],
 [("format detection from content","src/io.rs detect_event_file_format"),("record splitting","src/hepmc2.rs FileReader::read_raw, src/lhef.rs, src/stripper_xml.rs"),("record parsing","src/hepmc2.rs parse_hepmc, src/lhef.rs parse_lhef, src/stripper_xml.rs parse_stripper_xml"),("file chaining","src/io.rs CombinedFileIO::next")],
 None,["EventRecord iterator + TryConvert"])
prop("C10","Output differs from input only in the resampled event weights",
 "For each input event file cres writes one file of the same name and format to the output directory that contains the same header, the same event records in the same order and the same footer, with nothing changed except the weight entries that take part in the resampling. The weight written into a record is the final weight of exactly that event, written so that reading it back gives the same floating-point number.",
 ["inputs","configurations"],"all sets of input files, formats and resampling results",
 ONE+"; it never reads the output, so swapped, missing or damaged records would pass.",
 ["src/cres.rs","src/io.rs","src/hepmc2.rs","src/lhef.rs","src/stripper_xml.rs"],
 [("weights indexed by event id","src/cres.rs Cres::run"),("per-file weight update","src/io.rs CombinedFileIO::update_all_weights"),("in-place replacement of the weight entry","src/hepmc2.rs update_central_weight, src/stripper_xml.rs update_next_weights_helper")],
 None,["output files of cres"])
prop("C11","Named weights are resampled in the same cells and written back by name",
 "When additional weight names are requested, each named weight of an event is averaged over the same cells as the central weight and is written back to the column of that name in the same record. The columns of all other weights stay untouched, and asking for a weight that an event does not have is reported as an error.",
 ["inputs","configurations"],"all sets of weight names in any order, positions and numbers of weight columns",
 "No test requests a named weight.",
 ["src/hepmc2.rs","src/cell.rs","src/event.rs","src/io.rs"],
 [("selection of weight columns by name on input","src/hepmc2.rs parse_weight_names_line"),("replacement by name on output","src/hepmc2.rs update_named_weights"),("vector-valued averaging","src/cell.rs Cell::resample")],
 None,["output files of cres --weights"])
prop("C12","Unweighting keeps, discards and rescales events as documented",
 "With a minimum weight m > 0, events with |w| >= m are always kept, an event with |w| < m is kept with probability |w|/m and then has |w| = m with its sign and weight ratios preserved, and finally all kept weights are multiplied by one common factor so that the sum of weights is unchanged. With m = 0 nothing changes. Kept events keep their order and identity.",
 ["inputs","configurations"],"all weights (including zero, equal to m and negative), all m, all random number streams",
 "The one end-to-end test does not unweight.",
 ["src/unweight.rs","src/event.rs"],
 [("random retention","src/unweight.rs Unweighter::unweight"),("final uniform rescaling","src/unweight.rs Unweighter::unweight")],
 None,["Unweight::unweight","output of cres --minweight"])
prop("C13","Events discarded by unweighting carry no weight in the output",
 "An event that the unweighting discards contributes nothing to the output sample: its record is written with all participating weights equal to zero. Consequently the weights in the output files sum to the same total as those in the input files.",
 ["inputs","configurations"],"all samples, minimum weights and random seeds",
 "No test combines unweighting with output.",
 ["src/cres.rs","src/unweight.rs","src/io.rs"],
 [("final weights collected by event id, entries without a surviving event","src/cres.rs Cres::run")],
 None,["output files of cres --minweight"])
prop("C14","Events without identified particles pass through unchanged",
 "An event that has no outgoing objects after clustering takes no part in resampling or unweighting: its record appears in the output exactly as in the input. It has no influence on the weights of any other event.",
 ["inputs","configurations"],"all samples with any number and position of such events, with and without unweighting",
 ONE+"; it does not check that excluded events exist or survive.",
 ["src/cres.rs","src/io.rs"],
 [("events without outgoing particles removed before resampling","src/cres.rs Cres::run"),("records without new weights left alone","src/hepmc2.rs update_next_weights_helper")],
 None,["output files of cres"])
prop("C15","A partition assigns every event to one region, balanced and stably",
 "A partition into N regions built from a sample maps every event, whether or not it was in the sample, to exactly one of N regions by comparing its distance to the vantage points with their radii, at each vantage point splitting the sample's own events in half up to ties. Writing the partition to a file and reading it back gives the same clustering settings and the same region for every event, and a sample too small for N regions is refused with an error.",
 ["inputs","configurations"],"all samples, numbers of regions and events to be classified",
 "The tests of the partitioning tool only check an integer logarithm.",
 ["src/partition.rs","src/vptree.rs","src/bin/partition.rs"],
 [("tree descent","src/partition.rs VPTreePartition::region"),("conversion from the vantage-point tree in breadth-first order","src/vptree.rs From<VPTree> for VPTreePartition"),("YAML serialisation","src/bin/partition.rs main")],
 None,["VPTreePartition::region","partition file"])
prop("C16","Classification splits files losslessly into valid files",
 "Classifying an event file with a partition writes N files per input, and every event record ends up in exactly one of them, unchanged and in its original relative order, namely in the file of its region. Each written file is a valid event file with the original header and the format's footer exactly once, so that it can be read by cres even if it contains no events.",
 ["inputs","configurations"],"all event files, formats, compressions and partitions, including regions that receive no event",
 "The classification tool has no tests.",
 ["src/bin/classify-events.rs","src/partition.rs","src/hepmc2.rs","src/stripper_xml.rs"],
 [("per-region writers","src/bin/classify-events.rs Classifier::classify_byte_records"),("footer handling","src/bin/classify-events.rs trim_footer/write_footer"),("header extraction","src/hepmc2.rs init_source, src/stripper_xml.rs init_source")],
 None,["output files of cres-classify-events"])
prop("C17","Malformed input is reported as an error, never accepted or a crash",
 "If an event record lacks or garbles an entry that cres needs, if a file is cut off inside an event record, or if a file contains invalid text, the run ends with an error that names the problem. It neither reports success nor aborts with an internal panic.",
 ["inputs"],"all corruptions of the needed entries of a record and all truncation points inside a record, in every format",
 "The tests only use one well-formed file.",
 ["src/hepmc2.rs","src/lhef.rs","src/stripper_xml.rs","src/io.rs","src/cres.rs"],
 [("entry parsers returning ReadError","src/hepmc2.rs, src/lhef.rs, src/stripper_xml.rs"),("error propagation from parallel conversion","src/cres.rs Cres::read_events")],
 None,["exit status of cres","Cres::run result"])
prop("C18","A successful exit means the output was written completely",
 "If writing any part of any output file fails, at whatever point of the run, the program reports an error and does not exit successfully. Equivalently, after a successful exit every output file is complete.",
 ["fault_sequences","configurations"],"every failing write or file creation, for every tool, format and compression",
 "No test injects I/O faults.",
 ["src/io.rs","src/hepmc2.rs","src/lhef.rs","src/stripper_xml.rs","src/compression.rs","src/bin/classify-events.rs","src/bin/partition.rs"],
 [("propagation of write errors","src/hepmc2.rs update_next_weights_helper"),("finishing a file","src/io.rs CombinedFileIO::update_all_weights, finish_weight_update"),("buffering and compression layers","src/compression.rs compress_writer")],
 None,["exit status and output files under write faults"])
prop("C19","Compressed output decompresses to the uncompressed output",
 "For every supported compression algorithm and level the output is one complete stream of that format, including its end marker and checksum, and decompresses to exactly the bytes that are written without compression. The setting accepted on the command line selects that algorithm and level, and unsupported algorithms or levels are refused.",
 ["inputs","configurations"],"all algorithms and levels, all output sizes",
 "No test writes compressed output.",
 ["src/compression.rs","src/bin/opt_common.rs"],
 [("encoder construction","src/compression.rs compress_writer"),("parsing of the setting","src/bin/opt_common.rs parse_compr")],
 None,["compress_writer output","cres --compression"])
prop("C20","The C API gives the library's results and reports every failure",
 "Running through the C interface produces the same output files as the library with the same settings, returns zero exactly on success, and after a failure the last error can be retrieved: the message is copied null-terminated and never beyond the given buffer, and the required size is returned if it had to be truncated. A custom distance function is shown the id, all weights and all outgoing momenta of the two events and its result decides the cells.",
 ["inputs","histories","configurations"],"all options, all buffer sizes, all sequences of successful and failing calls, all custom distances",
 "The C API has no tests.",
 ["src/c_api/cres.rs","src/c_api/error.rs","src/c_api/distance.rs","src/c_api/event.rs"],
 [("panic and error capture","src/c_api/cres.rs cres_run"),("bounded copy","src/c_api/error.rs cres_last_err_internal"),("event views","src/c_api/distance.rs DistanceFn::distance")],
 [("last error","most recent error of the calling thread","src/c_api/error.rs LAST_ERROR")],["cres_run","cres_get_last_err","distance callback arguments"])
prop("C21","Cell observation is complete and keeps the extreme cells",
 "The observer sees every resampled cell exactly once, whatever the number of threads. Cell collections, including collections merged from several threads, retain the ten largest cells by radius, by number of members and by weight among all cells seen, with the right members, and a collection that saw at most ten cells retains all of them.",
 ["inputs","schedules","histories"],"all sequences of cells and all ways to distribute them over merged collections",
 "Cell collection has no tests.",
 ["src/cell_collector.rs","src/resampler.rs"],
 [("bounded ordered maps","src/cell_collector.rs CellCollector::collect"),("merging","src/cell_collector.rs CellCollector::combine, truncate"),("thread-local observation","src/resampler.rs Observer")],
 None,["CellCollector::event_cells","ObserveCell"])
prop("C22","STRIPPER weights are normalised on input and restored on output",
 "For STRIPPER XML samples the weights used in the resampling are the record weights times the cross section of the contribution divided by the total number of events of that contribution over all its files, and output weights are divided by the same factor. Contributions are matched by name independently of file order, normalisation files produce no output, and a contribution without normalisation is refused with an error.",
 ["inputs","configurations"],"all sets of normalisation and event files in any order, with any number of contributions",
 "No test reads STRIPPER files.",
 ["src/stripper_xml.rs","src/io.rs"],
 [("collecting cross sections and event counts","src/stripper_xml.rs extract_scaling"),("scaling on read","src/stripper_xml.rs FileIO::rescale_weight"),("scaling on write","src/stripper_xml.rs update_next_weights_helper")],
 None,["output files of cres on STRIPPER input"])
prop("C23","Results depend only on the event sequence and the settings",
 "With a single thread and no ties between weights or between distances, the weights of every event depend only on the sequence of events and the settings: repeated runs agree, and it does not matter how the events are distributed over files, how the files are named or compressed, or which search algorithm is used. Input files are never modified, and a run that would overwrite an input file or write two outputs to the same file is refused with an error.",
 ["inputs","configurations"],"all ways to split, compress and name the input",
 ONE+" once.",
 ["src/cres.rs","src/io.rs","src/bin/main.rs"],
 [("ids from file order, order restored before use","src/cres.rs Cres::read_events"),("output file naming","src/bin/main.rs")],
 None,["output files of cres","input files"])
prop("C24","Command-line options mean what the help says or are refused",
 "Incomplete lepton or photon definitions, unknown algorithms and strategies, and region numbers that are not powers of two are refused with an error before any file is written, by every tool that accepts the option. Options given in an argument file act as if given on the command line, and each accepted option has its documented effect on the result.",
 ["configurations"],"all combinations of options of the three tools",
 ONE+" with options constructed in code, bypassing parsing and validation.",
 ["src/bin/main.rs","src/bin/opt_cres.rs","src/bin/opt_cres_validate.rs","src/bin/opt_common.rs","src/bin/opt_partition.rs","src/bin/partition.rs","src/bin/classify-events.rs"],
 [("validation","src/bin/opt_cres_validate.rs validate"),("parsers","src/bin/opt_common.rs, src/bin/opt_partition.rs parse_nregions")],
 None,["exit status, outputs"])
prop("C25","Event I/O objects behave consistently under any call sequence",
 "Any sequence of reading events, rewinding and updating weights on a combined event I/O object acts like a cursor over the concatenated events: reading yields the events in order and then nothing, rewinding returns to the first event, size hints never exceed what remains nor underflow, updating single weights continues across file boundaries and reports when no event is left. A complete update after any history produces complete output files.",
 ["histories"],"all finite sequences of next, rewind, single update and complete update over any list of files, including empty lists and empty files",
 "The test performs one fixed sequence on one file.",
 ["src/io.rs","src/hepmc2.rs","src/lhef.rs","src/stripper_xml.rs"],
 [("cursor over files","src/io.rs CombinedFileIO"),("rewinding readers","src/hepmc2.rs FileReader::rewind, src/lhef.rs, src/stripper_xml.rs")],
 [("current_file_idx, current, nevents_read","cursor position","src/io.rs CombinedFileIO")],["Iterator, Rewind and UpdateWeights calls on CombinedFileIO"])
prop("C26","The pipeline treats every event id once and propagates every error",
 "A run reads all events, converts and clusters each exactly once, resamples, unweights and updates in this order, and hands each event's final weights to the output under its original position even though conversion finishes in any order and later stages may reorder events. An error in any stage (reading, conversion, clustering, resampling, unweighting, updating) or an event that already has an id makes the run fail with that error and no weights are updated afterwards.",
 ["schedules","fault_sequences","histories"],"all completion orders of parallel conversion, all reorderings by resampler or unweighter, an error at any stage and event",
 "The test uses the default components on one sample without errors.",
 ["src/cres.rs","src/traits.rs"],
 [("parallel conversion with ids from reading order","src/cres.rs Cres::read_events"),("collecting weights by id","src/cres.rs Cres::run")],
 None,["calls made on the user-supplied components","Cres::run result"])
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(p)+"\n" for p in P))
print(len(P),"properties")
