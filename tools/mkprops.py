import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
IX="src/index/mod.rs"; RW="src/index/rw/mod.rs"
p("C01","A parallel build always completes and indexes exactly what was asked",
 "Building an index, either completely or up to a requested number of elements, finishes without panicking or deadlocking for every element collection (including duplicate, zero and single elements), configuration and number of worker threads. Afterwards the index holds exactly the requested number of elements, element i of the index is element i of the collection, and the sizes of its layers are the documented geometric progression (layer i of n elements with multiplier m holds min(n, ceil(n / m^(floor(log_m n) - i))) of them, the last layer all requested ones). The layer sizes depend only on the number of elements and the configuration, never on thread interleaving, worker count, or whether progress is shown.",
 ["schedules","inputs","configurations"],"every interleaving of the worker threads, every collection, every BuildConfig, every partial-build count",
 "Tests build with one rayon worker (RAYON_NUM_THREADS=1) or whatever the OS does; no test controls which worker touches which node when.",
 [IX],[("layer-by-layer build with per-node locks","src/index/mod.rs: build_partial, index_elements_in_last_layer, index_elements, index_element"),("layer size formula","src/index/mod.rs: compute_num_elements_in_layer")],
 ["GranneBuilder::build/build_partial","Index::{len,num_layers,layer_len}"])
p("C02","Every built graph is well-formed, whatever the interleaving",
 "After any build, in every layer every neighbor list names only elements of that layer, never the element itself and never the same element twice, and is no longer than the configured number of neighbors (in an index built in one go, half of it but at least one on layers above the bottom one). A zero-length element other than the very first one has no neighbors and is nobody's neighbor. This holds for all thread schedules, with and without reinsertion, and after continuing a partial, reloaded or pushed-to build.",
 ["schedules","inputs","configurations","histories"],"all interleavings of link updates by the workers and all partial build histories",
 "Tests look at link lists of a few sequential builds; lost, duplicated or overlong lists only appear under particular interleavings of concurrent link updates.",
 [IX],[("link insertion under a node write lock","src/index/mod.rs: initialize_node, connect_nodes, add_and_limit_neighbors")],["Index::get_neighbors"])
p("C03","No element or link is lost while neighbor lists have room",
 "If all elements are distinct and non-zero, the neighbor capacity (also the halved one of the upper layers) is at least the number of elements and the build search budget is too, then no link ever needs to be dropped: after building, under any thread interleaving, every link is present in both directions and every element can be reached. An exhaustive search (budget at least the number of elements) then returns exactly the true k nearest neighbors for every query.",
 ["schedules","inputs"],"all interleavings of concurrent link insertion and all element sets in the lossless regime",
 "Needs two workers updating the same node in a particular order; the tests run one worker and only check approximate recall.",
 [IX],[("first-link initialisation vs. link insertion","src/index/mod.rs: index_element, initialize_node, connect_nodes")],["Index::get_neighbors","Granne::search"])
p("C04","Incremental building keeps every promise over any history of steps",
 "Over any sequence of pushing elements, building up to some count, saving, being killed and restarted from the last completed save (reloading elements and index into a builder), and searching: the index always holds exactly the elements asked for so far, earlier elements keep their ids and values, once complete the layer sizes equal those of a one-shot build if the expected total was configured, and while neighbor lists have room every indexed element is found by an exhaustive search. Asking to index more elements than exist or fewer than already indexed is refused without damage, and building a completely indexed collection again changes nothing.",
 ["histories","crash_points","schedules"],"all sequences of push/build_partial/build/save/crash/reload/search with all thread schedules inside them",
 "Tests exercise a couple of fixed sequences; no test crashes and resumes, mixes saves with partial builds, or does so under varied schedules.",
 [IX,"src/index/io.rs"],[("resuming the last layer","src/index/mod.rs: build_partial, index_elements_in_last_layer"),("reloading a builder","src/index/mod.rs: GranneBuilder::from_bytes/from_file")],["GranneBuilder API"])
p("C05","Search quality does not depend on how the build was scheduled",
 "For ordinary data, an index built in parallel, in one go or in several steps, or filled by several threads through a concurrent builder, answers nearest-neighbor queries with essentially the same recall as one built by a single thread with the same configuration, and both are high: a moderate search budget finds the great majority of the true nearest neighbors, and practically every indexed element finds itself. Stalling, starving or reordering threads must not degrade the result.",
 ["schedules","inputs"],"all worker schedules including stalls and starvation; random data sets in the pruned regime",
 "The recall tests measure one uncontrolled schedule; a change that loses or mis-prunes links only under contention passes them.",
 [IX,"src/max_size_heap.rs"],[("neighbor selection heuristic","src/index/mod.rs: select_neighbors, add_and_limit_neighbors"),("greedy best-first search","src/index/mod.rs: search_for_neighbors")],["Granne::search"])
p("C06","Search answers are truthful, complete within reach and safe to run concurrently",
 "Every search (with a budget of at least one) returns at most the requested number of results and at most the search budget, each an indexed element listed once with its true distance to the query, ordered by increasing distance. With a budget covering the whole index it returns exactly the best elements among those reachable by following links from the entry point. Any number of threads searching the same index (in memory, from bytes or memory-mapped) at once get precisely the answers they would get alone, and an empty index answers with no results.",
 ["schedules","inputs","configurations"],"all queries, budgets and result counts, all interleavings of concurrent searches on one shared index",
 "Tests check recall on a few queries sequentially; distances, ordering, reachability and concurrent use are not checked.",
 [IX,"src/max_size_heap.rs"],[("search","src/index/mod.rs: search_internal, find_entrypoint, search_for_neighbors")],["Granne::search"])
p("C07","Concurrent inserts get unique dense ids and never exceed capacity",
 "When several threads insert single elements and batches into a concurrent builder, every accepted element gets its own id, ids are dense (0..len), the element stored under an id is the one inserted, the ids returned for a batch follow the batch order, and an element present before never moves or changes. The number of elements never exceeds the configured maximum; an insert is refused (partly, for a batch: its tail) only if the builder was full, and a refused insert leaves no trace.",
 ["schedules","histories"],"all interleavings of concurrent inserts, batches, searches and saves",
 "The one test of concurrent inserts uses a single inserting thread and does not look at ids; races at the capacity and layer boundaries need specific interleavings.",
 [RW],[("reservation of ids under the element lock","src/index/rw/mod.rs: insert_batch")],["RwGranneBuilder::{insert,insert_batch,get_element,len}"])
p("C08","Searches running beside inserts are correct and see completed inserts",
 "A search that runs while other threads insert returns only ids that are valid at that moment, each once, with true distances in increasing order. An element whose insert had returned before the search began is found by an exhaustive search as long as neighbor lists have room, including when only very few elements exist.",
 ["schedules","histories"],"all interleavings of searches with inserts, batches and saves",
 "The existing concurrent test discards the search results.",
 [RW,IX],[("search under read locks over a graph with per-node locks","src/index/rw/mod.rs: search")],["RwGranneBuilder::search"])
p("C09","A save taken during inserts is a consistent snapshot",
 "Saving a concurrent builder while other threads insert and search produces an index file and an elements file that together describe one moment: both hold the same number of elements, a prefix of the ids; every insert that returned before the save began is in it, none that began after the save returned is, and each batch is contained completely or not at all. Every saved link refers to a saved element, every saved element is completely linked, loading the files works, and saving does not change the builder.",
 ["schedules","histories","crash_points"],"all interleavings of saves with inserts, batches and searches",
 "The save test of the concurrent builder is commented out in the repository; nothing tests saves during inserts.",
 [RW,"src/index/io.rs"],[("write lock excluding inserts during a save","src/index/rw/mod.rs: write, insert_batch")],["RwGranneBuilder::{write,save_index_and_elements_to_disk}"])
p("C10","Concurrent builder operations always finish",
 "Any mix of inserts, batches (also ones that span several layers), searches, reads and saves issued by any number of threads (ordinary ones, or the workers of a rayon pool in any number of its tasks) against one concurrent builder, with any number of pool threads, finishes: no deadlock, no livelock, no panic, even if some threads are stalled arbitrarily long and then resumed, as long as no thread keeps an element guard to itself while calling other operations.",
 ["schedules","fault_sequences"],"all interleavings of operations on the three lock levels, including stalled threads",
 "A deadlock needs a save to arrive between two lock acquisitions of one batch; no test runs saves and inserts concurrently.",
 [RW],[("lock order write_lock, elements, layers","src/index/rw/mod.rs: insert_batch, search, write")],["RwGranneBuilder API"])
p("C11","A concurrent builder ends with the same layer structure as an offline build",
 "However elements are split into single inserts and (possibly empty) batches, whoever inserts them in whatever order, and whatever number of elements the builder started from, a filled concurrent builder has exactly the layers (number and sizes) that an offline build of the same number of elements with the same configuration has; at every moment its saved index holds each element inserted so far in the bottom layer and the upper layers have their final sizes. Its graph obeys the same well-formedness and, while lists have room, losslessness as an offline one.",
 ["schedules","inputs","histories"],"all batch splits, all interleavings of several inserting threads, all starting sizes and capacities",
 "The layer test inserts single elements from one thread; races at a layer boundary or at capacity are out of its reach.",
 [RW,IX],[("creation of a new layer when the current one is full","src/index/rw/mod.rs: insert_batch, new")],["saved index of RwGranneBuilder"])
p("C12","A saved index loads back as the same index",
 "An index written to a file or buffer, starting at any position in it, and loaded again (from bytes at any memory alignment, memory-mapped, or into a builder) has the same number of elements and layers, the same layer sizes and for every element the same set of neighbors, and answers every search the same up to the order of equal distances. Writing a loaded index again gives byte-identical output, and none of this depends on how the underlying storage splits, shortens or interrupts the individual reads and writes.",
 ["inputs","configurations","fault_sequences"],"all graphs (sizes, list lengths up to 254, neighbor ids up to 32 bit), alignments, start offsets, and patterns of short or interrupted I/O",
 "The write/load tests use a few small graphs on a well-behaved file and are among those that abort at base; chunk boundaries, big ids and unaligned buffers are not reached.",
 ["src/index/io.rs","src/slice_vector/set_vector.rs","src/slice_vector/offsets.rs"],[("compressed neighbor lists and chunked offsets","src/slice_vector/set_vector.rs, src/slice_vector/offsets.rs"),("metadata written last","src/index/io.rs: write_index")],["Index::write_index","Granne::from_bytes/from_file","GranneBuilder::from_bytes/from_file"])
p("C13","A failed write is never reported as success",
 "If any write, seek or flush of the destination fails while an index, its elements, its embeddings or a concurrent builder is being saved (disk full, I/O error, a writer that accepts no bytes), the save returns an error; if it returns success, every byte of the complete file reached the destination. A failed save leaves the in-memory index unchanged, and saving again afterwards succeeds with the complete content.",
 ["fault_sequences","inputs"],"all positions of a failing write/seek/flush and all error kinds, for every save operation",
 "No test uses a failing writer.",
 ["src/index/io.rs",RW,"src/io.rs"],[("buffered writers must be flushed and checked","src/index/io.rs: write_index; src/index/rw/mod.rs: write")],["Index::write_index","write_elements","RwGranneBuilder::write","SumEmbeddings::write_embeddings"])
p("C14","A save cut short by a crash is never mistaken for a complete index",
 "If the process dies at any point while an index is being saved to a new file, with any prefix of the issued writes (the last one possibly torn) on disk, then loading that file either is refused or yields exactly the saved index. For the combined save of a concurrent builder, whenever the index file left behind loads, the elements file left behind is complete and loads to exactly the elements of that index - also when it was saving over an earlier save, whose index must then not be left with other elements, and when several threads save to the same files.",
 ["crash_points","fault_sequences"],"every crash point between and within writes of a save",
 "No test interrupts a save.",
 ["src/index/io.rs",RW],[("metadata is written only after the graph","src/index/io.rs: write_index"),("elements before index","src/index/rw/mod.rs: write")],["files left by an interrupted save"])
p("C15","Saved element collections load back unchanged",
 "Element collections (float vectors, 8-bit vectors, summed embeddings with their elements) written out and loaded again, from bytes or memory-mapped, contain the same elements in the same order, bit for bit, and the number of bytes reported equals the number of bytes written. A collection loaded from a file can be extended (by single elements, or by another collection, also an empty one) and permuted without touching the file, behaves the same as one built in memory, and a file that cannot be mapped gives an error instead of a panic.",
 ["inputs","fault_sequences","histories"],"all contents and sizes, short and interrupted writes, mapping failures, and sequences of push/permute/save/load",
 "Tests round-trip a few fixed vectors through an ordinary file.",
 ["src/elements","src/slice_vector/mod.rs","src/io.rs"],[("raw element files, copy on write of mapped data","src/slice_vector/mod.rs")],["Vectors::{from_bytes,from_file,write}","SumEmbeddings::{from_bytes,from_files,write,write_embeddings}"])
p("C16","One-thread builds are reproducible and progress reporting is inert",
 "Building with a single worker thread is a pure function of the elements and the configuration: repeating it gives a byte-identical saved index, whatever the clock does (jumps, standing still) and whether or not progress is shown. Showing progress never changes, delays forever or breaks a build or reordering with any number of threads.",
 ["schedules","fault_sequences","configurations"],"clock jumps, progress on/off, repeated runs, all schedules of the progress lock",
 "Tests never show progress during a parallel build nor compare two builds.",
 [IX,"src/index/reorder.rs"],[("progress bar under a lock","src/index/mod.rs: index_elements; src/index/reorder.rs: compute_order")],["Builder::build, Granne::reorder with show_progress"])
p("C17","Reordering is a layer-preserving relabelling of index and elements",
 "Reordering an index (by similarity or by user keys) returns a permutation in which entry i names the old id of the element now at i; it keeps every element in its layer range, the elements are moved accordingly, and the new graph in every layer is the old graph relabelled by that permutation. With keys, elements within each layer range are sorted by key (ties by old id). It works for indexes of any number of layers, including none and one, for any element type, and for collections holding more elements than are indexed, whose excess elements stay where they are.",
 ["schedules","inputs","configurations"],"all indexes (in memory, loaded, mapped), key vectors, sizes across internal chunk boundaries, and schedules of the parallel passes",
 "Tests compare search results of five queries for one size.",
 ["src/index/reorder.rs","src/elements/embeddings/mod.rs","src/slice_vector/mod.rs"],[("order computation, relabelling, permutation","src/index/reorder.rs: reorder, reorder_by_keys, compute_order, reorder_layer; Permutable impls")],["Granne::reorder","Granne::reorder_by_keys"])
p("C18","Reordering does not depend on scheduling and preserves search results",
 "The permutation, the reordered graph and the reordered elements are the same for every worker count and every interleaving, as are the keys computed from embeddings, which order elements by their words of largest norm. After reordering by similarity or by keys, an exhaustive search returns the same elements at the same distances as before when all elements are reachable, and the reordered index can be saved, loaded and searched like any other.",
 ["schedules","configurations"],"all schedules and worker counts of the parallel order computation and sort",
 "Tests run one schedule.",
 ["src/index/reorder.rs","src/elements/embeddings/reorder.rs"],[("parallel map and sort with a total order","src/index/reorder.rs: compute_order; src/elements/embeddings/reorder.rs: compute_keys_for_reordering")],["Granne::reorder/reorder_by_keys","compute_keys_for_reordering"])
p("C19","Parallel text parsing keeps every line, in order, however it is run",
 "Parsing a file or a directory of text parts into elements yields one element per line, in the order of the sorted part names and of the lines inside them, each holding the ids of its known words in order (text up to the last colon and unknown words dropped). The result does not depend on thread interleaving, worker count, directory listing order, read sizes or whether a part is gzip-compressed; and splitting the output into any number of shards gives files that, concatenated, hold exactly those elements in that order.",
 ["schedules","inputs","fault_sequences"],"all schedules of the part workers, directory orders, short/interrupted reads, part and shard counts",
 "Only the shard file naming is tested.",
 ["src/elements/embeddings/parsing.rs"],[("parallel map over sorted parts, ordered concatenation","src/elements/embeddings/parsing.rs: parse_elements_in_directory_or_file"),("sharding","src/elements/embeddings/parsing.rs: parse_elements_and_save_shards_to_disk")],["parsing::parse_elements_and_save_to_disk","parsing::parse_elements_and_save_shards_to_disk"])
p("C20","Data preparation never finishes normally over a failed read or write",
 "When reading an input part or writing an output file fails at any point during parsing, sharding or embedding computation (I/O error, disk full, truncated or corrupt compressed input, invalid line, unreadable directory), the operation fails visibly instead of returning normally with missing or truncated output. If it returns normally, the complete output is on disk.",
 ["fault_sequences","schedules"],"all positions and kinds of failing reads and writes under all worker schedules",
 "No test injects a failure.",
 ["src/elements/embeddings/parsing.rs"],[("error propagation out of the parallel workers and buffered writers","src/elements/embeddings/parsing.rs")],["parsing::*"])
p("C21","Precomputed embeddings equal the per-element embeddings",
 "The vector file computed from an elements file and a word-embeddings file loads as a collection with exactly one vector per element, in order, each the quantized unit-length version of that element's summed embedding; elements without any known word give a zero vector. This holds for every number of elements (including none and numbers around the internal chunking) and does not depend on thread interleaving, worker count or write splitting.",
 ["inputs","schedules"],"all element counts, contents and schedules",
 "The function is not tested at all.",
 ["src/elements/embeddings/parsing.rs","src/elements/angular_int.rs"],[("chunked parallel computation","src/elements/embeddings/parsing.rs: compute_embeddings_and_save_to_disk")],["parsing::compute_embeddings_and_save_to_disk","angular_int::Vectors::from_file"])
p("C22","A panic in one operation does not spread to others",
 "If an operation panics - because an element of the wrong dimension is inserted, or because the user's element container panics at any point of an insert, search, save or build - only the caller of that operation sees it. Operations of other threads going on at the same time or coming later finish and keep all their guarantees (ids, truthful answers, completed inserts found, consistent saves), no lock stays held, the index stays well-formed and can be filled, searched, saved and continued; a build that panicked can simply be run again and then gives everything a build gives.",
 ["schedules","histories","fault_sequences"],"all interleavings of operations, with a panic at any element access or of any inserted element",
 "No test provokes a panic and uses the index afterwards; where it strikes between two lock operations decides what it can break.",
 [RW,IX],[("guards released by unwinding","src/index/rw/mod.rs: insert_batch, search, write"),("layer taken out while it is built","src/index/mod.rs: index_elements_in_last_layer")],["RwGranneBuilder API","GranneBuilder::build"])
p("C23","Searches and reads never wait for a save or an insert in progress",
 "While a save waits for a slow or stuck device, or one insert is linking its elements, any number of threads can go on searching the concurrent builder and reading its elements and length: these operations finish without the slow one making any progress, also when further saves or inserts are already waiting for a save to end.",
 ["schedules","fault_sequences"],"all places where a save's device or an insert's linking stands still, all interleavings of the readers",
 "Tests save to memory and never let anything stand still.",
 [RW],[("inserts downgrade to read locks before linking","src/index/rw/mod.rs: insert_batch"),("a save only excludes inserts","src/index/rw/mod.rs: write")],["RwGranneBuilder::{search,len,get_element,get_elements}"])
p("C24","Files, mappings, threads and memory are given back",
 "Whatever was opened, mapped, started or allocated by loading, searching, building, saving, concurrent builders and data preparation is gone once the call has returned and its result has been dropped, also when it failed with an error or a panic: no file stays open or mapped, no thread stays alive, and repeating an operation does not use more and more memory.",
 ["histories","fault_sequences"],"all sequences of operations and drops with I/O faults at any operation",
 "Tests end the process right after their last assertion and never count what is left.",
 [IX,RW,"src/index/io.rs","src/slice_vector"],[("owned handles of mappings and layers","src/slice_vector, src/index/rw/rw_lock_slice_vector.rs"),("pool owned by the builder","src/index/rw/mod.rs")],["process file descriptors, mappings, threads, heap"])
p("C30","Distances are symmetric, bounded and zero exactly for parallel vectors",
 "The distance between two non-zero vectors depends only on their directions, is symmetric, at least 0 and at most 2, and is within float tolerance of zero for a vector and itself; the distance of a zero vector to anything is that of a maximally dissimilar one.",
 ["inputs"],"all pairs of vectors","Tests sample a few random vectors.",
 ["src/elements/angular.rs","src/elements/angular_int.rs","src/math.rs"],[("dot products and norms","src/math.rs")],["Dist::dist"])
p("C31","Quantization to 8 bits keeps direction within rounding error",
 "Converting a vector to 8-bit components keeps every component within one quantization step of the scaled original, so that the angle between original and quantized vector is bounded.",
 ["inputs"],"all vectors","Tests sample random vectors.",["src/elements/angular_int.rs"],[("scaling by the largest component","src/elements/angular_int.rs")],["angular_int::Vector::quantize"])
p("C32","Index files of earlier releases stay loadable",
 "An index file, a collection of elements or word embeddings written by an earlier release with the same serialization version (2) loads as exactly what was saved - layers, neighbor lists, elements - by every way of loading it (mapped, from bytes at any address, into a builder), whichever release wrote the metadata, and searches on it reach every element; loading never changes the files.",
 ["inputs","fault_sequences"],"all files in serialization version 2, all ways of loading them, under short and interrupted I/O","The tests only read files that the same build wrote, so a change of writer and reader together passes them.",
 ["src/index/io.rs","src/slice_vector","src/elements"],[("format version in metadata","src/index/io.rs"),("compressed neighbor lists","src/slice_vector/set_vector.rs"),("chunked offsets","src/slice_vector/offsets.rs")],["Granne::from_file","Granne::from_bytes","GranneBuilder::from_file","Vectors::from_file","SumEmbeddings::from_files"])
p("C33","Python bindings expose the same behaviour as the Rust API",
 "Every call of the Python module gives what the corresponding Rust call gives, with arguments in the documented order, under their documented names and with the documented defaults: builders (append, build, save), indexes (search, neighbors, elements, reorder, save), word embeddings, distances and data preparation. Wrong arguments and I/O failures raise an exception, leave the object usable, and a call that returns normally has done its work completely.",
 ["programs","schedules","fault_sequences"],"all Python programs using the module, all schedules of the library's threads, all I/O faults","The Python module is not exercised by the Rust suite.",["py/src/lib.rs","py/src/embeddings.rs","py/src/variants"],[("thin wrappers","py/src"),("word dictionary","py/src/variants/mod.rs")],["python module"])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80
print(len(P))
