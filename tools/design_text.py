"""Text for DESIGN.md (gen_design.py): per property how it is decided; false alarms met; planted bugs and who catches them."""
HOW = {
"C01": "Ranks exchange random trees by every point-to-point call; the oracle is an independent byte-level description (`gen::canon`, reads memory through pointer, offset and stride) of what each sender held. Senders scribble over their node once their call or wait returned; receives are dirty. Deadlock = nothing can run. Reaches rendezvous, late copies, sub-communicators, many outstanding messages, none of which 2-rank OpenMPI tests show.",
"C02": "All collectives, any root, dirty receive nodes, ranks that leave early; results are compared with values computed from the inputs; simmpi also fails a run whose ranks pass mismatching sizes or operations.",
"C03": "Random exchange graphs (self messages, repeated peers, rounds), operations added in a random order per rank, under all transports; every receive node must equal its sender's and no rank may stay blocked.",
"C04": "A clean run counts MPI calls, then one call on one rank returns an error (or a message is too long for its receive). The rank must see an error code or exception, successful calls must have right data, handlers and later communication on another communicator must work.",
"C15": "Save by one route and load by another (Node, relay, IOHandle, merged) in all protocols with EINTR, short reads and short writes; the reloaded tree must equal the saved one byte for byte (text protocols: value for value).",
"C16": "The call is run once to count its file operations, then once more with one drawn fault (error at the k-th operation, once or lasting, after part of the data; disk full at byte k; lossy close; file cut at byte k; writer killed at operation k, torn write in flight). Success must mean intact data; afterwards the same save and load must work.",
"C17": "Random handle histories are replayed against an in-memory node; after every close a fresh load must show the model. A second scenario adds one disk fault: whatever was closed without an error must be in the file.",
"C18": "Histories of merging, appending, sub-path and partial (offset/stride) writes are replayed on an in-memory tree; after each operation a fresh load of the whole file must equal the model, refused operations must change nothing. Fault scenarios fail one file operation of one merge: an error must be reported, or old and new content be intact.",
"C19": "Before and after every call sequence the harness compares /proc/self/fd, HDF5 identifiers by kind (H5Fget_obj_count and ld --wrap tracking of every id Conduit opens), Silo handles, H5Eget_auto, HDF5 options and the Conduit handlers; in repeated_failure it compares exact live heap bytes over repetitions of one failing call.",
"C20": "Mappings of one file are edited in random histories beside a byte model of the file; fault scenarios fail or tear each system call of mapping and unmapping, cut or remove the file; files over 2 GB are sparse.",
"C21": "Random edit histories over several trees run beside `nodemodel.hpp` (ordered tree of typed arrays over byte buffers with explicit ownership and aliases); everything observable is compared after every edit. Failing allocations: the k-th allocation of an edit returns NULL (registered allocators or calloc), the edit must throw, all other data stay, the edited node can be walked, reset and reused.",
"C22": "The same histories with allocators that record, guard, poison and quarantine every block; bytes held per allocator must equal the model's after every edit. In `device` all blocks are PROT_NONE pages which only the registered memcpy/memset handlers open, so a bulk copy that bypasses them is a crash of the run.",
"C05": "Meshes come from `mesh.hpp`, which builds domains as blocks of a global grid and therefore knows every answer; the drawn placement is queried by all ranks and every rank's answer is compared with the serial query over the union (index, validity) or with the construction (counts, map, delegate, ids). Inputs must be unchanged.",
"C06": "Drawn maps in every allowed encoding; after the call each rank's domains are compared, as a multiset of canonical texts, with what the map asks for. A map entry without targets, replication, self sends, repeated targets and stale outputs are all drawn; a hang is a violation (deadlock or step limit).",
"C08": "The oracle computes both tables cell by cell from the construction (not by calling the serial code): rows in rank, domain and local order, coordinates, centers, fields, fill values, domain and rank columns; the column set must match exactly and other ranks must hold nothing.",
"C07": "Positions and connectivity of every output domain are read by the harness's own blueprint reader; each output element must be an input element that was selected, in exactly one output domain, with the input's field values, fields present exactly where the sources had them, original ids that name the element, the requested number of domains, unique domain ids, destination ranks obeyed, valid by blueprint verify, input unchanged. map_back writes drawn values on the partitioned mesh and requires them on the original elements and vertices, untouched values elsewhere, in the application's memory when there is any. Adjset groups are compared between domains by global vertex.",
"C13": "The mesh generator knows every domain; each reloaded domain (parallel with any number of readers, serial, and by the writing ranks right after the save) is compared by canonical text with the domain saved. Baton passing is tested by making every libc file call, H5Fopen/H5Fcreate/H5Fclose and MPI call a scheduling point, by a lost-update check (the content) and by an exclusive-writer check per path and rank.",
"C14": "The same with one drawn fault on one rank. The simulator turns a rank that left early into a reported deadlock; a success on all ranks is believed only if a fault-free serial load returns the exact mesh; then a fault-free save or load must work, so nothing half-open survives.",
"C09": "The mesh is built from one global grid, so every derived entity has a position that identifies it. The oracle computes from the construction which entities two domains share and compares each adjset group of the result with it: nothing missing, nothing that the neighbor lacks, each once, same order on both sides. Real ranks exchange their queries through the simulated MPI library, so placement, empty ranks and message timing vary with the seed.",
"C10": "Answers are computed from the construction: whether a domain has a vertex near a point (and which), whether it has an entity, whether an adjset was corrupted (a missing, foreign, doubled, swapped or shifted entry) and where. Queries come from any rank for any domain, repeatedly and one-sided.",
"C11": "ParMETIS is a seam of its own: the harness defines `ParMETIS_V3_PartMeshKway`, records what every rank passes, and either forwards to the real library, whose MPI calls run on the simulated MPI like conduit's, or answers with a hash of the element (so a shifted or mixed-up answer is visible), or declines. Oracle: the generated mesh knows which vertices are the same.",
"C24": "Drawn tables and collections go through relay save and load on the simulated file system, beside the numbers they were drawn from; fault scenarios fail, shorten or tear each file operation (open, read, write, close, mkdir, directory listing, full disk), and CSV text with damaged rows, without a header or cut at any byte is read beside an independent reading of the text. Tests never fail a file operation nor read text conduit did not write.",
"C23": "Conduit's web server, web sockets, node viewer and civetweb's C++ wrapper run unchanged on a simulated civetweb core (sim/simweb.cpp): two worker tasks per server serve scripted clients on the simulated clock and reuse their connection objects as the real ones do, the context lock blocks in the scheduler, and in most runs every k-th allocation or release inside conduit's code is a scheduling point, so a shared list changed without its lock is seen half changed. Oracles: what each client received against what was sent per web socket and thread, connection states, bounds on every wait, live contexts, handlers and exceptions at the thread boundary.",
"C12": "Block meshes with refinement levels are drawn with their exact geometry, cut into domains with adjset windows and placed on simulated ranks; `to_polytopal`, `to_polygonal` and `to_polyhedral` run on all ranks under drawn schedules in which sends may block until received. Oracle: for each cell the polygon, or the multiset of faces, computed from the geometry (which domain lies across each edge or side, how much finer it is), vertex positions, state, fields and the untouched input. A test has one layout and MPI's buffering; deadlocks and swapped windows need several domains per rank pair, other ratios and unbuffered sends.",
}
ALARMS = [
"C22 looked at every leaf of a tree after an edit that ran out of memory, also at leaves aliasing memory the edited node had owned and had freed, which is the user's affair (seen once in 60000 runs); such leaves are now left out, and dropped before the next comparison.",
"C09/C10: the harness first reused nodes for shorter vectors (Node::set keeps a compatible layout), read centroid maps as plain index arrays (they are count/id pairs), and put points closer to the tolerance than a float kd-tree can tell apart; all three were the harness's mistakes and were corrected.",
"C14 first expected a cut YAML file to be noticed (a prefix of a YAML document is a YAML document), and let HDF5's internal sleep, called with its lock held, reschedule (a deadlock of the harness); both corrected. Garbled HDF5 files are not generated, the library itself does not survive them.",
"C13 first tried protocols whose root file cannot be told from its content (conduit_json, conduit_base64_json) and meshes with different domain counts in one set of files; both are outside what is offered.",
"HDF5 chunk sizes smaller than one element are refused by conduit with an error; the generator now draws at least 8 bytes.",
"JSON and YAML do not keep number widths, and a lone JSON scalar, YAML and CSV have no end marker: text is compared by value, and truncation is not claimed there.",
"JSON files re-read as int64/float64 merge differently from the nodes first written (Node::update only copies elements in place between equal types); the model converts types at the same moment the file does.",
"HDF5 stores lists and objects as groups; writing one kind over the other is unspecified and no longer generated.",
"Silo ignores failing writes and closes inside the library (DBWrite/DBClose return success) and stays broken after a failed DBOpen; only failing opens are injected while saving Silo files.",
"C18's model at first kept an emptied root as an object, and took a new dataset written at an offset without chunking for specified behaviour; both corrected.",
"C19 first measured memory with mallinfo, which counts the thread cache; live blocks are now counted exactly by a malloc interposer. A failing DBOpen inside Silo keeps its own descriptor; that is not held against Conduit.",
]
CAUGHT = {
 "c01_isend_staging": "C01", "c02_same_size_schema": "C02", "c03_blocking_low": "C03",
 "c08_component_names": "C08", "c13_truncate_shared_file": "C13", "c14_error_one_rank": "C14", "c15_single_element_stride": "C15",
 "c17_close_read_only": "C17", "c21_strided_update": "C21", "c22_swap_allocator": "C22",
 "c12_right_corner": "C12", "c23_close_other": "C23",
}
