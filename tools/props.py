"""What each check runs and what it can claim. Read by check.py and gen_manifest.py."""
TECH = "deterministic simulation with fault injection: seeded search over "
SIMMPI = "MPI library (simmpi: message matching, delivery order, eager/deferred/rendezvous sends, late receive copies, collectives, error returns, tag limit, clock)"
SCHED = "thread scheduling (one simulated process per rank, one runs at a time, the seed decides every switch)"
SIMFS = "operating system file calls (simfs: real files in a private scratch directory; the simulator decides for every open, read, write, close, truncate, rename whether it is cut short, interrupted, fails or kills the process)"
IO_REAL = ["conduit core", "relay io (basic, IOHandle, HDF5, Silo)", "HDF5 and Silo libraries", "libstdc++ file streams"]
BP_REAL = ["conduit core", "conduit_relay_mpi.cpp", "conduit_blueprint", "conduit_blueprint_mpi"]
MPI_REAL = ["conduit core", "conduit_relay_mpi.cpp"]

PROPS = {
    "C01": dict(runs=(60000, 4000000), level="exploration", technique=TECH + "message delivery orders, send modes and rank interleavings",
                rule="Each run draws 2-5 ranks (all or a permuted subset of the world), 1-2 phases of transfers over send/recv, isend/irecv, the using_schema pair and wildcard receives, with random trees (types, strides, offsets, byte order, external memory), and a transport (eager, deferred, rendezvous, mixed) and schedule.",
                real=MPI_REAL, stub=[SIMMPI, SCHED],
                assume=["the MPI library obeys the MPI standard's matching and progress rules", "receiving nodes are empty or have the layout the sender uses", "an object or list without children may arrive as an empty node (JSON schemas do not tell them apart)"],
                must=["scenario.p2p", "scenario.wildcard", "mpi.messages"]),
    "C02": dict(runs=(60000, 4000000), level="exploration", technique=TECH + "rank interleavings and collective arrival/departure orders",
                rule="Each run draws 2-6 ranks and 1-4 collectives (gather, all_gather, the using_schema variants, broadcast, reduce, all_reduce with sum/prod/min/max) with random trees and dirty receive nodes; results are compared with a reference computed from the inputs.",
                real=MPI_REAL, stub=[SIMMPI, SCHED],
                assume=["the MPI library obeys the MPI standard", "reductions are exact for the generated values, so their order does not matter"],
                must=["scenario.collectives"]),
    "C03": dict(runs=(60000, 4000000), level="exploration", technique=TECH + "message delivery orders, send modes and rank interleavings",
                rule="Each run draws 2-5 ranks and 1-3 batched exchanges with up to 8 messages each (self messages, repeated peers, tags beyond the limit), operations added in a random order per rank.",
                real=MPI_REAL, stub=[SIMMPI, SCHED],
                assume=["the MPI library obeys the MPI standard", "messages between one pair of ranks in one batch have distinct tags"],
                must=["scenario.exchange", "mpi.messages"]),
    "C04": dict(runs=(40000, 4000000), level="fault_enumeration", technique=TECH + "MPI call failures (any call, any rank) and rank interleavings",
                rule="Each run draws ranks, a communication (point-to-point, collective or batched exchange), and one MPI call on one rank that fails with a drawn error class (before or after taking effect where the standard allows both), or a receive that is too small for its message; then a later communication on another communicator.",
                real=MPI_REAL, stub=[SIMMPI, SCHED],
                assume=["a failing MPI call returns an error code to the caller (MPI_ERRORS_RETURN)", "ranks whose partner failed may stay blocked; only ranks that return are judged"],
                must=["scenario.mpi_error", "scenario.truncation", "probe.reported"]),
    "C15": dict(runs=(40000, 3000000), level="exploration", technique=TECH + "interrupted and short file operations, saved trees, protocols and options",
                rule="Each run draws a protocol, a save and a load route (Node, relay io, IOHandle, merged), HDF5 options, a random tree (types, strides, offsets, byte order, external memory, odd names) possibly over an older file, and a rate of EINTR and short reads and writes.",
                real=IO_REAL, stub=[SIMFS],
                assume=["a text protocol keeps values, names and order but not number widths", "an object or list without children may come back as an empty node"],
                must=["scenario.save_load", "scenario.raw_schema", "fault.shortio", "fault.eintr"]),
    "C16": dict(runs=(40000, 3000000), level="fault_enumeration", technique=TECH + "failing, short and torn file operations and process kills",
                rule="Each run saves (and loads) a random tree once without faults to count its file operations, then again with one drawn fault: an error (EIO, ENOSPC, EACCES, EMFILE; once or lasting; after part of the data) at a drawn operation, a full disk at a drawn byte, a file cut at a drawn byte, or a writer killed at a drawn operation. Then the same is done without fault.",
                real=IO_REAL, stub=[SIMFS],
                assume=["close that fails may have lost buffered data", "Silo: the library ignores failing writes, so only failing opens are injected while saving"],
                must=["scenario.save_fault", "scenario.load_fault", "scenario.torn_file", "scenario.killed_writer", "probe.reported", "fault.killed_writer", "fault.truncated_file"]),
    "C17": dict(runs=(60000, 4000000), level="exploration", technique=TECH + "handle operation histories, open modes and interrupted or short file operations",
                rule="Each run draws a protocol and 2-15 handle operations (open in any mode, close, destroy, write, read into clean or dirty nodes, remove, has_path, list) and compares every result with an in-memory tree; after every close a fresh reader checks the file. A second scenario injects one disk fault into a handle history and requires that whatever was closed without an error is in the file.",
                real=IO_REAL, stub=[SIMFS],
                assume=["HDF5 refuses to change the type or length of a stored leaf", "writing a list over an object in HDF5 (or the reverse) is not specified"],
                must=["scenario.history", "scenario.faulty_history", "probe.reported", "probe.read", "probe.written", "probe.removed"]),
    "C18": dict(runs=(24000, 2000000), level="fault_enumeration", technique=TECH + "histories of merging and partial writes, with a failing file operation at a drawn point",
                rule="Each run draws a protocol and 2-8 operations on one file: save_merged, hdf5_append, hdf5_write in append mode, sub-path saves of the basic protocols, with compatible or incompatible content, and checks the whole file against an in-memory tree after each. A second scenario makes one file operation of a merge fail (error, short, full disk); a third writes parts of HDF5 datasets (offset, stride, chunked or fixed) with and without faults.",
                real=IO_REAL, stub=[SIMFS],
                assume=["a write that was started and failed part way may leave an HDF5 file that HDF5 itself cannot open", "writing a new dataset at an offset without chunking is not specified"],
                must=["scenario.merge_history", "scenario.merge_fault", "scenario.partial_fault", "probe.merged", "probe.refused", "probe.partial", "probe.partial_read", "probe.reported", "probe.kept"]),
    "C19": dict(runs=(30000, 2000000), level="fault_enumeration", technique=TECH + "sequences of I/O calls with failing file operations",
                rule="Each run draws 1-6 I/O calls (save, load, merged, handle histories, HDF5 open/read/write/append, info calls; good and bad arguments) and possibly a failing file operation in each, and afterwards compares open descriptors, HDF5 identifiers by kind, Silo files, HDF5 error reporting, HDF5 options and Conduit's handlers with what they were before. A second scenario repeats one failing call and requires that live heap bytes do not grow.",
                real=IO_REAL, stub=[SIMFS, "ld --wrap counters around HDF5/Silo calls (pass through)", "malloc interposer (counts live bytes, passes through)"],
                assume=["identifiers and descriptors that HDF5 or Silo keep after their own open or close call failed are the libraries' matter"],
                must=["scenario.calls", "scenario.repeated_failure", "probe.failed_call", "probe.good_call", "probe.fault", "probe.repeated"]),
    "C20": dict(runs=(40000, 3000000), level="fault_enumeration", technique=TECH + "histories of mappings, edits and unmappings with failing system calls",
                rule="Each run saves a random tree as conduit_bin, maps it 1-3 times, edits through the mappings, remaps, resets and reloads, and compares with a byte model of the file; other scenarios make open, read, mmap or close fail, cut or remove the file before mapping, or map files beyond 2 GB (sparse).",
                real=["conduit core (Node::mmap, MMap)"], stub=[SIMFS + ", and mmap/munmap"],
                assume=["the file is not cut while it is mapped"],
                must=["scenario.mappings", "scenario.map_fault", "scenario.unmap_fault", "scenario.huge", "probe.mapped", "probe.edited", "probe.reported", "probe.huge", "fault.truncated_file", "fault.missing_file"]),
    "C24": dict(runs=(40000, 2500000), level="fault_enumeration", technique=TECH + "tables and text under failing, short and interrupted file operations",
                rule="Each run draws a table or a collection (1-4 columns, plain or with components, every number type, strided columns, 0-7 rows), saves and loads it over short and interrupted reads and writes and compares with the drawn numbers; or fails one open, read, write, close, mkdir or directory listing, or fills the disk, and requires an error or the exact tables, and recovery; or writes CSV text with a header or none, with damaged rows or cut at a byte, and compares with what the text says.",
                real=["relay CSV reader and writer", "relay save/load", "conduit core", "Blueprint table verification"], stub=[SIMFS],
                assume=["values need no more than six digits unless they are integers", "names hold no comma and are not all numbers", "a collection is saved into a directory without other CSV files", "a component column with one component may come back as a plain column"],
                must=["scenario.tables", "scenario.tables_fault", "scenario.text", "fault.damaged_row", "fault.truncated_file", "fault.disk_full", "probe.reported"]),
    "C21": dict(runs=(80000, 6000000), level="fault_enumeration", technique=TECH + "edit histories and failing data allocations",
                rule="Each run draws 2-4 trees with one of four allocators each and 4-44 edits (typed and strided sets, node copies also from relatives, schemas, external memory, aliases, fetch, append, remove, rename, swap, move, the three updates, compact_to, list_of, allocator changes, impossible requests) at drawn places, and compares all trees with a model after every edit: structure, names, order, parents, paths, types, values, addresses of external data, bytes of external memory, bytes held per allocator. In alloc_fault the k-th allocation of an edit returns NULL.",
                real=["conduit core (Node, Schema, DataType, DataArray)"], stub=["memory allocators (guarded, accounting, failing on request; also calloc of the default allocator)"],
                assume=["a source does not alias memory that the edit frees", "a node whose memory was freed with its owner is reset before use, as a user has to", "only allocations of node data fail, not C++ operator new", "setting fewer values than a compatible node holds overwrites its first elements (documented behaviour)"],
                must=["scenario.edits", "scenario.alloc_fault", "fault.alloc", "probe.alloc_reported", "probe.refused", "probe.in_place", "probe.related", "probe.swapped", "probe.updated", "probe.huge"]),
    "C22": dict(runs=(60000, 5000000), level="fault_enumeration", technique=TECH + "edit histories over accounting allocators and memory only registered handlers can access, with failing allocations",
                rule="conservation: the histories of C21 with every block checked when freed (allocator, once, guard bytes), bytes held per allocator compared with the model after every edit, nothing left at the end. device: the allocators hand out protected pages, so any bulk access not made through the registered copy and fill handlers faults, and handlers check bounds and liveness.",
                real=["conduit core (Node, Schema, DataType, DataArray)"], stub=["memory allocators (guarded or protected pages, accounting, failing on request)", "copy and fill handlers (open the pages for one copy)"],
                assume=["element access, text conversion and file I/O on memory the host cannot reach are not offered by Conduit", "a source does not alias memory that the edit frees"],
                must=["scenario.conservation", "scenario.device", "fault.alloc", "probe.handler_copy", "probe.handler_fill", "probe.alloc_reported", "probe.swapped", "probe.updated"]),
    "C05": dict(runs=(40000, 3000000), level="exploration", technique=TECH + "rank interleavings and collective completion orders over drawn placements",
                rule="Each run draws 1-5 ranks, a 2D or 3D grid (uniform, rectilinear, structured, quad/hex, tri/tet; other axis names, sparse or missing fields, gaps in the domain ids) cut into 1-6 domains, a placement (ranks may be empty, as object, list or empty node; domains as object, list or single), 1-4 queries, and for invalid meshes one or two corruptions.",
                real=BP_REAL, stub=[SIMMPI, SCHED], assume=["the MPI library obeys the MPI standard", "domain ids are unique over all ranks", "child order in a merged index is not specified"],
                must=["scenario.queries", "scenario.invalid", "scenario.no_domains"]),
    "C06": dict(runs=(40000, 3000000), level="exploration", technique=TECH + "message delivery orders, send modes and rank interleavings over drawn placements and maps",
                rule="Each run draws 1-5 ranks, a mesh of 1-6 domains, a placement and a domain map (one target each, random lists also empty, all to one, everything everywhere; offsets given or not, permuted, with gaps, with indices, 32 or 64 bit), into outputs that may hold other data, once or twice.",
                real=BP_REAL, stub=[SIMMPI, SCHED], assume=["the MPI library obeys the MPI standard", "domain ids are unique and are the positions in the map"],
                must=["scenario.distribute", "mpi.messages"]),
    "C08": dict(runs=(40000, 3000000), level="exploration", technique=TECH + "rank interleavings and collective completion orders over drawn placements, roots and options",
                rule="Each run draws 1-5 ranks, a mesh of 1-5 domains, a placement with possibly empty ranks and root, and every option of flatten; every cell of both tables is compared with values computed from the mesh's construction.",
                real=BP_REAL, stub=[SIMMPI, SCHED], assume=["the MPI library obeys the MPI standard", "all domains have the flattened topology and one axis naming", "element centers are single precision"],
                must=["scenario.flatten"]),
    "C07": dict(runs=(24000, 2000000), level="exploration", technique=TECH + "rank interleavings, message timing and collective completion orders over drawn meshes, placements, selections and targets",
                rule="Each run draws 1-4 ranks, a mesh of 1-6 domains of five kinds (uniform, rectilinear, structured, quad/hex, tri/tet), a placement with possibly empty ranks, domains with or without ids, fields, adjsets, and partition options: no, explicit, ranges, logical or field selections on all or on the owning rank, target, fields, mapping, destination ranks; the result is read back by its own mesh reader and compared element by element, vertex by vertex and field by field with the construction; fields are mapped back and compared; adjsets of the result are checked for symmetry, order and completeness; unusable selections on some ranks must not hang the others.",
                real=BP_REAL, stub=[SIMMPI, SCHED], assume=["the MPI library obeys the MPI standard", "selections do not overlap", "adjsets are only combined for unstructured meshes (documented by an error otherwise)"],
                must=["scenario.partition", "scenario.map_back", "scenario.partition_adjset", "scenario.partition_bad"]),
    "C13": dict(runs=(8000, 200000), level="exploration", technique=TECH + "rank interleavings (every file call, HDF5 open and close and MPI call is a scheduling point) over drawn meshes, placements, options and reader counts",
                rule="Each run draws 1-5 writer ranks (also on a sub-communicator), one or two meshes of 1-6 domains, a placement with possibly empty ranks, protocol (hdf5, json, yaml), directory, file style, number of files, suffix and mesh name; saves, loads again at once on the same ranks, then serially, then with 1-6 other ranks; every domain must come back once with its content, also of earlier cycles saved beside it, under any schedule, no file may be open for writing on two ranks. Further scenarios write several meshes into one set of files and save meshes without any domain.",
                real=IO_REAL + MPI_REAL, stub=[SIMMPI, SCHED, SIMFS], assume=["the MPI library obeys the MPI standard", "all ranks see one coherent file system", "domain ids are renumbered by a save (documented)", "meshes written into one set of files have as many domains and the same layout options"],
                must=["scenario.cycles", "probe.earlier_cycle", "scenario.save_load", "scenario.write_more", "scenario.no_data", "probe.load_straight", "probe.multi_domain", "probe.single_domain"]),
    "C14": dict(runs=(9000, 300000), level="fault_enumeration", technique=TECH + "failing, torn and lost file operations and full disks on a drawn rank during parallel save and load",
                rule="Each run draws a mesh, placement, options and schedule as for C13 and one fault: an error (EIO, ENOSPC, EACCES, EMFILE; once or lasting; after part of the data) at a drawn file operation of one or any rank, a full disk, or (loading) a file that is gone, cut or damaged. No rank may hang or crash; a save that succeeded on all ranks must reload exactly; a rank whose load succeeded must have exactly its domains; a save or load after the fault must work; a root file or mesh that is not there is reported on every rank.",
                real=IO_REAL + MPI_REAL, stub=[SIMMPI, SCHED, SIMFS], assume=["the MPI library obeys the MPI standard", "a close that fails may have lost buffered data", "cut YAML files cannot be told from complete ones"],
                must=["scenario.bad_root", "probe.bad_root", "scenario.save", "scenario.load", "probe.reported_everywhere", "probe.fault_harmless", "fault.disk_full", "fault.file_gone"]),
    "C09": dict(runs=(8000, 400000), level="exploration", technique=TECH + "rank interleavings and message timing over drawn meshes, domain decompositions and placements",
                rule="Each run draws 1-4 ranks, a mesh of 1-6 domains (blocks, or elements assigned to domains at random), a placement with possibly empty ranks, an adjset, and one generator (points, lines, faces, centroids, sides, corners); the derived topology is read back entity by entity by position, and its adjset is compared, for every pair of domains, with the entities both domains really have: each shared entity once, same order on both sides, same neighbors.",
                real=BP_REAL, stub=[SIMMPI, SCHED], assume=["the MPI library obeys the MPI standard", "generated corners list every corner at a shared vertex; only symmetry and order are judged for them"],
                must=["scenario.derive"]),
    "C10": dict(runs=(10000, 500000), level="exploration", technique=TECH + "rank interleavings and message timing over drawn queries, placements and corruptions",
                rule="Each run draws 1-5 ranks, a mesh with an adjset, a placement with possibly empty ranks, and one of: point queries of any rank against any domains (repeated, on vertices, near them and away from them), entity match queries between domains, validation of a correct adjset and of one with a single corruption, pointwise comparison of an adjset before and after one change, and validation of element adjsets; answers are computed from the construction.",
                real=BP_REAL, stub=[SIMMPI, SCHED], assume=["the MPI library obeys the MPI standard", "queried points are not within rounding of the tolerance's edge"],
                must=["scenario.points", "scenario.clouds", "scenario.entities", "scenario.validate", "scenario.compare", "scenario.validate_elements"]),
    "C11": dict(runs=(12000, 400000), level="exploration", technique=TECH + "rank interleavings and message timing over drawn meshes, placements and partitioner answers",
                rule="Each run draws 1-4 ranks (also sub-communicators), an unstructured 2D or 3D mesh (quads, triangles, hexes, tets or polytopes) cut into regular or scattered domains with ids that may have gaps, no adjset or a pairwise, max-share or incomplete one, a placement with possibly empty ranks, and options; the partitioner behind the call is ParMETIS itself over the simulated MPI, or a stand-in that gives any valid answer or declines. Ids, targets, the partitioner's input on every rank and the rest of the mesh are compared with the construction; some runs then repartition by the field.",
                real=BP_REAL + ["ParMETIS and METIS (a quarter of the runs)"], stub=[SIMMPI, SCHED, "ParMETIS_V3_PartMeshKway (three quarters of the runs)"], assume=["the MPI library obeys the MPI standard", "an adjset lists all domains that share a vertex (else only validity of the ids is checked)"],
                must=["scenario.field", "scenario.parmetis", "probe.parmetis", "probe.repartition"]),
    "C23": dict(runs=(60000, 1500000), level="exploration", technique=TECH + "interleavings of application and server threads (every transport call, lock, sleep and, in most runs, allocation is a scheduling point), connection and bind failures over drawn clients and application histories",
                rule="Each run draws up to six clients (web sockets that stay, leave, break, refuse the handshake, are slow, send text, control and malformed frames; requests that reply, fail or stop the server) with arrival times on a simulated clock, and an application that starts (also blocking, also with failing binds or document roots), waits for connections, sends from one or two threads, stops and restarts the server or destroys it. No message may go to a closed connection, be lost, repeated, reordered or reach another client; waits and blocked calls end within their bounds; no thread, context or handler outlives its server; no exception leaves a server thread. A second scenario sends requests to the node viewer: replies are exact and the node does not change; a third keeps connections microseconds long while two threads wait and send.",
                real=["relay web server, web sockets and node viewer", "civetweb's C++ wrapper (CivetServer)", "conduit core"], stub=["civetweb's C library (connections, worker threads, context lock, HTTP and frame parsing)", SCHED], assume=["web sockets are not used during or after shutdown (they belong to the server)", "the server is not destroyed while another thread is inside serve or a wait", "civetweb's locks are fair enough to make progress"],
                must=["scenario.sockets", "scenario.viewer", "scenario.churn", "probe.accepted", "probe.sent", "probe.two_senders", "probe.value", "fault.bind", "fault.write_failed"]),
    "C12": dict(runs=(20000, 600000), level="exploration", technique=TECH + "rank interleavings, message timing and unbuffered sends over drawn refined meshes and placements",
                rule="Each run draws 1-4 ranks (also sub-communicators), a 2D or 3D block mesh with moved vertices or uneven spacing, refinement levels per block (ratios 2-4, up to two levels in 2D), blocks cut further, shifted (also negative) index origins, ids with gaps, windows with or without corner and edge neighbours in any order, double or float coordinates, and a placement with possibly empty ranks; the conversion runs once or twice into empty or used nodes through either entry point. Every element, vertex, state and field of every domain is compared with the construction. Some runs take the topology away from one domain: every rank must refuse.",
                real=BP_REAL, stub=[SIMMPI, SCHED], assume=["the MPI library obeys the MPI standard", "explicit coordinates whose spacing is far above rounding", "3D: one refinement ratio per mesh", "domains at a finer level start and end at cell corners of coarser neighbours", "3D shapes are compared by vertex position: one point may have two vertex numbers where two finer domains meet"],
                must=["scenario.polygonal", "scenario.polyhedral", "scenario.refused", "probe.refined_edge", "probe.refined_side", "probe.refined_sides"]),
}
NOT_BUILT = {
    "C30": "pure function of its input: no schedule, clock, I/O, fault or second party for a simulator to control (its use inside save and load is exercised under C15-C17, and inside messages under C01-C03)",
    "C31": "pure function of its input: no schedule, clock, I/O, fault or second party for a simulator to control",
    "C32": "serial transforms of data in memory: no schedule, clock, I/O, fault or second party for a simulator to control (their distributed forms are C05-C12)",
    "C33": "the bindings are thin in-process wrappers without schedule, clock, I/O or fault behaviour of their own; Python and Fortran are also not part of this build",
}
