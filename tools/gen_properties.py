#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Keeping the text in one Python file makes it
reviewable; the .jsonl is the committed artefact."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=observe, hook_needed=hook)))
RM = "src/libs/relay/conduit_relay_mpi.cpp"
RIO = "src/libs/relay/conduit_relay_io.cpp"
RH = "src/libs/relay/conduit_relay_io_handle.cpp"
RB = "src/libs/relay/conduit_relay_io_blueprint.cpp"
H5 = "src/libs/relay/conduit_relay_io_hdf5.cpp"
ND = "src/libs/conduit/conduit_node.cpp"
BM = "src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp"

prop("C01", "Point-to-point messages deliver exactly the node that was sent",
 "A node sent to another rank (blocking or non-blocking, known-schema or schema-carrying, with a named or wildcard source and tag, on any communicator) arrives exactly once, at the rank and tag it was addressed to, with the same values, types, names and order, and messages of one sender with one tag arrive in the order sent. "
 "The outcome does not depend on whether the transport buffers messages or makes senders wait, on how deliveries interleave, or on how slow a rank is; no call in a matched communication pattern blocks forever. "
 "Bytes of a non-blocking receive are visible in the destination node once the wait returns, and the sender may change its node once its own call or wait has returned.",
 ["schedules", "inputs", "configurations"],
 "every interleaving and delivery order, buffered or synchronous transport, any node layout (compact, strided, external, nested, empty), any rank count, any communicator",
 "Tests run 2 real MPI ranks on one machine, where small messages are always buffered and arrive at once; they never see rendezvous sends, late delivery, sub-communicators, or more than one outstanding message per pair.",
 [RM, "src/libs/relay/conduit_relay_mpi.hpp"],
 [("schema+data packed into one message, probe then receive", RM+": send_using_schema / recv_using_schema"),
  ("temporary compact buffers held by Request until wait", RM+": isend / irecv / wait_recv / wait_all")],
 ["conduit::relay::mpi::send/recv/isend/irecv/wait/wait_all", "MPI calls"],
 state=[("Request::m_buffer", "compact copy that must outlive the transfer", "src/libs/relay/conduit_relay_mpi.hpp")])

prop("C02", "Collectives give every rank the mathematically defined result",
 "Gather, all-gather, broadcast, reduce and all-reduce of nodes (known-schema and schema-carrying forms) leave on each receiving rank exactly the contributions of all ranks in rank order, the root's node, or the element-wise reduction, whatever the root, rank count, communicator, memory layout or per-rank size. "
 "Nodes that only take part as senders are unchanged, and all participants issue matching collective operations so none can hang or exchange mismatched buffers, however ranks are delayed.",
 ["schedules", "inputs", "configurations"],
 "every arrival order and early-leave behaviour the MPI standard allows, every root, rank count, sub-communicator, dtype, operation and per-rank schema (including empty ones)",
 "Tests use 2 ranks, root 0, one or two fixed schemas and a real MPI library that tolerates some mismatched arguments.",
 [RM], [("sizes exchanged first, then variable-size gather of schemas and data", RM+": gather_using_schema / all_gather_using_schema"),
  ("length, schema, data broadcast sequence", RM+": broadcast_using_schema"),
  ("compaction before and scatter back after the reduction", RM+": reduce / all_reduce")],
 ["conduit::relay::mpi collectives", "MPI collective calls"])

prop("C03", "Batched exchanges deliver every scheduled node exactly once, no deadlock",
 "For any globally matched set of scheduled sends and receives (several per pair of ranks, to self, in any order on each rank, with empty or non-contiguous nodes), executing the batch on all ranks completes on every rank and fills every receive node with exactly the node sent with that source and tag. "
 "Completion and results are independent of schedule, message buffering and the order in which operations were added, and the batch object can be used again for another round.",
 ["schedules", "inputs", "histories"],
 "every exchange graph, add-order, delivery interleaving, buffered or rendezvous transport, repeated rounds",
 "Tests exercise one fixed 2-rank pattern once; deadlock and cross-talk between messages need particular orders and non-buffered sends.",
 [RM], [("post all receives/sends, probe sizes, wait all, rebuild nodes from schema", RM+": communicate_using_schema::execute")],
 ["conduit::relay::mpi::communicate_using_schema"])

prop("C04", "A failed MPI operation is reported, never turned into wrong data",
 "When an underlying MPI call fails on a rank and the communicator returns errors, the Conduit communication routine on that rank reports the failure (non-success code or conduit error) instead of returning success. "
 "No routine that reports success hands back data that differs from what was sent, no failed call corrupts memory, leaks into the process-wide error handlers, or prevents a later communication on another communicator from working.",
 ["fault_sequences", "schedules"],
 "a failure return injected at any MPI call site on any rank, any schedule",
 "The real MPI library never fails in the tests.",
 [RM], [("CONDUIT_CHECK_MPI_ERROR and returned codes", "src/libs/relay/conduit_relay_mpi.cpp"),
  ("scoped MPI error handler and conduit handlers restored after a batch", RM+": communicate_using_schema::execute")],
 ["return codes and conduit::Error of conduit::relay::mpi", "conduit::utils handlers"])

prop("C05", "Distributed mesh queries agree on all ranks and match the whole mesh",
 "Global queries over a mesh whose domains are spread over ranks (validity, total number of domains, domain-to-rank map, mesh index) return on every rank the same answer, equal to the one obtained by the serial query on the union of all domains, for any assignment of domains to ranks including ranks without domains. "
 "A mesh that is invalid on any one rank is reported invalid on every rank.",
 ["schedules", "inputs", "configurations"],
 "every assignment of domains to ranks, empty ranks, which rank holds the invalid domain, every schedule",
 "Tests use 2 ranks with one fixed assignment and few empty-rank cases.",
 [BM, "src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp"],
 [("all-reduce of local verdicts and counts", BM+": verify / number_of_domains"),
  ("gather, merge and broadcast of per-rank indexes", BM+": generate_index"),
  ("all-gather of local domain ids", BM+": generate_domain_to_rank_map")],
 ["conduit::blueprint::mpi::mesh::{verify,number_of_domains,generate_index,generate_domain_to_rank_map}"])

prop("C06", "Redistribution puts each domain copy on exactly the requested ranks",
 "Distributing a mesh by a domain map leaves on every rank exactly the domains the map assigns to it, each bit-for-bit equal to the original, none lost, duplicated beyond the map, or invented, with unrequested domains gone. "
 "This holds for any map (permutation, replication, emptying ranks), any rank count and any message schedule, and always completes.",
 ["schedules", "inputs", "configurations"],
 "every initial placement and target map, rank count, schedule",
 "Tests cover a 2-rank and a 4-rank fixed map on a buffering MPI.",
 ["src/libs/blueprint/conduit_blueprint_mpi_mesh_distribute.cpp"],
 [("exchange plan from global domain map + batched exchange", "src/libs/blueprint/conduit_blueprint_mpi_mesh_distribute.cpp: distribute")],
 ["conduit::blueprint::mpi::mesh::distribute"])

prop("C07", "Parallel partitioning conserves the mesh for every placement and schedule",
 "Partitioning a distributed mesh by any selection set and target count yields globally exactly the selected elements, each once, with the coordinates and field values they had, the same as serial partitioning of the same domains, with the requested number of domains. "
 "Mapping fields back restores each element's values on the original domains, and no rank hangs.",
 ["schedules", "inputs", "configurations"],
 "every placement of domains on ranks, selection kinds, target counts, schedules",
 "Tests compare 4-rank runs to stored baselines for few selections and one placement.",
 ["src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp", "src/libs/blueprint/conduit_blueprint_mesh_partition.cpp"],
 [("global chunk info gather, chunk-to-rank map, exchange of chunks, local combine", "src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp"),
  ("original vertex/element ids", "src/libs/blueprint/conduit_blueprint_mesh_partition.cpp")],
 ["conduit::blueprint::mpi::mesh::partition / partition_map_back"])

prop("C08", "Flattening a distributed mesh yields one complete table on the root rank",
 "Flattening a mesh spread over ranks yields on the chosen root exactly one row per vertex and per element of every domain of every rank, with correct coordinates, centers, field values and domain and rank attribution, equal to the serial flattening of the same domains in rank order; other ranks get no rows. "
 "This holds for any root, placement, empty ranks and schedule.",
 ["schedules", "inputs", "configurations"],
 "every root, placement, empty ranks, schedule",
 "Tests use 4 ranks with fixed placements.",
 ["src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.cpp", "src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp"],
 [("gather of table sizes and per-rank tables to root", "src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.cpp: ParallelMeshFlattener")],
 ["conduit::blueprint::mpi::mesh::flatten"])

prop("C09", "Derived topologies keep inter-domain adjacency consistent across ranks",
 "Generating points, lines, faces, centroids, sides or corners of a distributed mesh with adjacency sets yields adjacency sets that are symmetric between domains and list, on both sides in the same order, entities at the same physical locations; every entity shared by two domains appears. "
 "The result is the same for every placement of domains on ranks and every schedule.",
 ["schedules", "inputs", "configurations"],
 "every domain decomposition, placement and schedule",
 "Tests check two examples on 2 ranks.",
 [BM, "src/libs/blueprint/conduit_blueprint_mesh.cpp", "src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp"],
 [("remote existence queries on candidate shared entities", BM+": generate_derived_entities / generate_decomposed_entities"),
  ("PointQuery / MatchQuery exchanges", "src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp")],
 ["conduit::blueprint::mpi::mesh::generate_{points,lines,faces,centroids,sides,corners}"])

prop("C10", "Cross-domain point, match and adjacency queries give the true answer",
 "Asking other domains, wherever they live, whether they contain given points or given entities, and comparing or validating adjacency sets across domains, gives the same answer as looking at those domains locally: present entities are found with a correct index, absent ones are reported absent, and every corrupted adjacency set is reported on every rank. "
 "Results are the same for every placement and schedule.",
 ["schedules", "inputs", "configurations"],
 "every set of queries, placement and schedule, and every single corruption of an adjacency set",
 "Tests run one 2-rank example per query.",
 ["src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp", "src/libs/blueprint/conduit_blueprint_mesh_utils.cpp"],
 [("PointQuery / MatchQuery execute", "src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp"),
  ("adjset::compare_pointwise / validate", "src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp")],
 ["conduit::blueprint::mpi::mesh::utils::query::*", "conduit::blueprint::mpi::mesh::utils::adjset::*"])

prop("C11", "Graph partitioning assigns every element one valid target on all ranks",
 "Generating a partition field for a distributed unstructured mesh gives every element of every domain exactly one target in the requested range and globally unique element and vertex ids (shared vertices agreeing between domains), leaves the rest of the mesh untouched, and never hangs, for any placement including ranks with no domains. "
 "Repartitioning by that field conserves all elements.",
 ["schedules", "inputs", "configurations"],
 "every placement, empty ranks, requested partition count and schedule",
 "Tests run one 2-rank example.",
 ["src/libs/blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp"],
 [("global id generation by exclusive scans over ranks and adjset", "src/libs/blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp")],
 ["conduit::blueprint::mpi::mesh::generate_partition_field"])

prop("C12", "Parallel polytopal conversion makes level changes conforming for any placement",
 "Converting a multi-domain structured mesh whose adjset has windows, with neighbouring domains at different refinement levels, to polygonal (2D) or polyhedral (3D) form keeps exactly one element per original element in order, and each element keeps its shape: a polygon is its cell's corners plus exactly the vertices finer neighbours have on its edges; a polyhedron has, on a side with a finer neighbour, exactly that neighbour's faces, and on its other faces the vertices those put on the shared edges. "
 "Original vertices keep their numbers and positions, the domain's state (and in 2D its fields) is carried over, the input is untouched, and the result is the same for every placement of domains on ranks, including ranks with none, and every schedule; no rank hangs, and a mesh that cannot be converted is refused on all ranks.",
 ["schedules", "inputs", "configurations"],
 "every placement of domains on ranks and schedule, refinement ratio, origin and order of neighbours",
 "Tests check only that one 2-rank example verifies.",
 [BM], [("exchange of boundary vertex windows between neighbouring domains", BM+": to_polygonal / to_polyhedral / match_nbr_elems")],
 ["conduit::blueprint::mpi::mesh::to_polytopal", "conduit::blueprint::mpi::mesh::to_polygonal", "conduit::blueprint::mpi::mesh::to_polyhedral"])

prop("C13", "Parallel mesh files reload to the same mesh for any decomposition",
 "A mesh written in parallel with any number of ranks, domains per rank (including none), target number of files, file layout, protocol and output directory can be reloaded, by any number of ranks and serially, as exactly the same set of domains with the same content. "
 "Files are complete when the call has returned on all ranks, a file is never open for writing on two ranks at once, and no rank hangs under any schedule.",
 ["schedules", "inputs", "configurations"],
 "every placement, files option, suffix, protocol, directory, reader rank count and schedule",
 "Tests use 2 ranks and a few options; relative speed of ranks is never controlled.",
 [RB, "src/libs/relay/conduit_relay_mpi_io.cpp"],
 [("baton passing between ranks sharing a file; global file/domain map; delegate rank writes root file", RB+": write_mesh"),
  ("round-robin domain reading from the root index", RB+": read_mesh")],
 ["conduit::relay::mpi::io::blueprint::{save_mesh,write_mesh,load_mesh,read_mesh}"])

prop("C14", "An I/O fault on one rank makes a parallel mesh save fail without hanging",
 "If any file operation fails on any rank during a parallel mesh save or load, no rank hangs or aborts, and the failure is reported on at least every rank whose data was affected; a save that returned success on all ranks reloads to exactly the mesh that was saved. "
 "After the fault has cleared, a new save of the same mesh to the same place succeeds.",
 ["fault_sequences", "schedules", "crash_points"],
 "a fault at any file operation of any rank, any schedule, any options",
 "Tests never inject I/O faults; partial failure across ranks is unreachable for them.",
 [RB], [("all-reduce of per-rank error status before the next collective", RB+": write_mesh")],
 ["conduit::relay::mpi::io::blueprint::save_mesh", "libc file calls", "HDF5 file open/close"])

prop("C15", "A successful save reloads exactly, in every protocol, despite I/O hiccups",
 "For every file protocol, when saving a node reports success, loading the file gives back the same tree, names, order, types and values (as far as that protocol represents them), whatever the memory layout of the node saved. "
 "Interrupted calls, short reads and short writes by the operating system never change the outcome.",
 ["fault_sequences", "inputs", "configurations"],
 "every node tree and layout, protocol, and sequence of interrupted or short I/O calls",
 "Tests run a few fixed nodes on a file system that always reads and writes in full.",
 [ND, RIO, H5, "src/libs/relay/conduit_relay_io_csv.cpp"],
 [("serialize / schema file pair", ND+": Node::save / Node::load"), ("text protocols via generator", ND+": to_json_stream, to_yaml_stream"),
  ("HDF5 group/dataset mapping", H5)],
 ["conduit::Node::save/load", "conduit::relay::io::save/load"])

prop("C16", "Disk faults during save or load are reported, never silent data loss",
 "If the operating system reports an error (failed open, read, write or close, full disk) that affects a save or load, the call reports an error; it never returns success while the file or the loaded node lacks data. "
 "Loading a file cut short at any byte, or left behind by a process that was killed while writing a new file, either reports an error or yields exactly the saved data (for formats whose end can be recognised: all but YAML, CSV and a lone JSON scalar), and neither case crashes or leaves the process unable to save and load the same data once the fault is gone. "
 "For Silo files, only failing opens are covered while saving: the Silo library itself ignores failing writes.",
 ["fault_sequences", "crash_points", "inputs"],
 "an error at any file system call, a truncation at any byte, a kill at any file operation, every protocol and node",
 "Tests never meet a failing disk or torn file.",
 [ND, RIO, H5], [("stream state checks", ND), ("HDF5 return code checks", H5)],
 ["conduit::Node::save/load", "conduit::relay::io::save/load", "libc file calls"])

prop("C17", "I/O handle histories behave like an in-memory tree backed by the file",
 "Any sequence of open, write, read, list, has-path, remove, close and re-open operations on an I/O handle behaves as the same operations on an in-memory tree that is persisted at close: reads return the latest writes, writing a path changes nothing outside it, removed paths are gone, and content persists over close and re-open. "
 "Operations not allowed by the open mode or on a closed handle fail and change nothing, and closing reports failure to persist. (HDF5 refuses to replace a leaf by one of another type or size; writing a list over an object or the reverse is not specified there.)",
 ["histories", "fault_sequences", "configurations"],
 "every operation sequence, open mode and protocol with or without I/O faults",
 "Tests use one scripted sequence per mode.",
 [RH, H5], [("mode checks", RH+": IOHandle::HandleInterface"), ("in-memory tree flushed on close", RH+": BasicHandle"), ("HDF5 file handle", RH+": HDF5Handle")],
 ["conduit::relay::io::IOHandle"])

prop("C18", "Merging or appending to a file preserves what is not written",
 "Saving merged (save_merged), appending to, or writing a sub-path of an existing file leaves all other content of that file unchanged and makes the new content readable, for any sequence of such operations with any mix of compatible types and sizes; partial HDF5 writes (offset, stride) change exactly the addressed elements. "
 "An operation that is refused (incompatible content, bad path) reports it and leaves the file as it was; one whose file operations fail reports it, and one that reports success has kept the old and stored the new content. A merge that cannot read the old file reports that and does not replace it.",
 ["histories", "fault_sequences"],
 "every sequence of save, save_merged, sub-path writes, partial (offset/stride) reads and writes",
 "Tests script a handful of two-step sequences.",
 [RIO, H5], [("compatibility checks before writing", H5+": check_if_conduit_object_is_compatible_with_hdf5_tree"), ("hyperslab options", H5)],
 ["conduit::relay::io::save_merged/save/load with sub-paths", "conduit::relay::io::hdf5_write/hdf5_read"])

prop("C19", "Failed or abandoned I/O never leaks files, handles or library state",
 "After any sequence of I/O calls, successful or failing because of faults or bad input, all file descriptors and HDF5 and Silo identifiers opened by Conduit are closed, HDF5's error reporting, the HDF5 options and Conduit's error, warning and info handlers are as before, and destroying an open handle never aborts the process. A call that fails again and again does not use up memory, descriptors or identifiers.",
 ["fault_sequences", "histories"],
 "every call sequence and fault position",
 "Tests check HDF5 handle counts in one success and few failure cases.",
 [H5, RH, ND], [("close on error paths", H5), ("HDF5 error suppressor", H5+": HDF5ErrorStackSupressor")],
 ["open descriptors", "H5Fget_obj_count", "H5Eget_auto", "conduit::utils handlers"])

prop("C20", "Memory-mapped nodes and their files stay the same data",
 "A node memory-mapped onto a saved file shows exactly the saved values; values set through the node are in the file once the node has been reset or destroyed, and are seen by other mappings and loads, while bytes not written stay unchanged. "
 "If mapping fails at any step an error is reported, the node stays usable and nothing leaks.",
 ["histories", "fault_sequences"],
 "every sequence of map, set, unmap, reload, and a failure at any mapping step",
 "Tests map one file once without faults.",
 [ND], [("Node::mmap / MMap open, close", ND)], ["conduit::Node::mmap"])

prop("C21", "Node edits behave as an ordered tree and failed allocation corrupts nothing",
 "Any history of node edits (set, set_external, fetch, append, remove, rename, move, swap, update, compact, reset, copy) behaves like the same history on a simple ordered tree of typed arrays, with external data aliased rather than copied. "
 "Impossible requests (missing index, name or path, existing new name) are refused and change nothing. If an allocation of node data fails in the middle of an edit the failure is reported as an error, data outside the node being edited is unchanged, and every node can still be inspected, reset, reused and destroyed.",
 ["histories", "fault_sequences"],
 "every edit history, layout and position of a failing allocation",
 "Tests script short sequences and never fail an allocation.",
 [ND, "src/libs/conduit/conduit_schema.cpp"], [("Node/Schema hierarchy kept in step", ND), ("allocate / release", ND)],
 ["conduit::Node public API"])

prop("C22", "Node memory is conserved and goes through its own allocator and handlers",
 "Every byte a node allocates comes from the allocator configured for that node and is released through the same allocator exactly once, by the time the node is reset or destroyed, over any history of edits and allocator changes; external data is never freed. "
 "User-registered copy and fill handlers see every bulk copy and fill to or from such memory, and nothing is leaked when an operation fails.",
 ["histories", "fault_sequences"],
 "every edit history, allocator mix, failing allocations and failing operations",
 "Tests use one custom allocator and count one allocation.",
 [ND, "src/libs/conduit/conduit_utils.cpp"], [("m_allocator_id and allocator registry", "src/libs/conduit/conduit_utils.cpp"), ("release/free bookkeeping", ND)],
 ["conduit::utils::register_allocator", "conduit::utils::set_memcpy_handler/set_memset_handler"])

prop("C23", "Web server connections are safe and live under any thread schedule",
 "A web socket handed to the application delivers each message completely, in order and never to a connection that has been closed, whatever the timing of connects, sends, closes and shutdown on server and application threads. "
 "Waiting for a connection or for shutdown returns in bounded time after the event or timeout, and starting, stopping and destroying the server in any order, also from a request handler, neither hangs nor touches freed connections. "
 "Requests and frames of clients, well-formed or not, are answered or dropped without ending the process or changing the data served.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of application and server threads, connection failures, timeouts",
 "Tests start a server and stop it; thread timing is whatever the machine gives.",
 ["src/libs/relay/conduit_relay_web.cpp", "src/libs/relay/conduit_relay_web_node_viewer_server.cpp"],
 [("per-context locks around connection list and writes", "src/libs/relay/conduit_relay_web.cpp: WebSocket / WebServer")],
 ["conduit::relay::web::WebServer / WebSocket"])

prop("C24", "Tables saved as CSV come back whole or not at all",
 "A Blueprint table, or a named or listed collection of tables, saved as CSV and loaded again has the same tables in the same order, the same columns and rows, and the same values (integers exactly, other numbers to the six digits written), whatever the memory layout of its columns. "
 "CSV text from elsewhere, with or without a header line, is read as the numbers it holds. When a file operation fails at any point, or a row has too many or too few entries or an entry that is no number, an error is reported: no table with missing rows, missing tables or other values is returned, no memory outside the table is touched, nothing leaks, and the same operation works once the fault is gone.",
 ["histories", "fault_sequences"],
 "every table, text and position of a failing or short file operation",
 "Tests save and load five example tables without faults.",
 ["src/libs/relay/conduit_relay_io_csv.cpp", "src/libs/relay/conduit_relay_io.cpp"], [("read_single_table / read_csv_data / read_many_tables", "src/libs/relay/conduit_relay_io_csv.cpp"), ("write_row_based / write_multiple_tables", "src/libs/relay/conduit_relay_io_csv.cpp")],
 ["conduit::relay::io::save/load with protocol csv", "conduit::relay::io::read_csv/write_csv"])

# --- properties a user relies on that have no schedule, fault, clock or multi-party behaviour
prop("C30", "Text conversions of nodes and schemas are lossless for representable data",
 "Converting any node or schema to its JSON, YAML, base64 or summary text and parsing it back gives an equal node, and malformed text is rejected with an error rather than a crash.",
 ["inputs"], "every tree and text", "Tests sample a few documents.",
 ["src/libs/conduit/conduit_generator.cpp", ND], [("Generator walkers", "src/libs/conduit/conduit_generator.cpp")], ["Node::to_json/parse"])
prop("C31", "Typed access converts numerically for every stride, offset and endianness",
 "Reading or assigning leaf data through any typed accessor, array view or conversion gives the mathematically converted value of each element irrespective of layout and byte order.",
 ["inputs"], "every dtype pair, layout and value", "Tests sample few values.",
 ["src/libs/conduit/conduit_data_array.cpp", "src/libs/conduit/conduit_data_accessor.cpp"], [("strided element_ptr", "src/libs/conduit/conduit_data_array.hpp")], ["DataArray, DataAccessor"])
prop("C32", "Serial Blueprint checks are exact and transforms preserve geometry",
 "The serial mesh verification accepts all and only trees that conform to the Blueprint, and serial transforms (coordset and topology conversion, element generation, matset and adjset conversion) preserve points, connectivity, volumes and fields.",
 ["inputs"], "every mesh", "Tests sample examples.",
 ["src/libs/blueprint/conduit_blueprint_mesh.cpp", "src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp"], [("verify functions", "src/libs/blueprint/conduit_blueprint_mesh.cpp")], ["conduit::blueprint::mesh"])
prop("C33", "C, Python and Fortran bindings expose the same node as the C++ API",
 "Every operation made through a language binding has the same effect and result as the C++ call it wraps.",
 ["inputs", "programs"], "every binding call", "Tests sample calls.",
 ["src/libs/conduit/c", "src/libs/conduit/python", "src/libs/conduit/fortran"], [("thin wrappers", "src/libs/conduit/c/conduit_node_c.cpp")], ["conduit_node_* C functions"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
