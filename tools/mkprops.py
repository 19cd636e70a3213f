#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
NOHOOK = None
I = "include/sdsl/"

prop("C01", "Stored structures come back identical",
 "Any structure of the library that is written to a file or stream and later loaded, into a fresh object or over any previous value, answers every query exactly as the original did and serialises again to the same bytes. Writing produces exactly the number of bytes it reports and loading consumes exactly those bytes, so structures can follow one another in one stream. This holds wherever the file lives (disk or RAM file) and however the system splits the reads and writes.",
 ["histories", "fault_sequences", "inputs"],
 "every serialisable class, every content, every sequence of store/load into fresh and used objects, every legal splitting (short or interrupted read/write) of the I/O, disk and RAM files",
 "Tests store and load a few objects once, into fresh objects, on a file system that never splits a transfer; most classes' loaders are exercised for one content and one position in the stream.",
 [I+"io.hpp", I+"int_vector.hpp", I+"csa_sada.hpp", I+"cst_sct3.hpp", I+"cst_sada.hpp", I+"wt_pc.hpp", I+"wt_int.hpp", I+"rrr_vector.hpp", I+"sd_vector.hpp", I+"bp_support_sada.hpp", I+"k2_treap.hpp", "lib/io.cpp", "lib/ram_filebuf.cpp"],
 [("serialize/load member functions of every class", "include/sdsl/*.hpp"), ("write_member/read_member", I+"io.hpp"), ("store_to_file/load_from_file, checked variants", I+"io.hpp, lib/io.cpp"), ("set_vector/set_supported re-linking of support structures after load", "include/sdsl/*.hpp")],
 ["store_to_file return value", "bytes of the file", "answers of the loaded object"])

prop("C02", "A failed store is reported as failed",
 "The functions that store an object or a plain array to a file (also with type check, and into the construction cache) report success only if the complete, correct content has reached the file. If opening, writing, flushing or closing the file fails at any point (no space, I/O error, no permission), the call reports failure.",
 ["fault_sequences", "inputs"],
 "every store function, every object, every point at which opening, a write, a flush or the close fails",
 "No test makes a write fail; a full disk or failing close cannot be provoked by unit tests on a real file system.",
 [I+"io.hpp", "lib/io.cpp", "lib/sfstream.cpp", I+"sfstream.hpp"],
 [("store_to_file / store_to_checked_file / store_to_plain_array / store_to_cache", I+"io.hpp"), ("osfstream::close sets failbit when the buffer cannot be closed", "lib/sfstream.cpp")],
 ["return value of the store function", "bytes of the file afterwards"])

prop("C03", "A load that cannot succeed is reported and harmless",
 "Loading from a file that is missing, cut short at any byte, unreadable at any read, or (for checked files) written for another type is reported as failure. The process does not crash, hang, or corrupt memory, and the object involved can afterwards be destroyed, assigned and loaded again normally.",
 ["fault_sequences", "inputs", "crash_points"],
 "every loadable vector/bit vector/plain or checked file, every truncation length, every read at which an I/O error strikes, every following operation on the object",
 "Tests only load files that were written completely a moment earlier.",
 [I+"io.hpp", "lib/io.cpp", I+"int_vector.hpp", I+"util.hpp", "lib/util.cpp"],
 [("load_from_file / load_from_checked_file / load_vector_from_file / load_from_cache", I+"io.hpp"), ("read_member", I+"io.hpp"), ("int_vector::load", I+"int_vector.hpp"), ("util::file_size", "lib/util.cpp")],
 ["return value", "state of the object", "process outcome"])

prop("C04", "Disk-backed integer vector equals an in-memory vector",
 "A disk-backed integer vector behaves as a plain in-memory vector of the same width for every history of reads, writes, appends, compound updates, iterator walks, buffer-size changes, resets, moves, swaps, closes and reopenings, with any buffer size and any legal splitting of file reads and writes. After it is closed, its file is exactly the serialised vector (or the plain array, for plain files). A vector that is only read never writes to its file.",
 ["histories", "configurations", "fault_sequences"],
 "every operation history, width, buffer size, RAM or disk file, plain or serialised file, starting offset, and splitting of the I/O",
 "Tests run a few fixed access patterns with a few buffer sizes; block boundaries, interleaved dirty blocks and move/swap histories form an unbounded space.",
 [I+"int_vector_buffer.hpp", I+"sfstream.hpp", "lib/sfstream.cpp"],
 [("read_block/write_block with a dirty flag", I+"int_vector_buffer.hpp"), ("header rewritten at close()", I+"int_vector_buffer.hpp"), ("move/swap reopen the files", I+"int_vector_buffer.hpp")],
 ["values read", "size/width", "file bytes after close"])

prop("C05", "Disk-backed integer vector is never silently wrong",
 "If a read, write or seek under a disk-backed integer vector fails, then either the vector reports it is no longer good, or every value it returns afterwards and the file it leaves are those of the fault-free history. Failures never crash the process.",
 ["fault_sequences", "histories"],
 "every history and every point at which a file operation fails",
 "Tests never make I/O fail.",
 [I+"int_vector_buffer.hpp", "lib/sfstream.cpp"],
 [("good()", I+"int_vector_buffer.hpp"), ("stream state of the underlying file streams", "lib/sfstream.cpp")],
 ["good()", "values read", "file bytes after close"])

prop("C06", "Memory-mapped integer vector equals an in-memory vector",
 "A memory-mapped integer vector behaves as a plain vector for every history of element updates, appends, resizes, moves, closes and reopenings, and after it is destroyed its file is exactly the serialised (or plain) vector. If opening, resizing or mapping the file fails, this is reported by an exception, data not involved in the failed operation stays intact, the object remains destructible, and no mapping or file descriptor is left behind.",
 ["histories", "fault_sequences", "configurations"],
 "every operation history, every width, serialised and plain files, disk, and every point at which open, ftruncate, fstat or mmap fails",
 "Tests use a handful of fixed files and never see a failing system call.",
 [I+"int_vector_mapper.hpp", "lib/memory_management.cpp", I+"memory_management.hpp"],
 [("bit_resize unmaps, truncates and remaps", I+"int_vector_mapper.hpp"), ("destructor trims the file and rewrites the header", I+"int_vector_mapper.hpp"), ("memory_manager::mem_map/mem_unmap/truncate_file_mmap", "lib/memory_management.cpp")],
 ["values", "file bytes after destruction", "open descriptors and mappings"])

prop("C07", "RAM files behave like disk files",
 "For every history of stream operations (open in the supported modes, write, read, seek, tell, close), renames, removals, existence and size queries through the library's file functions, a file kept in RAM gives the same results as the same file kept on disk. (Histories in which a file is opened by a writer while it is open elsewhere, or renamed or removed while it is open, are not covered; nor are positions told by streams in append mode, nor transfers on a stream opened without the flag of its own direction.)",
 ["histories"],
 "every history of opens, reads, writes, seeks, renames, removals and size queries over a small set of names, with at most one writer per open file",
 "Tests use RAM files only for whole-object store/load.",
 ["lib/ram_filebuf.cpp", "lib/ram_fs.cpp", "lib/sfstream.cpp", "lib/io.cpp", I+"ram_filebuf.hpp", I+"ram_fs.hpp"],
 [("ram_filebuf (seek, overflow, xsputn, xsgetn)", "lib/ram_filebuf.cpp"), ("ram_fs::store/exists/file_size/remove/rename", "lib/ram_fs.cpp"), ("sdsl::remove/rename and util::file_size dispatch on the '@' prefix", "lib/io.cpp, lib/util.cpp")],
 ["stream results and states", "return values", "file contents"])

prop("C08", "The RAM file store is safe under threads",
 "Operations of several threads on the RAM file store (create, size, existence, remove, rename, and streams on different files) take effect atomically in some order consistent with real time, and threads working on different RAM files never influence one another.",
 ["schedules", "histories"],
 "every interleaving of the operations of several threads",
 "No test uses more than one thread.",
 ["lib/ram_fs.cpp", "lib/ram_filebuf.cpp", I+"ram_fs.hpp"],
 [("recursive mutex around the name-to-content map", "lib/ram_fs.cpp")],
 ["return values", "file contents"])

prop("C09", "Construction depends on the text alone",
 "The index that construct() builds for a text is the same, and answers queries in agreement with the text, whatever the kind of storage (disk directory or RAM), whichever complete intermediate results of an earlier (possibly crashed) construction are found in the cache, whether intermediate files are kept or deleted, which suffix-sorting algorithm is configured, and however the system splits reads and writes.",
 ["configurations", "crash_points", "histories", "inputs"],
 "every text and index type, every subset of complete intermediate files left by a crash at any file operation, every configuration, every legal splitting of the I/O",
 "Tests construct once per type with one configuration in an undisturbed directory (or reuse the fully populated cache).",
 [I+"construct.hpp", I+"config.hpp", I+"construct_bwt.hpp", "lib/config.cpp", "lib/construct_sa.cpp", "lib/construct_lcp.cpp", I+"construct_sa.hpp", I+"csa_sada.hpp", I+"csa_wt.hpp", I+"csa_bitcompressed.hpp", I+"cst_sct3.hpp", I+"cst_sada.hpp"],
 [("construct(): stage-by-stage, each stage skipped when its cache file exists", I+"construct.hpp"), ("register_cache_file / cache_file_exists / load_from_cache / store_to_cache", I+"io.hpp, lib/io.cpp"), ("construct_config::byte_algo_sa", "lib/construct_config.cpp")],
 ["serialised index", "query answers"])

prop("C10", "Construction removes exactly its own files",
 "When construct() returns with deletion of intermediate files enabled, every file it created is gone again; with deletion disabled, what remains is exactly the registered intermediate files, complete and loadable. Files that were there before are never changed or removed (only cached files of the same configuration are removed when deletion is enabled), and no descriptor, mapping or RAM file is left behind.",
 ["histories", "configurations", "inputs", "schedules"],
 "every index type, text, storage kind, deletion flag and cache state",
 "Tests look at the index only, never at what remains in the directory, the RAM store or the descriptor table.",
 [I+"construct.hpp", "lib/io.cpp", I+"csa_sampling_strategy.hpp", I+"wt_int.hpp", I+"wm_int.hpp", I+"wt_pc.hpp", I+"wt_rlmn.hpp", I+"k2_treap.hpp", "lib/construct_lcp.cpp"],
 [("cache_config::file_map and delete_files", "lib/config.cpp"), ("util::delete_all_files", "lib/util.cpp"), ("tmp_file plus sdsl::remove in the builders", "include/sdsl/*.hpp")],
 ["directory listing before and after", "descriptor table"])

prop("C11", "Concurrent constructions do not interfere",
 "Several threads of one process that construct, store and load different indexes at the same time, in the same directory or the RAM store and with default settings, each obtain exactly what they would have obtained alone. Identifiers handed out for temporary names are never handed out twice.",
 ["schedules"],
 "every interleaving of the threads' steps",
 "No test uses more than one thread.",
 ["lib/util.cpp", I+"util.hpp", "lib/io.cpp", "lib/ram_fs.cpp", "lib/config.cpp", "lib/memory_management.cpp", I+"rrr_helper.hpp"],
 [("util::id() counter and pid in temporary names", I+"util.hpp, lib/util.cpp"), ("tmp_file/cache_file_name", I+"io.hpp, lib/io.cpp"), ("lock around the RAM file map", "lib/ram_fs.cpp")],
 ["each thread's index", "identifiers"])

prop("C12", "Concurrent queries on a shared structure are correct",
 "Any number of threads may query the same structure through its const operations at the same time; each query returns what it returns in a single-threaded program.",
 ["schedules"],
 "every class, every pair of const queries, every interleaving at memory-access granularity",
 "No test uses more than one thread; hidden mutable state is invisible to single-threaded tests.",
 [I+"csa_sada.hpp", I+"csa_wt.hpp", I+"wt_pc.hpp", I+"rrr_vector.hpp", I+"bp_support_sada.hpp", I+"cst_sct3.hpp", I+"cst_sada.hpp", I+"enc_vector.hpp", I+"lcp_wt.hpp", I+"lcp_support_sada.hpp", I+"sd_vector.hpp", I+"suffix_array_algorithm.hpp"],
 [("const query members without shared mutable state", "include/sdsl/*.hpp")],
 ["query answers"])

prop("C13", "Running out of memory is survivable",
 "If any allocation fails while a structure is built from data in memory, copied, assigned, resized or loaded, the failure surfaces as std::bad_alloc to the caller (or the operation completes correctly without it, or reports failure by its return value). Objects not being modified keep their value, the objects being modified can still be destroyed or assigned a new value and used normally afterwards, and no memory, file descriptor or mapping is leaked. (The construction of indexes by construct(), which passes data through intermediate files, is not included.)",
 ["fault_sequences", "histories"],
 "every class, every operation that allocates, every allocation at which failure strikes",
 "No test makes an allocation fail.",
 [I+"memory_management.hpp", "lib/memory_management.cpp", I+"int_vector.hpp", "include/sdsl/*.hpp"],
 [("memory_manager::resize/clear", I+"memory_management.hpp"), ("RAII members of all classes; raw buffers in int_vector", I+"int_vector.hpp")],
 ["exception type", "object state", "outstanding allocations"])

prop("C14", "The huge-page allocator hands out sound memory",
 "For every history of allocations, growing and shrinking reallocations and frees, blocks of the huge-page allocator lie inside the reserved area, are aligned, never overlap, and keep their content (up to the smaller size on reallocation). A request that does not fit is reported as an exception and leaves all other blocks intact, and memory that was freed can be allocated again.",
 ["histories", "fault_sequences"],
 "every allocation history and size, every point at which the reserved area is exhausted, failure of the reservation itself",
 "Tests never switch the allocator on (it needs huge pages reserved by the administrator).",
 ["lib/memory_management.cpp", I+"memory_management.hpp"],
 [("hugepage_allocator: block list, best fit, splitting, coalescing, footers", "lib/memory_management.cpp")],
 ["returned addresses", "block contents"], NOHOOK)

prop("C15", "Memory monitor accounts exactly",
 "After a recording of the memory monitor has been stopped, the peak it reports equals the largest total of live vector memory during that recording, and the recorded maximum of each event is the largest total while that event was the innermost open one, for every history of vector allocations, reallocations and frees by any number of threads, every start and stop relative to them, and any behaviour of the clock (stalled, fast or jumping). Monitoring never changes the program's results and never crashes or blocks it.",
 ["schedules", "histories"],
 "every history of vector allocations, every interleaving of threads, every nesting of events, every clock advance between them",
 "Tests do not check the monitor at all, and its behaviour depends on clock and threads.",
 [I+"memory_management.hpp", "lib/memory_management.cpp"],
 [("memory_monitor::record under a spin lock", I+"memory_management.hpp"), ("event stack and granularity", "lib/memory_management.cpp")],
 ["memory_monitor::peak()", "JSON log"])

prop("C16", "External-memory builders compute the true arrays",
 "Each of the suffix array, inverse suffix array, Burrows-Wheeler transform, Psi and longest-common-prefix builders leaves, registered in the configuration, an output file with exactly the array defined by the text, for every text, alphabet kind, buffer configuration and storage kind and for every legal splitting of reads and writes, and leaves its input files as they were. All builders of the same array agree.",
 ["inputs", "configurations", "fault_sequences"],
 "every text, byte or integer alphabet, every builder, storage kind and splitting of the I/O",
 "Tests compare builders on a handful of fixed texts and never vary transfer sizes.",
 ["lib/construct_lcp.cpp", "lib/construct_sa.cpp", "lib/construct_isa.cpp", I+"construct_lcp.hpp", I+"construct_sa.hpp", I+"construct_sa_se.hpp", I+"construct_bwt.hpp", I+"construct_isa.hpp", I+"qsufsort.hpp", "lib/construct_lcp_helper.cpp"],
 [("construct_lcp_kasai / PHI / semi_extern_PHI / go / goPHI / bwt_based / bwt_based2", I+"construct_lcp.hpp, lib/construct_lcp.cpp"), ("construct_sa: libdivsufsort, SE-SAIS, qsufsort", I+"construct_sa.hpp"), ("construct_isa, construct_bwt", I+"construct_isa.hpp, "+I+"construct_bwt.hpp")],
 ["content of the output files"])

prop("C17", "Structures are independent values through any history",
 "A structure keeps its value through every history of copy, move, assignment, swap, store and load among a set of objects, whichever of them are overwritten or destroyed in between. In particular a copy, moved-to, swapped or loaded object never depends on memory or files of the object it came from; the same holds for copies of the traversal iterators of the suffix trees.",
 ["histories"],
 "every class and every history of copy/move/assign/swap/store/load/destroy over a set of objects",
 "Tests copy, move and swap once right after construction, with the source object still alive.",
 [I+"csa_sada.hpp", I+"csa_wt.hpp", I+"cst_sct3.hpp", I+"cst_sada.hpp", I+"wt_pc.hpp", I+"wt_int.hpp", I+"wt_gmr.hpp", I+"rrr_vector.hpp", I+"sd_vector.hpp", I+"k2_treap.hpp", I+"bp_support_sada.hpp", I+"lcp_wt.hpp", I+"wt_ap.hpp", I+"wt_rlmn.hpp"],
 [("copy/move/swap members that re-link internal support pointers", "include/sdsl/*.hpp")],
 ["answers of every live object"])

prop("C18", "A failed construction says so and leaves nothing wrong behind",
 "If a file operation or an allocation fails while construct() builds an index (missing, unreadable or cut input, missing directory, failed open, read, write, seek or close, full disk, no memory), then either construct() throws, or it returns exactly the index a fault-free construction returns. It never crashes, hangs or silently returns an index of something else. Once the cause is gone, repeating the construction with the same cache directory and identifier succeeds and gives that index: a failed construction leaves no unfinished file in the cache that a later one would use. The input is never changed.",
 ["faults", "configurations", "inputs", "histories"],
 "every index type, text, cache state and point of failure",
 "Tests construct on a healthy disk with enough memory only.",
 [I+"construct.hpp", I+"io.hpp", I+"int_vector_buffer.hpp", I+"construct_sa.hpp", I+"construct_sa_se.hpp", I+"construct_bwt.hpp", I+"construct_lcp.hpp", "lib/construct_sa_se.cpp", "lib/construct_lcp.cpp", "lib/construct_isa.cpp", I+"csa_sada.hpp", I+"csa_wt.hpp", I+"wt_int.hpp", I+"wm_int.hpp", I+"wt_pc.hpp", I+"wt_rlmn.hpp", I+"wt_ap.hpp", I+"k2_treap.hpp", I+"lcp_support_tree2.hpp"],
 [("io_guard: failing file operations throw during a construction", "include/sdsl/io_guard.hpp"), ("construct_cache_file removes what it could not complete", "include/sdsl/construct.hpp"), ("store_to_file, load_from_file, load_vector_from_file results", "include/sdsl/io.hpp")],
 ["exception or returned index", "answers and bytes of the repeated construction"])

prop("C19", "Changing structures follow their model through any history",
 "Through every history of operations the structures that can be changed in place show exactly the value a simple model has. An integer or bit vector of any width is its width and its elements: construction, writing through elements, references, iterators and set_int, resizing, changing width, compressing and expanding it, filling, bitwise operations, assignment, swap, storing and loading act on the value alone, change no other element, and what can be observed (elements, comparisons, bit counts, next/previous set bit, algorithms over iterators, and every rank, select, compressed vector or range minimum structure built from it) depends on that value only, not on how the vector came to it (earlier sizes, unused bits, elements cut off before). A dynamic nearest neighbour dictionary equals a set under insertions and removals, and the sorted stacks equal a plain stack under pushes and pops, also after copies, moves and reloads. An operation that fails for lack of memory leaves objects that can be assigned and used again.",
 ["histories", "faults"],
 "every sequence of operations on every width and size, whatever the objects held before",
 "Tests fill a vector once and query it; they do not shrink, reuse, reinterpret and refill it in varying orders.",
 [I+"int_vector.hpp", I+"memory_management.hpp", I+"util.hpp", I+"nn_dict_dynamic.hpp", I+"sorted_int_stack.hpp", I+"sorted_stack_support.hpp", I+"sorted_multi_stack_support.hpp", I+"rank_support_v.hpp", I+"select_support_mcl.hpp", I+"rrr_vector.hpp", I+"sd_vector.hpp", I+"bit_vector_il.hpp", I+"vlc_vector.hpp", I+"dac_vector.hpp"],
 [("int_vector operations, references and iterators", I+"int_vector.hpp"), ("memory_manager::resize", I+"memory_management.hpp"), ("bit_compress, expand_width, set_to_value, next_bit, prev_bit, cnt_*", I+"util.hpp"), ("nn_dict_dynamic::reference, next, prev", I+"nn_dict_dynamic.hpp"), ("push, pop, top", I+"sorted_int_stack.hpp")],
 ["values and answers of every object after every operation"])

# ---- properties with no schedule, clock, fault or history in them: listed, not claimed
def pure(id, title, statement, files, text):
    prop(id, title, statement, ["inputs"], text,
         "Tests sample some inputs; the property ranges over all inputs.", files,
         [("the functions themselves", ", ".join(files))], ["return values"])
pure("C30", "Rank and select are exact inverses on every bit vector",
 "For every bit vector representation and every argument in range, rank counts the matching bits before a position and select returns the position of the i-th match.",
 [I+"rank_support_v.hpp", I+"rank_support_v5.hpp", I+"select_support_mcl.hpp", I+"rrr_vector.hpp", I+"sd_vector.hpp", I+"hyb_vector.hpp", I+"bit_vector_il.hpp"], "every bit vector, pattern and argument")
pure("C31", "Wavelet tree queries agree with the sequence",
 "access, rank, select, inverse select, interval symbols, lexicographic counts and range queries of every wavelet tree agree with the sequence it represents.",
 [I+"wt_pc.hpp", I+"wt_int.hpp", I+"wm_int.hpp", I+"wt_gmr.hpp", I+"wt_ap.hpp", I+"wt_rlmn.hpp", I+"wt_algorithm.hpp"], "every sequence and every query")
pure("C32", "Suffix tree navigation is consistent with the suffix array",
 "Parent, child, sibling, suffix link, lca, depth and leaf range operations of every compressed suffix tree agree with the suffix tree of the text.",
 [I+"cst_sct3.hpp", I+"cst_sada.hpp", I+"cst_fully.hpp", I+"suffix_tree_helper.hpp"], "every text, node and operation")
pure("C33", "Range minimum and parentheses operations are exact",
 "Range-minimum structures return the position of the leftmost (or configured) minimum; balanced parentheses structures return matching and enclosing parentheses.",
 [I+"rmq_succinct_sct.hpp", I+"rmq_succinct_sada.hpp", I+"rmq_support_sparse_table.hpp", I+"bp_support_sada.hpp", I+"bp_support_g.hpp", I+"bp_support_gg.hpp"], "every sequence and interval")
pure("C34", "Bit-level primitives and integer vectors store what they are given",
 "Reading an element of an integer vector of any width returns the last value written to it and writing changes no other element; the word-level bit operations equal their definitions.",
 [I+"int_vector.hpp", I+"bits.hpp", "lib/bits.cpp"], "every width, index and value")
pure("C35", "Integer codes and compressed integer vectors are lossless",
 "Decoding an encoded integer returns it, and vlc, dac and enc vectors return the values they were built from.",
 [I+"coder_elias_delta.hpp", I+"coder_elias_gamma.hpp", I+"coder_fibonacci.hpp", I+"coder_comma.hpp", I+"vlc_vector.hpp", I+"dac_vector.hpp", I+"enc_vector.hpp"], "every integer sequence")
pure("C36", "Grid and tree structures agree with a naive scan",
 "k2-tree neighbours, k2-treap range and top-k queries and LOUDS navigation agree with the represented relation or tree.",
 [I+"k2_tree.hpp", I+"k2_treap.hpp", I+"louds_tree.hpp"], "every matrix, point set or tree and every query")
pure("C37", "Self-index search agrees with a scan of the text",
 "count, locate, extract, backward and bidirectional search of every compressed suffix array agree with a scan of the text.",
 [I+"suffix_array_algorithm.hpp", I+"csa_sada.hpp", I+"csa_wt.hpp", I+"csa_bitcompressed.hpp"], "every text and pattern")

with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
