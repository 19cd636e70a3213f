"""What each check runs."""
REAL_IO = ["sdsl-lite library sources and headers from /repo's working tree", "libstdc++ streams and file buffers", "C library"]
STUB_IO = ["operating system file calls (open/read/write/lseek/close/stat/ftruncate/mmap/unlink/rename), process id and clock: in-memory simulated OS"]
REAL_ZOO = ["75 instantiations of the library's structures (vectors, bit vectors with supports, wavelet trees, suffix arrays and trees, grids, dictionaries) compiled from /repo's working tree"] + REAL_IO
PROPS = {
 "C01": dict(level="exploration", search="store/load histories of 75 structure types over legal I/O splittings, storage kinds and target states", note="sequences of structures through one stream and through every file interface, loaded into fresh, used and moved-from objects, compared by query digests and bytes; sampled, not exhaustive", parts=[dict(exe="zoo", world="C01", quick=9000, thorough=400000, secs=70)],
    rule="1-4 structures written one after another to one stream (with leading padding) and to whole files through each file interface, on disk or RAM, with shortened/interrupted transfers, loaded into fresh / used / moved-from objects; non-trivial = transfers were split, or several structures shared the stream, or RAM storage; distinct = distinct event log",
    real=REAL_ZOO, stub=STUB_IO, keep_cfg=()),
 "C02": dict(level="exploration", search="stores of every structure type and of plain data with failing file calls placed on a fault-free dry run", note="success is accepted only if the file then holds exactly the right bytes; failure only if a call failed", parts=[dict(exe="zoo", world="C02", quick=12000, thorough=500000, secs=60)],
    rule="1-3 stores through store_to_file, store_to_checked_file, store_to_cache (with and without type hash), store_to_plain_array and the string and integer-vector overloads, with 1-2 failing open/write/seek/close calls or a disk of limited capacity; non-trivial = a hard error was delivered; distinct = distinct event log",
    real=REAL_ZOO, stub=STUB_IO, keep_cfg=()),
 "C03": dict(level="exploration", search="damaged files (cut at any byte, missing, unreadable, of another type) and failing reads under every load interface", note="each structure type is loaded from files cut at sampled positions into objects in varying states; the load must report, and the object must take a new value afterwards", parts=[dict(exe="zoo", world="C03", quick=6500, thorough=300000, secs=65), dict(exe="zoo", world="C03v", quick=7000, thorough=300000, secs=30)],
    rule="2-13 loads of one structure type from damaged files through each load interface (or 1-5 vector loads: plain, decimal, serialised, disk-backed, mapped); non-trivial = at least one load reported failure; distinct = distinct event log",
    real=REAL_ZOO, stub=STUB_IO, keep_cfg=()),
 "C16": dict(level="exploration", search="histories of builder runs over one cache directory with lost files, buffer sizes and legal I/O splittings", note="the 13 builders of suffix array, inverse, BWT, Psi and LCP array on seeded byte and integer texts (periodic, runs, copies, Fibonacci-like, random; up to 16000 symbols) with small buffers, disk or RAM, against naive arrays", parts=[dict(exe="io", world="C16", quick=16000, thorough=900000, secs=60)],
    rule="3-6 builder runs on one seeded text and cache configuration, cached files dropped in between; non-trivial = all runs completed; distinct = distinct event log",
    real=["construct_sa (libdivsufsort, SE-SAIS, qsufsort), construct_isa, construct_bwt, csa_sada's Psi, construct_lcp_* from /repo's working tree", "libdivsufsort"] + REAL_IO, stub=STUB_IO, keep_cfg=("bytes",)),
 "C17": dict(level="exploration", search="histories of copy, move, assignment, swap, store, load and destruction over four objects of one type", note="the value of every object is compared with its model (query digest and serialised bytes) after each step and after the destruction of the others, under AddressSanitizer", parts=[dict(exe="zoo", world="C17", quick=14000, thorough=600000, secs=60)],
    rule="4-23 operations over four objects and two files of one of 75 types; non-trivial = a value was copied, moved, swapped or loaded; distinct = distinct event log",
    real=REAL_ZOO, stub=STUB_IO, keep_cfg=()),
 "C18": dict(level="exploration", search="placements of failing file operations and allocations, damaged inputs and repetitions of a construction", note="every file operation and allocation of a construction is counted on a fault-free dry run and one to three of them are made to fail (or the disk fills up, or the input is missing, cut or read-only); the outcome must be an exception or the index of a quiet construction (query digest and bytes), and the construction is repeated in the same cache without faults; under AddressSanitizer", parts=[dict(exe="zoo", world="C18", quick=6000, thorough=400000, secs=60)],
    rule="construct() of one of the 41 types that have it, text of up to 128 symbols (some up to 3000), cache on disk or in RAM, four input representations, both suffix sorters; non-trivial = an operation or allocation failed, the input was damaged or the directory missing; distinct = distinct event log",
    real=REAL_ZOO[:1] + ["construct() and every builder behind it", "libdivsufsort"] + REAL_IO, stub=STUB_IO + ["allocator: operator new, malloc, calloc, realloc and free are counted, accounted and made to fail"], keep_cfg=("kind",)),
 "C19": dict(level="exploration", search="operation histories of the changing structures, with failing allocations", note="up to 70 operations on three objects of one type; after each step every object is compared with a model of its bits, elements, set or stack; structures built from a vector after its history must answer for its value alone; under AddressSanitizer", parts=[dict(exe="hist", world="C19", quick=28000, thorough=3000000, secs=60)],
    rule="3-70 operations over three objects of int_vector (variable, 1, 5, 8, 16, 32, 64 bits), nn_dict_dynamic or one of the sorted stacks; non-trivial = at least two operations; distinct = distinct event log",
    real=["int_vector and its references and iterators, util functions on vectors, nn_dict_dynamic, sorted_int_stack, sorted_stack_support, sorted_multi_stack_support, and the rank, select, compressed bit vector, integer vector and range minimum structures built from vectors, from /repo's working tree"], stub=STUB_IO + ["allocator: operator new, malloc, calloc, realloc and free are counted, filled with seeded noise and made to fail"], keep_cfg=("family",)),
 "C04": dict(level="exploration", search="operation histories and legal I/O splittings of up to three vectors on a simulated disk", note="thousands of seeded histories per run; each is checked against a plain vector at every step and against an independent bit packing of the closed file", parts=[dict(exe="io", world="C04", quick=6000, thorough=400000, secs=40)],
    rule="random operation history over up to 3 vectors and 4 files (disk/RAM, plain/serialised, 7 width instantiations), each transfer possibly shortened or interrupted; non-trivial = at least one shortened/interrupted transfer or a RAM file in play; distinct = distinct event log",
    real=REAL_IO, stub=STUB_IO, keep_cfg=("tw",)),
 "C05": dict(level="exploration", search="operation histories and placements of failing file calls", note="1-3 failing calls per history placed on calls of a fault-free dry run; either good() turns false or values and file equal the fault-free model", parts=[dict(exe="io", world="C05", quick=6000, thorough=400000, secs=40)],
    rule="as C04 on disk files with 1-3 failing file calls placed on calls of a fault-free dry run (or a disk of limited capacity); non-trivial = a hard error was delivered; distinct = distinct event log",
    real=REAL_IO, stub=STUB_IO, keep_cfg=("tw",)),
 "C06": dict(level="exploration", search="operation histories of mapped vectors and placements of failing system calls", note="histories over up to three mapped vectors against plain vectors, files compared byte for byte after destruction, failing open/fstat/ftruncate/mmap placed on calls of a fault-free dry run", parts=[dict(exe="io", world="C06", quick=6000, thorough=400000, secs=40)],
    rule="random histories (construct over existing / new / temporary files, element writes, push_back, resize, bit_resize, move, close, reopen; 6 width instantiations, serialised and plain files), about half of them with 1-2 failing system calls placed on calls of a dry run; non-trivial = a fault was delivered or a mapping was moved/resized; distinct = distinct event log",
    real=REAL_IO, stub=STUB_IO, keep_cfg=("tw",)),
 "C07": dict(level="exploration", search="histories of stream and file operations run twice, on a RAM file and on a simulated disk file", note="the same history on both kinds of storage; every result, stream state, position and file content compared", parts=[dict(exe="io", world="C07", quick=30000, thorough=2000000, secs=40)],
    rule="random history of open (all supported modes), read, write, seek, tell, close, rename, remove, exists, size over a small set of names; non-trivial = at least one open succeeded and data moved; distinct = distinct event log",
    real=REAL_IO, stub=STUB_IO, keep_cfg=()),
 "C08": dict(level="exploration", search="thread interleavings of operations on the RAM file store", note="2-3 threads under a baton scheduler that decides every interleaving at the granularity of single memory accesses (compiler instrumentation), at random or directed at conflicting accesses of a dry run; histories checked for linearizability against an executable model of the store; sequentially consistent memory, accesses inside libstdc++ not interleaved", parts=[dict(exe="thr", world="C08", quick=90000, thorough=6000000, secs=60)],
    rule="2-3 threads, 2-11 operations (store, exists, size, remove, rename on shared names; streams, rename, remove on files of their own), initial files random; non-trivial = operations of different threads overlapped or a thread was preempted; distinct = distinct event log (which contains the hash of the schedule)",
    real=["ram_fs, ram_filebuf, sfstream from /repo's working tree, compiled with access instrumentation", "pthread threads"], stub=["scheduler: threads run one at a time, handed over at instrumented accesses by the simulator; pthread mutexes and static-initialisation guards are the simulator's"], keep_cfg=("strategy",)),
 "C09": dict(level="exploration", search="histories of constructions over one cache directory with lost intermediate files, a crash at any file call and legal I/O splittings", note="1-3 constructions of one text (42 index types, configurations, suffix sorters, input representations) in one directory or in the RAM store, intermediate files kept, deleted or lost in between, in a third of the disk runs a crash at a file call of a dry run followed by a construction that finds the complete files; each index compared with naive arrays of the text and byte for byte with construct_im", parts=[dict(exe="zoo", world="C09", quick=4200, thorough=250000, secs=70)],
    rule="1-3 constructions of one seeded text with one configuration, files dropped in between, optionally a crash and a recovery; non-trivial = at least one construction completed; distinct = distinct event log",
    real=REAL_ZOO[:1] + ["construct(), construct_im() and every builder behind them", "libdivsufsort"] + REAL_IO, stub=STUB_IO, keep_cfg=()),
 "C10": dict(level="exploration", search="histories of constructions over one cache directory with lost intermediate files, a crash at any file call and legal I/O splittings", note="the histories of C09; the listing and content of disk and RAM store before and after each construction are compared, kept files with naive arrays of the text, open descriptors and mappings counted", parts=[dict(exe="zoo", world="C10", quick=4200, thorough=250000, secs=70)],
    rule="as C09; non-trivial = at least one construction completed; distinct = distinct event log",
    real=REAL_ZOO[:1] + ["construct(), construct_im() and every builder behind them", "libdivsufsort"] + REAL_IO, stub=STUB_IO, keep_cfg=()),
 "C11": dict(level="exploration", search="thread interleavings of constructions, stores and loads with default settings", note="2-3 threads that each build structures through construct_im and construct from disk and RAM files with default and given configurations, store and load them, use disk-backed and temporary mapped vectors, under the scheduler of C08; each result compared with a single-threaded one", parts=[dict(exe="thr", world="C11", det=300, quick=8000, thorough=400000, secs=80)],
    rule="2-3 threads, 1-3 constructions each of one of 75 structure types (41 of them through construct()), store and load in files of their own, util::id(), disk-backed and mapped vectors; half of the runs have all threads build the same type in the same way; non-trivial = a thread was preempted; distinct = distinct event log (which contains the hash of the schedule)",
    real=REAL_ZOO[:1] + ["construct(), construct_im(), cache files, RAM file store", "pthread threads"], stub=["scheduler (as C08)"] + STUB_IO, keep_cfg=("strategy",)),
 "C12": dict(level="exploration", search="thread interleavings of const queries on one shared structure", note="a sequential dry run records every memory access; plans whose threads touch common memory with a write are executed under schedules directed at those accesses, a sample of the others under random schedules; every answer is compared with a single-threaded program's", parts=[dict(exe="thr", world="C12", det=400, quick=14000, thorough=500000, secs=80)],
    rule="one of 75 structure types (built, loaded or copied), 2-3 threads, 2-300 const queries (answers, serialisation, copy construction, size); non-trivial = a thread was preempted; distinct = distinct event log (which contains the hash of the schedule); runs whose dry run found no memory shared with a write are counted separately (no_shared_write_in_dry_run)",
    real=REAL_ZOO[:1] + ["pthread threads"], stub=["scheduler: threads run one at a time, handed over at instrumented accesses by the simulator; pthread mutexes and static-initialisation guards are the simulator's"] + STUB_IO, keep_cfg=("strategy", "kind")),
 "C15": dict(level="exploration", search="thread interleavings of vector allocations, events, start/stop and clock readings", note="the monitor runs on a simulated clock that stalls, runs and jumps; the running total is kept independently at each allocation and the reported peak and event maxima compared with it after each recording", parts=[dict(exe="thr", world="C15", quick=60000, thorough=4000000, secs=60)],
    rule="1-3 threads, up to 20 vector resizes/constructions/destructions, nested events, 1-2 recordings, random granularity, clock stalls and jumps; non-trivial = more than one thread allocated during a recording or the clock jumped or events nested; distinct = distinct event log (which contains the hash of the schedule)",
    real=["memory_monitor, memory_manager, event stack and JSON log from /repo's working tree, compiled with access instrumentation", "pthread threads"], stub=["scheduler (as C08)", "clock: simulated"], keep_cfg=("strategy",)),
 "C13": dict(level="exploration", search="placements of failing allocations in operations on every structure type and in histories of vectors, disk-backed and mapped vectors and streams", note="every allocation of the library is counted on a fault-free dry run and one (or that one and all later) made to fail; the failure must surface as std::bad_alloc or not matter, other objects must keep their value, the modified object must take a new value, and no block, descriptor or mapping may leak; under AddressSanitizer", parts=[dict(exe="zoo", world="C13", quick=12000, thorough=600000, secs=60), dict(exe="zoo", world="C13V", quick=8000, thorough=400000, secs=60)],
    rule="build (from data in memory), copy, assignment, moves, swaps and loads (stream, disk, RAM, checked file, cache) of one of 75 types with a failure at a sampled (often the first or last) allocation; or histories of 2-15 operations on integer vectors, disk-backed and mapped vectors and file streams with 3-12 failures each; non-trivial = an allocation failed; distinct = distinct event log",
    real=REAL_ZOO, stub=STUB_IO + ["allocator: operator new, malloc, calloc, realloc and free are counted, accounted and made to fail"], keep_cfg=("kind", "width")),
 "C14": dict(level="exploration", search="allocation histories against an interval model of the reserved area", note="each block is filled with its own pattern and verified at every step; exhaustion, mmap failure of the reservation, retry and return to an empty heap are part of the histories", parts=[dict(exe="io", world="C14", quick=20000, thorough=1500000, secs=40)],
    rule="random history of allocate / reallocate / free with sizes from a seeded mixture over a reserved area of seeded size; non-trivial = a request was refused or a block was moved; distinct = distinct event log",
    real=["hugepage_allocator and memory_manager from /repo's working tree"], stub=["mmap of the huge-page area (ordinary memory with guard bytes), /proc/meminfo, clock"], keep_cfg=()),
}

PURE_REASON = {i: "A pure function of one in-memory input: no schedule, clock, I/O, fault or history for a simulator to control, so a simulated run would be plain input sampling." for i in ("C30","C31","C32","C33","C34","C35","C36","C37")}
PENDING = "check under construction"
