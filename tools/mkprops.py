#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, sys
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

AW = "lib/include/sse/schemes/abstractio/awonvm_vector.hpp"
LA = "lib/abstractio/linux_aio_scheduler.cpp"
TA = "lib/abstractio/thread_pool_aio_scheduler.cpp"
TP = "lib/include/sse/schemes/utils/thread_pool.hpp"
RW = "lib/include/sse/schemes/utils/rocksdb_wrapper.hpp"
RC = "lib/utils/rocksdb_wrapper.cpp"
TG = "lib/tethys/tethys_graph.cpp"
TGH = "lib/include/sse/schemes/tethys/details/tethys_graph.hpp"
AL = "lib/tethys/tethys_allocator.cpp"
SB = "lib/include/sse/schemes/tethys/tethys_store_builder.hpp"
ST = "lib/include/sse/schemes/tethys/tethys_store.hpp"
ES = "lib/include/sse/schemes/tethys/encoders/encode_separate.hpp"
EE = "lib/include/sse/schemes/tethys/encoders/encode_encrypt.hpp"
CK = "lib/include/sse/schemes/oceanus/cuckoo.hpp"
CKD = "lib/include/sse/schemes/oceanus/details/cuckoo.hpp"
CKC = "lib/oceanus/cuckoo.cpp"
OC = "lib/include/sse/schemes/oceanus/oceanus.hpp"

# ------------------------------------------------------------------ storage and I/O
p("S01", "An append-only on-disk vector returns exactly what was appended, for ever",
  "Whatever mix of reserving, synchronous appends and asynchronous appends builds an append-only on-disk vector, every append returns the next free position, and once the vector is committed its size is the number of appends and reading position i yields the i-th appended value. The same size and the same values are found after the object is moved, after switching direct access on or off, and each time the file is opened again.",
  ["histories", "inputs"], "every interleaving of reserve / push_back / async_push_back / commit / move / set_use_direct_access / reopen, every number of elements, several element sizes, both schedulers",
  "The tests append a fixed number of elements with one kind of append and re-read them once; they never mix both kinds, reserve more than is written, move a vector or reopen it twice.",
  [AW], [("position counter and append offset", AW+": push_back, async_push_back, reserve"), ("commit / destructor / reopening", AW+": commit, ~awonvm_vector, constructors")],
  [("size and committed flag", "number of elements; whether reads are allowed", AW)], ["return value of every vector operation"])
p("S02", "The on-disk vector is write-once: illegal or out-of-range calls are refused",
  "A vector accepts appends only until it is committed (by an explicit commit, by destruction, or because a non-empty file was opened) and accepts reads only afterwards; every other call, every read at a position not below the size, and every misaligned append under direct access is refused with an exception. A refused call changes neither the size nor any stored value, and calls no callback.",
  ["histories", "inputs"], "every sequence of legal and illegal vector calls, every index around the bounds, both access modes",
  "Tests probe a couple of illegal calls in one state each; the boundary index (equal to the size), asynchronous appends after commit and partially invalid batches are never tried.",
  [AW], [("committed flag tests", AW+": push_back, async_push_back, get, async_get, async_gets"), ("bounds and alignment tests", AW)],
  [("m_is_committed", "write phase / read phase", AW)], ["exceptions and return values"])
p("S03", "Asynchronous vector reads deliver the same values as synchronous ones, once",
  "For every accepted asynchronous read, single or batched, the callback of each request is invoked exactly once and receives the value a synchronous read of that position returns, or no value when the underlying read fails or is short. This holds whatever order the reads complete in, however the batch is split by the kernel, and all callbacks have run by the time the vector is destroyed.",
  ["schedules", "fault_sequences", "inputs"], "every completion order, every partial-submission split, every pattern of short/failed reads, both schedulers",
  "Tests read a fixed list through whatever order the kernel picked; they cannot force completion orders, partial submissions, EAGAIN or short reads.",
  [AW, LA, TA], [("per-request buffer, offset and callback capture", AW+": async_get, async_gets"), ("scheduler completion", LA+", "+TA)],
  None, ["callback arguments"])
p("S04", "The kernel-AIO scheduler completes every accepted request exactly once",
  "Every read or write the Linux-AIO scheduler accepts is performed once on the right file range and its callback is called exactly once, with its own user data and the kernel's result, under any sequence of partial submissions, busy (EAGAIN) answers, interrupted or timed-out waits and out-of-order completions. Submitting never blocks for ever while the kernel makes progress, and waiting for completions returns, only after all callbacks have returned; requests rejected at submission never get a callback.",
  ["schedules", "fault_sequences"], "every interleaving of submitters, the notification thread and the kernel; every io_submit / io_getevents result sequence",
  "The kernel in the test run practically never answers EAGAIN, submits partially or is interrupted, and the tests cannot choose the interleaving of the submitter with the notification thread.",
  [LA, "lib/abstractio/linux_aio_scheduler.hpp"], [("submission loop and back-pressure wait", LA+": submit_iocbs / submit_*"), ("notification thread", LA+": notify loop"), ("drain", LA+": wait_completions")],
  [("submitted / completed counters, waiting flag, stop flag", "drain and back-pressure state", LA)], ["callback log", "return values", "termination"])
p("S05", "The thread-pool I/O scheduler completes every request exactly once",
  "Every read or write submitted to the thread-pool scheduler is performed on the requested file range and its callback is called exactly once with its own user data and the number of bytes transferred (or the error). Waiting for completions, and destroying the scheduler, return only after all callbacks of that scheduler have returned and always eventually return; later submissions and other schedulers sharing the pool are unaffected.",
  ["schedules", "fault_sequences", "inputs"], "every schedule of the submitting thread and the pool workers, every request mix (reads, writes, batches, several schedulers)",
  "Tests use the default scheduler only, wait once at the end, and never control when workers run.",
  [TA, "lib/abstractio/scheduler.cpp"], [("running-query counter and condition variable", TA), ("shared worker pool", TA)],
  [("m_running_queries", "submitted and unfinished requests", TA)], ["callback log", "return values", "termination"])
p("S06", "The thread pool runs every accepted task exactly once, in order, and drains",
  "Each task accepted by the thread pool is executed exactly once and its future yields the task's value or exception; tasks are started in the order they were enqueued, and never more of them run at the same time than there are workers. Joining or destroying the pool returns only after every accepted task has finished, and enqueueing after that is refused with an exception.",
  ["schedules"], "every schedule of producers and workers, any number of workers including one, any point at which join happens",
  "Tests only use the pool indirectly; the order of starts, the drain at join and the refusal afterwards are never asserted under a controlled schedule.",
  [TP], [("queue, stop flag and condition variable", TP+": enqueue, worker loop, join")],
  [("task queue", "accepted but not started tasks", TP), ("stop flag", "no more tasks accepted", TP)], ["task start/finish log", "futures"])
p("S07", "The key-value store is a map: last write wins, across flush and reopen",
  "A read of a key in the key-value wrapper succeeds exactly when the key was put and not removed since, and then yields the last value put, whatever keys, value sizes, overwrites, removals, flushes and close/reopen cycles occurred in between. Operations on one key never affect another key.",
  ["histories", "inputs"], "every sequence of put / get / remove / flush / reopen over any keys and values",
  "Tests do one put/get/remove sequence on a fresh database, with one or two reopenings.",
  [RW], [("get/put/remove/flush", RW+": RockDBWrapper")], None, ["return values"])
p("S08", "Persistent counters start at the default and advance by exactly one",
  "A persistent counter that has never been set is absent; the first increment makes it 0 (or the given default), each later increment adds exactly one and reports the new value, setting and removing do what they say, and each key is independent. Values are unchanged by flushing and by closing and reopening.",
  ["histories", "inputs"], "every sequence of get / get_and_increment / increment / set / remove / flush / reopen over any keys",
  "Tests check a handful of increments on fixed keys.",
  [RC, RW], [("get, get_and_increment, increment, set, remove_key", RC)], None, ["return values"])
p("S09", "The persistent list store returns the last list stored, in order",
  "Reading a key of the persistent list store yields exactly the sequence of elements last stored under this key, in order, replacing whatever the output held before; an absent key is reported as such; every serialised element is read back equal. This holds for any lists, including empty ones, and across flush and reopen.",
  ["histories", "inputs"], "every sequence of put / get / flush / reopen with lists of any length",
  "Tests store one list per key.",
  [RW, "lib/janus/janus_server.cpp"], [("serializer loop", RW+": RockDBListStore"), ("cached-result serializer", "lib/janus/janus_server.cpp: serialization")], None, ["return values"])
p("S10", "Acknowledged store updates survive a process kill at any point",
  "If a process using the key-value store, the counters or the list store is killed at any instant, reopening finds every update whose call had returned, possibly the one in progress, and nothing else; a committed on-disk vector survives likewise. In particular a counter value that was handed out is never handed out again.",
  ["crash_points", "histories"], "every operation history and every kill point in it, including between the flushes and during an operation",
  "No test kills a process; all tests close databases cleanly.",
  [RW, RC, AW], [("write-ahead logging defaults of put/remove/set", RW+", "+RC), ("commit", AW)], None, ["state after reopening"])
p("S11", "File helpers touch exactly the path they are given",
  "Removing a directory through the file helpers deletes that directory with everything inside it and nothing outside, in particular never the target of a symbolic link, and reports success exactly when the path is gone; removing a file removes only a file; creating a directory succeeds only when nothing was there. The existence, file, directory and size queries agree with the real state of the file system at every step.",
  ["histories", "inputs"], "every small file tree (files, directories, links in and out of the tree) and every sequence of helper calls on it",
  "Tests clean up one flat directory.",
  ["lib/utils/utils.cpp", "lib/include/sse/schemes/utils/utils.hpp"], [("fts walk", "lib/utils/utils.cpp: remove_directory"), ("stat-based queries", "lib/utils/utils.cpp")], None, ["file system contents", "return values"])

p("S12", "A store update that reports success took effect even on a failing disk",
  "Whatever writes fail (refused, cut short, or reported as failed although they were done), an update of a store that reports success is visible from then on and survives closing and reopening; an update that reports failure leaves the old value or the new one and disturbs no other key; a counter never goes back because its value could not be read. Elements pushed to a persistent vector whose push returned are read back after a commit.",
  ["histories", "fault_sequences"], "every sequence of updates on maps, counters, lists and vectors, and every write, synchronisation or rename that fails",
  "Tests run on a healthy disk; nothing exercises a failing write or an unreadable record.",
  ["lib/utils/rocksdb_wrapper.cpp", "lib/include/sse/schemes/utils/rocksdb_wrapper.hpp", "lib/include/sse/schemes/abstractio/awonvm_vector.hpp", "lib/include/sse/schemes/abstractio/scheduler.hpp"],
  [("status of RocksDB writes", "lib/utils/rocksdb_wrapper.cpp: put, remove, set, increment, get_and_increment"), ("synchronous writes of the vector", "lib/include/sse/schemes/abstractio/awonvm_vector.hpp: push_back")],
  None, ["returned status", "values read afterwards and after reopening"])

# ------------------------------------------------------------------ graph and allocator
p("G01", "The residual-flow computation yields a valid and maximum flow",
  "For every capacitated graph given to the flow graph, the flow obtained respects every capacity, is conserved at every inner vertex, and its value is the maximum possible from source to sink. The flows and capacities reported per edge, per vertex, for the source edges and for the sink edges, before and after the transformation from residual to flow form, all describe that same flow.",
  ["inputs"], "every graph shape (parallel edges, cycles, isolated vertices, source/sink edges anywhere) and all capacities",
  "Tests check a few hand-made graphs with known values.",
  [TG, TGH], [("augmenting path search", TG+": find path, compute_residual_maxflow"), ("residual to flow", TG+": transform_residual_to_flow")],
  [("capacity / flow per edge", "residual network", TGH)], ["edge, vertex and total flow getters"])
p("G02", "Parallel max-flow computes the same optimum as the sequential one",
  "For every graph and every number of worker threads, the component-wise parallel computation ends, produces a valid flow and the same maximum value as the sequential computation, and each connected component carries its own maximum flow.",
  ["inputs", "schedules", "configurations"], "every graph, every partition into components, every thread count, every schedule",
  "Tests compare one or two random graphs.",
  [TG], [("component labelling and per-component search", TG+": parallel_compute_residual_maxflow")], None, ["edge, vertex and total flow getters"])
p("G03", "The flow graph refuses invalid vertices and out-of-order calls",
  "A flow graph accepts edges only while it is being built, computes a flow once, and answers flow queries only after the corresponding computation; any call in another state, any vertex number out of range and an empty graph are refused with an exception. A refused call leaves the graph unchanged: later results are those of the same history without it.",
  ["histories", "inputs"], "every sequence of graph calls, valid or not, and every vertex index around the bounds",
  "Tests check several refusals but not that the graph is unaffected by them, nor all call orders.",
  [TG, TGH], [("state checks", TG), ("range checks", TG)], [("graph state", "building / residual / flow", TGH)], ["exceptions", "results after a refused call"])
p("G04", "The Tethys allocator loses nothing and overfills no bucket",
  "After allocation, the parts of every inserted list assigned to its two buckets and to the stash add up to exactly that list, and no bucket receives more than its capacity. Every inserted list is reported exactly once per bucket it uses, every assignment goes to one of the list's own two buckets, and inserting a list longer than a page, an invalid list, or any list after allocation is refused.",
  ["inputs", "histories"], "every set of lists (lengths, bucket choices incl. both equal), every bucket count and page size",
  "Tests check allocation totals on random instances through the store only.",
  [AL, "lib/include/sse/schemes/tethys/details/tethys_allocator.hpp"], [("insert checks", AL+": insert"), ("edge flow split and overflow stash", AL+": allocate")], None, ["per-bucket and stash accounting"])
p("G05", "The Tethys allocator stashes as little as possible",
  "For every set of inserted lists, the total amount the allocator leaves in the stash is the minimum over all ways of splitting each list between its two buckets within the bucket capacities.",
  ["inputs"], "every set of lists, every bucket count and page size",
  "No test knows the optimal stash size of an instance.",
  [AL, TG], [("orientation by max-flow", AL+": allocate")], None, ["total stash size"])

# ------------------------------------------------------------------ Tethys, Oceanus, Pluto
p("T01", "A built Tethys store returns every inserted list exactly",
  "For any collection of distinct keys with lists within the page limit, after building and reopening a Tethys store the bucket content of each key's two buckets together with the stash decodes to exactly the elements inserted under that key, as a multiset, with no element lost, duplicated or attributed to another key. Synchronous and asynchronous lookups, with and without applying the stash, agree with each other.",
  ["inputs", "schedules"], "every set of lists (including empty ones and ones that overflow into the stash), any epsilon, every completion order of the two bucket reads",
  "Tests build one random store and compare; overflow into the stash, empty lists and specific packings occur only by luck.",
  [SB, ST, ES], [("allocation to buckets", SB+": build"), ("encoders", ES), ("decoding", ST+": get_list, get_buckets, async_get_list")], None, ["decoded lists"])
p("T02", "A bucket decodes to exactly the blocks encoded into it",
  "Whatever sequence of blocks, including empty blocks, is encoded into a bucket up to its capacity, decoding the bucket with any key yields exactly the elements of the blocks stored under that key and ends where the encoding ended, and never reads outside the bucket. This holds for the plain and the encrypted encoding, for any element size and whatever filling follows the blocks.",
  ["inputs"], "every sequence of (key, list length) fitting a bucket, several value widths, all encoders",
  "Tests exercise encoders only inside full stores with non-empty lists.",
  [ES, EE], [("encode / start_block / finish_block", ES), ("decode loops", ES+", "+EE)], None, ["decoded values"])
p("T03", "A Tethys search returns exactly the documents stored for the keyword",
  "After a Tethys database is built from any keyword-to-list mapping, searching any keyword by the client against the server, from the built files and the stash, returns exactly the list stored for it (as a multiset), and nothing for a keyword never stored. Lists of any length, including empty ones and multiples of the block length, are complete, and searches may be repeated, interleaved and made after restarting both sides.",
  ["inputs", "histories", "configurations"], "every mapping, list lengths around block-length multiples, plain and encrypted values, sync and async server lookups",
  "Tests search one generated database, with a single distribution of lengths.",
  ["lib/include/sse/schemes/tethys/tethys_builder.hpp", "lib/include/sse/schemes/tethys/tethys_client.hpp", "lib/include/sse/schemes/tethys/tethys_server.hpp", ST, SB],
  [("block splitting and counters", "lib/include/sse/schemes/tethys/tethys_builder.hpp: insert_list"), ("per-block keys and stash lookup", "lib/include/sse/schemes/tethys/tethys_client.hpp"), ("bucket retrieval", "lib/include/sse/schemes/tethys/tethys_server.hpp")], None, ["search results"])
p("T04", "Building or reading a static index on a failing disk errs or is right",
  "When writes or reads fail while a Tethys store, a Tethys, Pluto or Oceanus database is built, opened or searched, the call that fails throws; whatever was reported as built is complete: after a build that returned, every list that was accepted is found in full, wherever it was placed (table, stash, block table), and every synchronous lookup gives either an error or exactly the stored list. Without a failure nothing is refused.",
  ["fault_sequences", "inputs", "crash_points"], "every call of the construction or lookup that may fail, once, several times or for ever, partial writes and short reads, any lists and table load",
  "No test makes a write or a read fail.",
  [SB, ST, "lib/include/sse/schemes/abstractio/kv_serializer.hpp", "lib/include/sse/schemes/tethys/tethys_builder.hpp", "lib/include/sse/schemes/tethys/tethys_client.hpp", "lib/include/sse/schemes/pluto/rocksdb_store.hpp", "lib/include/sse/schemes/abstractio/awonvm_vector.hpp"],
  [("writing of the table and the stash", SB+": build"), ("loading of the stash", "lib/include/sse/schemes/abstractio/kv_serializer.hpp: deserialize"), ("counters of a database", "lib/include/sse/schemes/tethys/tethys_builder.hpp: insert_list"), ("block table", "lib/include/sse/schemes/pluto/rocksdb_store.hpp: get, insert")], None, ["results of insertions, builds, openings and searches"])
p("T05", "A built encrypted index shows nothing but its declared size",
  "The encrypting bucket encoder combines every byte of a bucket with a mask that depends only on the key and on the position of the bucket; no part of a mask serves at two positions or under two keys, and reading the bucket at its position with its key gives back exactly the plain bucket, while at any other position or with any other key it does not. Hence no document identifier, token or repeated piece can be read in the bucket table of a built Tethys or Pluto database, and the size of that table and, for Pluto, the number of rows of its hash table depend on the declared number of elements alone, whatever lists were inserted.",
  ["inputs", "histories"], "every set of keys and positions (including beyond 2^8, 2^16 and 2^32), bucket sizes and contents; every distribution of a given number of elements over lists, every Pluto table back-end",
  "Tests only decrypt what they encrypted, which a constant, repeated or missing mask passes; none compares two buckets or two databases.",
  [EE, SB, "lib/include/sse/schemes/pluto/pluto_builder.hpp", "lib/include/sse/schemes/tethys/tethys_builder.hpp"],
  [("nonce of a bucket", EE+": finish_block_encoding, decode_buckets"), ("dummy rows", "lib/include/sse/schemes/pluto/pluto_builder.hpp: build"), ("number of buckets", SB+": build")], None, ["bytes of the built files", "decoded buckets"])
p("C01", "The cuckoo table stores every accepted key at one of its two slots",
  "Inserting into the cuckoo allocator never loses or duplicates an entry: after each insertion every entry inserted so far is either in exactly one slot, which is one of its own two, or is the single one handed back as spilled. No slot ever holds two entries, and an insertion that can be placed by eviction within the step limit is placed.",
  ["inputs", "histories"], "every insertion sequence and every choice of slot pairs, any table size and step limit",
  "Tests insert random keys and only look at the final lookups.",
  [CKD, CKC], [("eviction loop", CKC+": insert"), ("search tables", CKD)], None, ["table content after each insertion"])
p("C02", "A cuckoo hash table on disk answers every lookup correctly",
  "After a cuckoo hash table is built and reopened, looking up an inserted key returns the value inserted under it, synchronously and asynchronously, and looking up any other key reports that it is absent. Entries which could not be placed within the search depth are found all the same. An empty table is valid, nothing is accepted after the commit, and moving the builder changes nothing.",
  ["inputs", "schedules"], "every set of keys and values, every load, every completion order of the two asynchronous reads",
  "Tests look up the keys of one random table at a low load; spilled entries and absent keys that share a slot are not produced.",
  [CK, CKC, CKD], [("commit of the two tables", CK+": CuckooBuilder::commit"), ("two-slot lookup", CK+": CuckooHashTable::get, async_get")], None, ["lookup results"])
p("C03", "An Oceanus table returns exactly the block stored under each key",
  "After an Oceanus table is built from any set of (key, block) pairs with distinct 16-byte keys and is reopened, looking up a stored key gives exactly the block stored under it, and looking up any other key reports that it is absent, in the synchronous form and in the asynchronous one, which runs its callback exactly once. This holds for every key, also when keys collide and when more pairs are inserted than the table was sized for, and however often the table is reopened.",
  ["inputs", "histories", "schedules"], "every set of keys and blocks, colliding keys, overfull tables, sync/async, every completion order",
  "Tests store 10,000 random keys in a table with room to spare.",
  [OC, CK], [("keys, hashing and blocks", OC), ("placement, commit and lookup", CK)], None, ["lookup results and callbacks"])
p("C04", "A Pluto search returns exactly the documents stored for the keyword",
  "After a Pluto database is built from any keyword-to-list mapping, searching any keyword returns exactly the documents stored for it, and nothing for an unknown keyword, with either table back-end and after restarting the server. Full blocks, the remainder block and the padding blocks never mix up: no padding element is ever returned and no stored one is lost.",
  ["inputs", "histories", "configurations"], "every mapping, lengths around full-block multiples, both table back-ends",
  "Tests search one generated database per back-end.",
  ["lib/include/sse/schemes/pluto/pluto_builder.hpp", "lib/include/sse/schemes/pluto/pluto_server.hpp", "lib/include/sse/schemes/pluto/pluto_client.hpp", "lib/include/sse/schemes/pluto/rocksdb_store.hpp", "lib/pluto/rocksdb_store.cpp"],
  [("full blocks to the table, remainder to Tethys", "lib/include/sse/schemes/pluto/pluto_builder.hpp"), ("block loop until not found", "lib/include/sse/schemes/pluto/pluto_server.hpp")], None, ["search results"])

# ------------------------------------------------------------------ dynamic SSE
p("E01", "A Sophos search returns exactly the documents inserted for the keyword",
  "At any point of any history of insertions and searches over any keywords, a Sophos search for a keyword returns exactly the documents inserted under it so far, as a multiset, and nothing for a keyword never inserted; searches never change later results. This holds after the client and the server are closed and reopened from their files.",
  ["histories", "inputs"], "every history of insert / search / restart over any keywords and document ids",
  "Tests insert a small fixed database and search it once or twice.",
  ["lib/sophos/sophos_client.cpp", "lib/sophos/sophos_server.cpp", "lib/sophos/sophos_common.cpp"],
  [("per-keyword counter and token chain", "lib/sophos/sophos_client.cpp"), ("chain walk and unmasking", "lib/sophos/sophos_server.cpp")], None, ["search results"])
p("E02", "All Sophos search variants return the same documents, each reported once",
  "For every search request, the sequential, parallel and light-parallel searches of Sophos, in list and callback form and for any thread counts the server supports (1 to twice the number of processors for the workers that walk the token chain, any positive number for the others), return the same multiset of documents; the callback forms report each match exactly once and have finished reporting when they return.",
  ["schedules", "configurations", "inputs"], "every thread count and match count (also fewer matches than threads), every worker schedule",
  "Tests run each variant with one thread count on one small database.",
  ["lib/sophos/sophos_server.cpp"], [("pipelined derivation / access / post-processing pools", "lib/sophos/sophos_server.cpp: search_parallel*"), ("strided light search", "lib/sophos/sophos_server.cpp: search_parallel_light*")], None, ["results and callback log"])
p("E03", "Concurrent insertion requests on one client lose no document",
  "Insertion requests made concurrently from several threads on one Sophos or Diana client, for the same or different keywords, get pairwise distinct update tokens, and after the server has inserted them all, in any order, a search returns every inserted document exactly once.",
  ["schedules"], "every interleaving of concurrent insertion requests, any assignment of keywords to threads, any arrival order at the server",
  "No test issues concurrent client requests, although the random database generator of the command-line clients does.",
  ["lib/sophos/sophos_client.cpp", "lib/include/sse/schemes/diana/diana_client.hpp", RC], [("counter read-modify-write", RC+": get_and_increment"), ("client lock", "lib/include/sse/schemes/sophos/sophos_client.hpp: token_map_mtx_")], [("keyword counter", "last used position", RC)], ["update tokens", "search results"])
p("E04", "A Diana search returns exactly the documents inserted for the keyword",
  "At any point of any history of single and bulk insertions and searches, a Diana search for a keyword returns exactly the documents inserted under it so far, and nothing for an unknown keyword. This also holds across restarts of the client and the server.",
  ["histories", "inputs"], "every history of insert / bulk insert / search / restart",
  "Tests insert a small fixed database and search it.",
  ["lib/include/sse/schemes/diana/diana_client.hpp", "lib/include/sse/schemes/diana/diana_server.hpp", "lib/diana/diana_common.cpp"],
  [("counter and leaf derivation", "lib/include/sse/schemes/diana/diana_client.hpp"), ("range evaluation and unmasking", "lib/include/sse/schemes/diana/diana_server.hpp")], None, ["search results", "match count"])
p("E05", "All Diana search variants agree and report each match at its position",
  "For every search request and every thread count, all forms of the Diana search return the same multiset of documents; forms that report positions report for each position the document inserted at that position, exactly once, and a form that reports the worker thread calls back for one worker id from one thread only.",
  ["schedules", "configurations", "inputs"], "every thread count 1..255 against every match count, every worker schedule",
  "Tests use one thread count and databases of up to a few entries.",
  ["lib/include/sse/schemes/diana/diana_server.hpp"], [("range partitioning among threads", "lib/include/sse/schemes/diana/diana_server.hpp: search_parallel")], None, ["results and callback log"])
p("E06", "A deleting Diana search removes exactly the entries it returns",
  "A Diana search asked to delete results returns the same documents as an ordinary search and removes exactly those entries: repeating the request then finds nothing, entries of other keywords and entries inserted later are untouched, and after the client also forgets the keyword the keyword behaves as a new one. An ordinary search removes nothing.",
  ["histories", "configurations"], "every history of insert / search / deleting search / forget, in each search form",
  "Deletion is only exercised through one Janus test.",
  ["lib/include/sse/schemes/diana/diana_server.hpp", "lib/include/sse/schemes/diana/diana_client.hpp"], [("delete on retrieval", "lib/include/sse/schemes/diana/diana_server.hpp: retrieve_entry"), ("remove_keyword", "lib/include/sse/schemes/diana/diana_client.hpp")], None, ["search results"])
p("E07", "A Janus search returns the inserted and not removed documents",
  "At any point of any history of insertions, removals and searches, a Janus search for a keyword returns exactly the documents inserted under it that have not been removed since: a removal erases all copies inserted before it, any number of removals may occur between two searches, and other keywords are unaffected. Sequential and parallel searches agree, re-running the same request gives the same result, and restarts change nothing; the one stated exception is that a document re-inserted after its removal without a search in between stays hidden.",
  ["histories", "inputs", "configurations"], "every history of insert / remove / search (each variant) / restart",
  "Tests remove at most one document per keyword between two searches.",
  ["lib/janus/janus_client.cpp", "lib/janus/janus_server.cpp"], [("search epochs and meta-keywords", "lib/janus/janus_client.cpp"), ("puncture counter", "lib/janus/janus_client.cpp: removal_request"), ("result cache filtering", "lib/janus/janus_server.cpp")],
  [("search counter", "epoch of a keyword", "lib/janus/janus_client.cpp"), ("cached results", "results of earlier epochs", "lib/janus/janus_server.cpp")], ["search results"])
p("E08", "Updates are forward private: no earlier search reveals a later update",
  "The update sent for a new insertion (or removal) never uses a storage location that any earlier search request for the same or another keyword allows the server to derive, and two updates never use the same location. A search request exposes exactly the locations of the updates made so far for its keyword (in Janus: since its previous search), neither more nor fewer. Sophos and Diana never hide two documents under the same mask. (A Diana keyword that the client was told to forget starts again from its first location, and is outside of this property.)",
  ["histories"], "every history of updates and searches over several keywords, for Sophos, Diana and Janus, across restarts",
  "No test looks at tokens at all; a token reuse would only show when an overwritten entry is searched.",
  ["lib/sophos/sophos_client.cpp", "lib/include/sse/schemes/diana/diana_client.hpp", "lib/janus/janus_client.cpp"],
  [("token chain / constrained key range", "lib/sophos/sophos_client.cpp, lib/include/sse/schemes/diana/diana_client.hpp"), ("fresh meta-keyword per epoch", "lib/janus/janus_client.cpp")], None, ["update tokens and locations derivable from search requests"])

p("E09", "Acknowledged insertions of the dynamic schemes survive kills",
  "When the processes of the client and the server are killed (SIGKILL) at any moment, both open again, and every insertion that had returned from the server is found by the searches that follow; the insertion that was interrupted is found or not, and leaves nothing else. No storage location handed out before the kill is handed out again. Holds for Sophos and Diana, and for Janus when the kill does not interrupt a removal or a search.",
  ["crash_points", "histories"], "every point of every insertion, repeated kills, kills while opening",
  "The tests never kill a process; they close both stores properly.",
  ["lib/sophos/sophos_client.cpp", "lib/sophos/sophos_server.cpp", "lib/include/sse/schemes/diana/diana_client.hpp", "lib/include/sse/schemes/diana/diana_server.hpp", "lib/janus/janus_client.cpp", "lib/utils/rocksdb_wrapper.cpp"],
  [("the counter is advanced on disk before the update is sent", "lib/sophos/sophos_client.cpp, lib/include/sse/schemes/diana/diana_client.hpp"), ("missing positions are skipped by searches", "lib/sophos/sophos_server.cpp, lib/include/sse/schemes/diana/diana_server.hpp")], None, ["search results after a kill", "update tokens"])

p("E10", "Searches and insertions made at the same time agree (Sophos, Diana)",
  "Searches for the same and for other keywords may run at the same time, in any number and any variant, and at the same time as insertions. A search returns, each once, every document whose insertion had finished when the search began, and only documents whose insertion had begun when it ended. No insertion is lost, and no two take the same location. (A deleting search is outside of this property; the vector variant leaves a zero in the place of a document that has not arrived.)",
  ["schedules", "histories"], "every interleaving of any number of search and insertion calls on one client and one server",
  "The tests run one search at a time, after all of the insertions.",
  ["lib/sophos/sophos_client.cpp", "lib/sophos/sophos_server.cpp", "lib/include/sse/schemes/diana/diana_client.hpp", "lib/include/sse/schemes/diana/diana_server.hpp"],
  [("counters read and advanced atomically", "lib/utils/rocksdb_wrapper.cpp"), ("searches share no state", "lib/sophos/sophos_server.cpp, lib/include/sse/schemes/diana/diana_server.hpp")], None, ["search results of concurrent calls"])

p("E11", "A dynamic index acknowledges only what it stored",
  "Whatever writes fail on the disks of the client and of the server, an insertion (or, for Janus, a removal) that returns without an error is visible to every later search, also after reopening. One that is refused leaves the index usable: it harms no other document, its document is found or not but nothing else appears, and no location is given twice. A Janus search that cannot record its results or its new epoch raises an error. (Nothing is claimed about a Janus keyword whose removal or search was refused.)",
  ["histories", "fault_sequences"], "every sequence of insertions, removals, searches and reopenings, and every write of the client or the server that fails",
  "The tests never run on a disk that refuses a write.",
  ["lib/sophos/sophos_client.cpp", "lib/sophos/sophos_server.cpp", "lib/include/sse/schemes/diana/diana_client.hpp", "lib/include/sse/schemes/diana/diana_server.hpp", "lib/janus/janus_client.cpp", "lib/janus/janus_server.cpp", "lib/utils/rocksdb_wrapper.cpp"],
  [("counter advanced first, refused otherwise", "lib/sophos/sophos_client.cpp, lib/include/sse/schemes/diana/diana_client.hpp"), ("refused stores raise", "lib/sophos/sophos_server.cpp, lib/include/sse/schemes/diana/diana_server.hpp: insert"), ("epoch and cache stored", "lib/janus/janus_client.cpp, lib/janus/janus_server.cpp")], None, ["search results", "exceptions", "tokens of the updates"])

# ------------------------------------------------------------------ utilities
p("U01", "Concatenated ranges iterate over the first range, then the second",
  "Iterating over the concatenation of two ranges visits every element of the first, in order, then every element of the second, and then is at the end, whichever of the two is empty. Copies and comparisons of such iterators follow the position.",
  ["inputs"], "every pair of range lengths including zero, every interleaving of pre/post-increment, copy and comparison",
  "The iterator is only used on non-empty containers.",
  ["lib/include/sse/schemes/utils/concat_iterator.hpp"], [("switch at the end of the first range", "lib/include/sse/schemes/utils/concat_iterator.hpp")], None, ["visited elements"])
p("U02", "Serialised key-value files read back to the same map",
  "Serialising any sequence of key/list pairs and deserialising the file yields exactly the same pairs, for empty files, empty lists and any values; reading never goes past the data. In particular a Tethys stash written by the builder is the stash the client loads.",
  ["inputs"], "every sequence of pairs, several value widths, any file size",
  "Tests store one small stash, mostly empty.",
  ["lib/include/sse/schemes/abstractio/kv_serializer.hpp"], [("length-prefixed records", "lib/include/sse/schemes/abstractio/kv_serializer.hpp")], None, ["deserialised map"])
p("U03", "A benchmark measures from its start to its first stop, and reports once",
  "A benchmark object reports the time from its construction to the first stop (or to its destruction if it is never stopped); later stops, and destruction, do not change the reported end. Every benchmark writes one well-formed record with the count it was given, and changing or unsetting the log target at any time, repeatedly, never fails.",
  ["histories"], "every sequence of creating, counting, stopping and destroying benchmarks and of setting loggers",
  "Tests never look at benchmark records and set the loggers once.",
  ["lib/utils/logger.cpp", "lib/include/sse/schemes/utils/logger.hpp"], [("stop flag and end time", "lib/utils/logger.cpp: Benchmark::stop"), ("logger slots", "lib/utils/logger.cpp")], None, ["records written"])
p("U04", "The random database generator emits a consistent database of the given size",
  "For any requested size, the generator produces exactly that many documents, each with exactly one keyword of every fixed family and percentile, no group keyword exceeds its nominal size, and group keywords are filled one after the other so that they cover the documents exactly. It returns only after every callback has returned.",
  ["inputs", "schedules"], "every database size, every schedule of the generator threads",
  "One size is tested, with aggregated sums only.",
  ["lib/utils/db_generator.cpp"], [("per-thread group counters", "lib/utils/db_generator.cpp: generation_job"), ("document striding among threads", "lib/utils/db_generator.cpp: gen_db")], None, ["callback log"])

# ------------------------------------------------------------------ the services
SCR = "lib/sophos/sophos_client_runner.cpp"
SSR = "lib/sophos/sophos_server_runner.cpp"
DCR = "lib/diana/client_runner.cpp"
DSR = "lib/diana/server_runner.cpp"
p("R01", "The RPC services return exactly what was inserted (Sophos, Diana)",
  "Through the client runners and the RPC services, a search returns exactly the documents whose insertion reached the server, each as often as it was inserted, in the returned list and through the callback alike: for insertions made by single calls, in an update session, as a list, by loading a JSON file, from any number of threads, with the synchronous and with the asynchronous search of the server, and after client and server were closed and opened again in any order. Ending a session waits until all of its updates are applied; during a session a search returns what was applied before and possibly updates of the session, nothing else. An insertion sent while the server is away is lost without a trace, an in-session insertion without a session is refused, and one stream is never written by two threads at a time.",
  ["histories", "schedules", "inputs"], "every sequence of openings, closings, insertions of all kinds, sessions, loads and searches, every interleaving of concurrent calls",
  "The runner tests need gRPC, so that they do not run here; they insert one small database, by one means at a time, with client and server always up.",
  [SCR, SSR, DCR, DSR, "lib/protos/sophos.proto", "lib/protos/diana.proto"],
  [("update sessions", SCR+", "+DCR+": start_update_session, insert_in_session, end_update_session"), ("conversion of requests", "request_to_message, message_to_request"), ("searches of the services", SSR+", "+DSR+": sync_search, async_search")], None, ["search results through the client runner"])
p("R02", "An RPC server is set up once and refuses bad messages without harm",
  "A server accepts one setup, the first one with valid key material; every other setup message is refused and changes nothing, so that a valid one can follow a refused one. A message that comes before the setup, or whose fields have a wrong size, cannot be unwrapped or do not fit together, is answered with an error status and no result: it never ends or corrupts the server process, nor changes what the searches of the legitimate client return, before or after reopening the server. A client whose setup was refused reports it and leaves no directory behind that would later be taken for that of an initialized client.",
  ["histories", "inputs"], "every sequence of setup, insertion, bulk insertion and search messages, well formed or not, before, between and after the operations of a client",
  "The runner tests only exchange messages made by the library's own client, with a server that was just set up.",
  [SSR, DSR, SCR, DCR],
  [("setup checks", SSR+", "+DSR+": setup"), ("size checks", SSR+", "+DSR+": has_valid_sizes, has_consistent_count"), ("refused setup", SCR+", "+DCR+": constructors")], None, ["status of every call", "search results", "process exit"])

with open(sys.argv[1] if len(sys.argv) > 1 else "/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
