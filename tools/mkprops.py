#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the compact table below.
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe],"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("S01","A file stream is a sequence of items with one cursor",
 "Every item stream opened for reading and writing, with or without compression, behaves as a sequence of items with one cursor: reads, peeks, backward reads, skips, array reads and writes, seeks, saved positions and truncation return exactly what the sequence dictates, and size, offset and the can-read questions always agree with it. An operation that the sequence cannot satisfy (reading past either end, overwriting the middle of a compressed stream) raises an exception and leaves the items unchanged. Block size, item size and compression scheme never change a result.",
 ["histories","inputs","configurations"],"all sequences of stream operations, all item contents and counts, all item sizes, block sizes and compression settings",
 "The unit tests run a few dozen fixed scripts on mostly 2 MB blocks; combinations such as back up across a block border, truncate there, append and re-read occur in none of them.",
 ["tpie/compressed/stream.h","tpie/compressed/stream_base.cpp","tpie/compressed/thread.cpp","tpie/compressed/buffer.cpp","tpie/compressed/stream_position.h","tpie/compressed/scheme_snappy.cpp"],
 [("cursor and block transitions","tpie/compressed/stream_base.cpp: read/write/seek/truncate, get_block, uncache_read_writes"),("compression thread executing block requests","tpie/compressed/thread.cpp")],
 "return values, exceptions, size(), offset() of the public stream API")
p("S02","A closed stream reopens with the same content; a torn one is refused",
 "Items, user data and size written to a named stream are exactly what a later open of the same file sees, in this process or another, however many times it was closed and reopened and whatever was appended, overwritten or truncated in between. Opening for writing without keeping content yields an empty stream, and an open for reading only never changes the file. A file that was never cleanly closed, is not a stream, is cut short inside its header, or was written with another item size or an incompatible user data size is refused with an exception rather than read as data.",
 ["histories","crash_points","configurations","inputs"],"all operation histories split into open/close sessions, every point at which a writing process is killed, all header corruptions",
 "Tests reopen a handful of streams once; none kills a writer, and none damages a header.",
 ["tpie/compressed/stream_base.cpp","tpie/file_base_crtp.h","tpie/file_accessor/stream_accessor_base.inl","tpie/stream_header.h","tpie/compressed/stream.h"],
 [("header with clean-close flag written at open and close","tpie/file_accessor/stream_accessor_base.inl: read_header, write_header, validate_header"),("last block and size recovery","tpie/compressed/stream_base.cpp: open_inner, close")],
 "results of open, size, read and user data after close, re-open or process death")
p("S03","Streams sharing the compression thread never mix, lose or deadlock",
 "Any number of streams may be open at once and used from different threads (each stream by one thread at a time): whatever the interleaving with the background compression work, each stream returns exactly its own items, every operation terminates, and closing a stream leaves all its data on disk.",
 ["schedules","histories"],"all interleavings of user threads with the compressor thread, any number of streams",
 "Tests see one natural schedule per run and no I/O failure; almost all use one stream.",
 ["tpie/compressed/thread.cpp","tpie/compressed/request.h","tpie/compressed/buffer.cpp","tpie/compressed/stream_base.cpp"],
 [("request queue and response condition variables","tpie/compressed/thread.cpp, tpie/compressed/request.h"),("shared buffer pool with bounded buffers","tpie/compressed/buffer.cpp")],
 "per-stream operation results under controlled schedules; termination")
p("S04","Plain streams and several streams on one file agree on its content",
 "An uncompressed stream, and each of several streams attached to one open file, behaves as a cursor over a single shared sequence: reads, writes, array transfers, seeks, skips and truncation act on that sequence, and what one attached stream writes another attached stream reads at once. Reading or seeking outside the sequence raises an exception and never returns data that was not written. After close and reopen the sequence and the user data are unchanged.",
 ["histories","inputs","configurations"],"all interleaved operation histories on up to several attached streams, all block and item sizes",
 "Tests use one attached stream, fixed scripts and one item size.",
 ["tpie/uncompressed_stream.h","tpie/file.h","tpie/stream_crtp.h","tpie/file_base.cpp","tpie/file_base_crtp.h","tpie/file_stream_base.h","tpie/stream_old.h"],
 [("block buffering shared between attached streams","tpie/file_base.cpp: get_block, create_block"),("cursor arithmetic and lazy block switching","tpie/stream_crtp.h")],
 "return values, exceptions, size(), offset() of the public API")
p("X01","External merge sorting outputs exactly the input in sorted order",
 "Whatever the number of items, the run length, the fan-in limits, the memory and open-file allowances of the phases, and whether and when before the first pull the sorter is told to move its in-memory data to disk, the items pulled out are a permutation of the items pushed in, in non-decreasing order of the comparator, with exactly as many pulls possible as pushes made. Sorting a whole stream in place has the same result. Afterwards no temporary files of the sort remain.",
 ["inputs","configurations","histories"],"all input sequences, all comparators that are strict weak orders, all sorter parameters accepted, all evacuation points before the first pull",
 "Tests sort a few sizes of pseudo-random distinct numbers with a few parameter sets; merge tree shapes, ties and odd last runs are barely touched.",
 ["tpie/pipelining/merge_sorter.h","tpie/pipelining/merge_sorter.cpp","tpie/pipelining/merger.h","tpie/sort.h","tpie/mergeheap.h","tpie/internal_sort.h"],
 [("run formation, merge tree, final merge","tpie/pipelining/merge_sorter.h"),("parameter calculation","tpie/pipelining/merge_sorter.h: calculate_parameters")],
 "items pulled, can_pull, temporary directory content")
p("X02","Sorting variable-size serialized items keeps every item intact",
 "A sorter of items with varying serialized size outputs exactly the items it was given, each with its full content, in comparator order, whether it reports from memory or from disk, for every mix of item sizes and every legal memory and file limit, and whenever it is told to move its data to disk. If the limits make sorting impossible it says so with an exception instead of losing items. Afterwards no temporary files remain and the reported temporary disk usage returns to its earlier value.",
 ["inputs","configurations","histories"],"all item sequences and sizes, all memory and file limits, all evacuation points including between pulls",
 "Tests use five fixed scenarios with equal-sized string patterns.",
 ["tpie/serialization_sorter.h","tpie/serialization_stream.h","tpie/serialization_stream.cpp","tpie/pipelining/serialization_sort.h"],
 [("internal buffer with item accounting","tpie/serialization_sorter.h: internal_sort"),("run files and levels","tpie/serialization_sorter.h: file_handler, merger")],
 "items pulled, exceptions, temporary directory content and usage counter")
p("X03","The external priority queue always yields a smallest remaining item",
 "For every interleaving of pushes and pops, the top of the external priority queue is a minimum of the items pushed and not yet popped, each pushed item is popped exactly once, and the reported size and emptiness are exact. Draining all equal top items into a consumer delivers exactly the items equal to the top. The memory given to the queue decides only how much it keeps in memory, never the result.",
 ["histories","inputs","configurations"],"all push/pop histories, all item values with duplicates, all memory allowances accepted",
 "Tests run one random pattern with a large memory share, so most refill, group-buffer and slot-merging paths see one shape.",
 ["tpie/priority_queue.h","tpie/priority_queue.inl","tpie/pq_overflow_heap.h","tpie/pq_overflow_heap.inl","tpie/pq_merge_heap.inl","tpie/internal_priority_queue.h"],
 [("insertion heap, deletion buffer, group buffers, slots","tpie/priority_queue.inl")],
 "top, pop, size, empty")
p("X04","External stacks and queues keep LIFO and FIFO order",
 "An external stack pops items in exactly reverse order of pushing and an external queue in exactly the order of pushing, for every interleaving of insertions and removals, with exact size and emptiness, and an exception on removal from an empty one. A named stack closed and reopened continues with exactly the items it held. Block size and how often the content spills to disk never matter.",
 ["histories","inputs","configurations"],"all operation histories, with reopen at any point, all block sizes",
 "Tests push everything and pop everything a few times with 2 MB blocks.",
 ["tpie/stack.h","tpie/queue.h","tpie/internal_queue.h","tpie/internal_stack.h"],
 [("stack on a stream","tpie/stack.h"),("queue on two streams with a middle buffer","tpie/queue.h")],
 "push/pop/top/front results, size, exceptions")
p("B01","A dynamic B-tree is an ordered multiset under any updates",
 "After any history of insertions and removals, by value, by key or at a position, iterating a B-tree forwards or backwards yields exactly the items present in key order, the size is exact, and a find or bound query answers as the sorted sequence would: the first item with the key, the first not less, the first greater, or the end. In an unordered tree items stay at the positions where they were inserted. In-memory and on-disk trees give identical answers, with any fan-out.",
 ["histories","inputs","configurations"],"all update histories with duplicate keys, all queries, in-memory and external storage, all fan-outs",
 "Tests insert shuffled distinct keys and erase some of them; duplicates spanning leaves, positional insertion and steal/merge at each level are not reached.",
 ["tpie/btree/btree.h","tpie/btree/node.h","tpie/btree/internal_store.h","tpie/btree/external_store.h","tpie/btree/external_store_base.cpp"],
 [("search, split, steal, merge, root growth and shrinkage","tpie/btree/btree.h")],
 "iteration sequences, query results, size")
p("B02","B-tree structure: balanced, filled, truthful summaries at every node",
 "At every moment all leaves of a B-tree have the same depth, every node other than the root holds between its minimum and maximum number of children (for any fan-out a, b with a >= 2 and b >= 2a-1), each node's parent and child index questions agree with each other, and the summary value and least key stored for every child equal those recomputed from its items. This holds after every single insertion, removal and bulk build.",
 ["histories","inputs","configurations"],"all update histories and bulk builds of every size, all fan-outs, all summary functions",
 "Tests check one summary (a count) after a few hundred insertions; the balance conditions are never checked.",
 ["tpie/btree/btree.h","tpie/btree/btree_builder.h","tpie/btree/node.h","tpie/btree/internal_store.h","tpie/btree/external_store.h"],
 [("summary maintenance along the path","tpie/btree/btree.h: augment_path"),("bulk building with tipping points","tpie/btree/btree_builder.h")],
 "node navigation from root(): count, child, parent, index, min_key, augmentation, value")
p("B03","Bulk-built and on-disk B-trees reopen unchanged",
 "A B-tree built in bulk from any number of items in order contains exactly those items, answers queries like the sorted sequence, and, stored on disk in fixed-size or serialized form under any compression setting, gives the same content, size, queries and user metadata after being closed and opened again. A dynamic on-disk tree modified, closed and reopened repeatedly stays equal to the multiset of its history. A file that does not hold a complete serialized tree is refused with an exception.",
 ["inputs","configurations","histories","crash_points"],"all item counts and sizes, all compression flags, all close/reopen histories, truncated or foreign files",
 "Tests build a few sizes and reopen once.",
 ["tpie/btree/btree_builder.h","tpie/btree/serialized_store.h","tpie/btree/external_store.h","tpie/btree/external_store_base.cpp"],
 [("serialized nodes with compression and footer/header","tpie/btree/serialized_store.h"),("root, height and size header on disk","tpie/btree/external_store_base.cpp")],
 "iteration, queries, size, metadata after reopen; exceptions")
p("B04","Block storage returns the last content written to each live block",
 "A collection of fixed-size blocks on disk never hands out the same block twice while it is in use, returns for every block the bytes last written to it however many other blocks were allocated, freed, read or evicted from its cache meanwhile, and reuses freed blocks before growing. Closing and reopening keeps every live block's content and the set of free blocks.",
 ["histories","configurations"],"all histories of allocate, write, read, free, close and reopen, all block and cache sizes",
 "Tests run one shuffled scenario with one cache size.",
 ["tpie/blocks/block_collection.cpp","tpie/blocks/block_collection_cache.cpp","tpie/blocks/freespace_collection.h","tpie/blocks/block.h"],
 [("write-back cache with eviction","tpie/blocks/block_collection_cache.cpp"),("free list persisted in a stack","tpie/blocks/freespace_collection.h")],
 "block handles and block contents")
p("S05","Serialization streams return the written objects in order or reversed",
 "A forward serialization stream reads back exactly the objects written, in order; a reverse stream reads them in exactly the opposite order; objects may straddle block borders and sizes may vary freely. Whether more can be read, how much has been read and the total size are exact, reading past the end raises an exception, and a stream that is not closed properly, is foreign, or has the other direction is refused. Deleting or reusing the stream object leaves no file open.",
 ["inputs","histories","crash_points"],"all object sequences and sizes, both directions, reopen and reuse, files damaged or unfinished",
 "Tests write one pattern per direction.",
 ["tpie/serialization_stream.h","tpie/serialization_stream.cpp","tpie/serialization2.h"],
 [("block assembly forward and reversed","tpie/serialization_stream.h: serializer"),("header validation","tpie/serialization_stream.cpp: serialization_header::verify")],
 "unserialized objects, can_read, offset, size, exceptions")
p("C01","Every enqueued job runs exactly once and joins wait for the whole tree",
 "Each job handed to the job pool is executed exactly once, with any number of worker threads including none, and its completion notification happens exactly once, after it and all jobs it spawned have finished. Joining a job from outside the pool returns only when that job and all its descendants have finished, and always returns; asking whether it is done never says yes earlier, nor no later. A full work queue, nested spawning or a change of the number of workers never deadlocks or drops work, and enqueueing a job that is still under way is refused.",
 ["schedules","histories","configurations"],"all interleavings of submitting and worker threads, all spawn trees, worker counts and queue loads",
 "One test spawns one tree and joins it, on whatever schedule the machine produces.",
 ["tpie/job.h","tpie/job.cpp"],
 [("bounded job queue and per-job dependency count","tpie/job.cpp")],
 "job execution counts, done notifications, join return, is_done")
p("C02","Parallel sorting sorts, for every input and schedule",
 "Sorting a range with the parallel sort leaves a permutation of the original items in comparator order and returns only when all sorting work has finished, for every length, every pattern of equal items and every schedule of its worker threads, any number of workers, and several sorts running one after another.",
 ["inputs","schedules","configurations"],"all arrays and comparators, all worker schedules and worker counts",
 "Tests use a few large arrays on natural schedules.",
 ["tpie/parallel_sort.h","tpie/job.cpp","tpie/dummy_progress.h"],
 [("quicksort jobs with partition and progress","tpie/parallel_sort.h")],
 "array content after return, termination")
p("C03","Parallel pipeline sections process every item exactly once",
 "A pipeline section run by several worker threads begins every copy of the section before any item comes, gives each item to exactly one copy, and ends each copy once after all items; what the copies output for the items and when they end reaches the node after it exactly once: in any order by default, and, when order is to be maintained, the outputs for the items in the order of the items before those of end(), also when the section outputs none or many items per input. For every schedule the pipeline ends, no worker thread or memory is left behind, and an exception thrown by the source, a copy of the section or a node after it in begin(), while items are pushed or in end(), or by lack of memory, reaches the caller of the pipeline instead of hanging or ending the process.",
 ["schedules","inputs","configurations","fault_sequences"],"all interleavings of main and worker threads, all item counts, buffer sizes, worker counts from one, fan-out of the section, chained sections, and throwing points",
 "Tests run on natural schedules with the default buffer size and few throwing points.",
 ["tpie/pipelining/parallel/base.h","tpie/pipelining/parallel/pipes.h","tpie/pipelining/parallel/factory.h","tpie/pipelining/parallel/options.h"],
 [("worker state machine idle/processing/partial output/outputting/done","tpie/pipelining/parallel/base.h"),("order queue","tpie/pipelining/parallel/base.h: producer"),("stopping workers after an exception","tpie/pipelining/parallel/base.h: producer::stop_workers, before::worker")],
 "items and order seen by the node after the section, begin and end of the copies, termination, exception reaching the caller, live threads and memory after the pipeline")
p("L01","Pipeline phases and begin/end calls follow the dependency order",
 "When a pipeline runs, all nodes are prepared, producers of items before consumers, before any is propagated; nodes that push to or pull from each other form a phase, and phases run one after another, each after all phases it depends on. In a phase every node is propagated, producers first, then begun once, after the nodes it pushes to or pulls from; then each initiator runs once, then every node is ended once, after the nodes that call it; items only reach nodes that have begun and not ended. Phases without initiator, or whose dependencies or non-evacuable shared memory cannot be respected, are refused before anything runs. A node whose memory a later phase shares is evacuated exactly when that phase does not run next, and when all can be evacuated as few pairs as possible are apart. Forwarded data reaches the later nodes up to the given distance and those that depend on it, the last forward wins.",
 ["programs","configurations"],"all graphs of push, pull, depends-on and memory-share relations between nodes, all marks for evacuation, joined pipelines, and all moments and distances of forwarding",
 "Tests assert orders for a few fixed graphs.",
 ["tpie/pipelining/runtime.cpp","tpie/pipelining/node.cpp","tpie/pipelining/node.h","tpie/pipelining/tokens.cpp","tpie/pipelining/pipeline.cpp"],
 [("phase partition and topological orders","tpie/pipelining/runtime.cpp: get_phases, get_phase_graph, get_item_flow_graph, begin_end"),("forwarding metadata","tpie/pipelining/runtime.cpp: propagate_all; tpie/pipelining/node.cpp: forward_any")],
 "sequence of prepare/propagate/begin/go/push/pull/end events recorded by probe nodes; fetched values")
p("L02","Pipelines compute the composition of their operators",
 "For every composition of the provided pipeline operators (sources, maps, filters, de-duplication, forks, splits, joins, merges, chunking, buffers, reversers, sorters, serialized variants, subpipelines, their pull versions and their type-erased compositions), the items arriving at the sinks are exactly those of the corresponding composition of sequence functions, for every input including the empty one. Wrapping parts in type-erased chunks, feeding a later part from a passive node, or changing the memory limit does not change them.",
 ["programs","inputs","configurations"],"all compositions of the operators, all inputs, all memory limits that satisfy the declared minima",
 "Tests check each operator alone on one or two inputs.",
 ["tpie/pipelining/buffer.h","tpie/pipelining/reverse.h","tpie/pipelining/sort.h","tpie/pipelining/virtual.h","tpie/pipelining/helpers.h","tpie/pipelining/join.h","tpie/pipelining/split.h","tpie/pipelining/merge.h","tpie/pipelining/internal_buffer.h","tpie/pipelining/serialization.h","tpie/pipelining/serialization_sort.h","tpie/pipelining/uniq.h"],
 [("operator nodes","tpie/pipelining/*.h"),("type-erased chunks","tpie/pipelining/virtual.h")],
 "item sequences at the sinks")
p("L03","Memory and files assigned to pipeline nodes respect limits and priorities",
 "In each phase every node is assigned an amount of memory between its declared minimum and maximum, in proportion to its fraction where no bound intervenes; the total, with the data structures alive in the phase, does not exceed what is available whenever the minima allow it, and otherwise each node gets its minimum; and, apart from rounding, nothing is left over that a node with a positive fraction could still use. Open files are divided by the same rules. What a node is told is available is what was assigned. A named data structure gets one amount within all the limits declared for it, the same in each phase, is reachable by the nodes that use it from the first that sets it, and is freed when the last phase that uses it has ended.",
 ["configurations","programs"],"all sets of nodes, minima, maxima, priorities, phases and limits",
 "Tests check two or three fixed examples with wide tolerances.",
 ["tpie/pipelining/runtime.cpp","tpie/pipelining/runtime.h","tpie/pipelining/node.h"],
 [("search for the proportionality constant","tpie/pipelining/runtime.cpp: assign_memory, assign_files, memory_runtime, datastructure_runtime")],
 "amount reported available to each node and data structure")
p("L04","An exception in a pipeline reaches the caller and releases everything",
 "If any node of a pipeline throws from any of its callbacks at any time, that exception reaches the caller of the pipeline unchanged, no further items are processed, every node is destroyed exactly once, and once the pipeline and the objects it uses are destroyed the memory accounted, the open files and the temporary files are back to what they were before. A pipeline run after that in the same process works normally.",
 ["fault_sequences","programs"],"every callback of every node as throwing point, at every item, in every pipeline shape",
 "Tests throw from two points and check only that something is caught.",
 ["tpie/pipelining/pipeline.cpp","tpie/pipelining/runtime.cpp","tpie/pipelining/node.cpp","tpie/pipelining/merge_sorter.cpp","tpie/pipelining/subpipeline.h"],
 [("phase guards and destructors","tpie/pipelining/runtime.cpp: go, begin_end; node destructors")],
 "exception type and payload at the caller; accounted memory, open file count, temp dir listing, destructor counts")
p("R01","Resource accounting is exact and limits are enforced as configured",
 "The accounted memory use always equals the sum of what was allocated through the library and not yet freed, also with many threads allocating at once, and likewise the number of open files equals the files the library holds open. With a limit set to be enforced by exceptions, a request that would exceed it throws and leaves the use as it was; with enforcement by warnings or none it succeeds. A component that gets such an exception gives back all it had, except where a destructor itself needs what is refused. Limits, use and what is available stay consistent with each other.",
 ["histories","schedules","configurations"],"all allocation, deallocation, open and close histories by any number of threads, all limits and enforcement modes",
 "Tests allocate a few blocks from one thread; a failed allocation is never followed by a check of the counters.",
 ["tpie/memory.h","tpie/memory.cpp","tpie/resource_manager.cpp","tpie/resource_manager.h","tpie/file_manager.cpp","tpie/allocator.h","tpie/file_accessor/posix.inl"],
 [("usage counter and enforcement","tpie/resource_manager.cpp: increase_usage, decrease_usage"),("per-type allocation bookkeeping","tpie/memory.h")],
 "used(), available(), limit(), bucket counts, exceptions")
p("R02","Temporary files vanish exactly when their last owner goes away",
 "A generated path is unique among live temporary files and lies in the configured directory (or, when the wanted subdirectory cannot be used, the directory above it) with the configured base name and extension. The file exists as long as some handle to it does and is removed when the last one goes away unless it was made persistent; a file a user named persistently, or used by name, is never removed. The reported temporary disk usage is the sum of the recorded sizes of the files of live handles and of persistent ones, each its file's size up to a block and a header, also after it was truncated, overwritten or lost, and the others' share is given back when they go. Shutting the library down leaves no file or directory of its own in the temporary directory, and the library can be started and used again.",
 ["histories","configurations"],"all histories of creating, copying, moving, assigning, persisting, using and dropping handles, all path settings, several lives of the library",
 "Tests look at a single file or the usage of one sort.",
 ["tpie/tempname.cpp","tpie/tempname.h","tpie/stats.cpp","tpie/compressed/stream_base.cpp","tpie/file_stream_base.h","tpie/serialization_stream.cpp","tpie/compressed/thread.cpp"],
 [("reference-counted handle","tpie/tempname.h: temp_file"),("usage statistics","tpie/stats.cpp")],
 "file existence, path uniqueness, usage counter, directory content")
p("R03","I/O failures and short transfers never turn into wrong data",
 "If the operating system transfers fewer bytes than asked, streams, stacks, queues, serialization files and block collections still store and return exactly the items written. If it reports an error or a full disk for any single call, the operation or the close that needed it (not a destructor) raises an exception of the documented kind (a full disk is told apart), no read ever returns items that were not written, a failed block operation leaves the other blocks unchanged, and a file that lost a write is never accepted as whole. Bytes counted as read and written equal the bytes actually transferred.",
 ["fault_sequences","histories"],"every read and write call as the point of a short transfer or an error, for all operation histories",
 "No test injects any fault.",
 ["tpie/file_accessor/posix.inl","tpie/file_accessor/stream_accessor_base.inl","tpie/compressed/thread.cpp","tpie/compressed/stream_base.cpp","tpie/stats.cpp"],
 [("transfer loops","tpie/file_accessor/posix.inl: read_i, write_i"),("background error propagation","tpie/compressed/request.h")],
 "results and exceptions of stream operations under injected faults; byte counters")
p("R04","Progress reports only grow and finish at their range",
 "A tree of progress indicators, nested or dividing their work by recorded fractions, whatever order its parts are stepped and completed in, never shows a percentage above 100 or less than it showed before. A part never passes on to its parent more than the work it did is worth nor more than its share, and exactly its share once it is finished, even if fewer or more steps than announced, or none, were taken and however the indicator was moved before use. Shares by recorded fractions are proportional to them and together at most the whole; finishing the outermost indicator shows 100. Of the fractions recorded for a part that of the largest input counts; what was recorded, by the program or measured while parts ran, is in the file after it is saved, whatever was loaded before or after, and loading a file brings all its records back.",
 ["histories","configurations"],"all trees of sub-indicators, ranges, weights and step sequences",
 "No unit test covers progress arithmetic.",
 ["tpie/progress_indicator_base.h","tpie/progress_indicator_subindicator.cpp","tpie/progress_indicator_subindicator.h","tpie/fractional_progress.cpp","tpie/fractional_progress.h"],
 [("stepping and done propagation","tpie/progress_indicator_base.h, tpie/progress_indicator_subindicator.cpp"),("fraction table","tpie/fractional_progress.cpp")],
 "current and range of indicators observed through a recording indicator; saved fraction files")
p("R05","External components keep to the memory and the open files they are given",
 "A merge sorter, a serializing sorter, an external priority queue, a sort of a stream and a sorting or buffering pipeline never hold more memory, accounted by the library, in a phase than they were given for it (or could take) plus the room the background writer needs to compress one block, as long as that is at least the minimum they announce, and never more open files; they still get through all their items, and give everything back when destroyed. What a container or a stream says it needs for a number of elements is never less than what it allocates.",
 ["inputs","configurations","histories"],"all amounts of memory and files from the minimum up, item sizes, numbers of items, evacuations between phases",
 "Tests give generous limits and look at used memory at one or two points, or not at all.",
 ["tpie/pipelining/merge_sorter.h","tpie/pipelining/merge_sorter.cpp","tpie/pipelining/merger.h","tpie/serialization_sorter.h","tpie/priority_queue.inl","tpie/sort.h","tpie/util.h"],
 [("phase parameters from limits","tpie/pipelining/merge_sorter.cpp: calculate_parameters, calculate_fanout"),("queue settings from memory and files","tpie/priority_queue.inl: init"),("declared needs","memory_usage() of containers and streams, tpie/util.h: linear_memory_usage")],
 "memory and file counters sampled while limits are enforced by exceptions; memory_usage() against what was allocated")
p("R06","Log text reaches every listening target once and in order, and log groups nest",
 "Text written to the log at a level is delivered, with that level, to every target registered when it is passed on: each part once per target, in the order written, nothing lost, changed or repeated, whatever the amounts. Flushing a level, or removing a target, passes on all that waits, as long as there is a target; text written while nobody listens waits for one, and only what no longer fits goes to the terminal. A removed target gets nothing more. Text passed on while logging is disabled is dropped for everybody. The default log file holds exactly the text at or above its threshold. Every beginning and end of a group, including those of progress sub-indicators, reaches each target, and in the log file groups open and close properly nested; a target added inside a group survives the group's end.",
 ["histories"],"all sequences of writes, flushes, targets added and removed, groups and levels",
 "No test looks at what arrives in a log.",
 ["tpie/logstream.cpp","tpie/logstream.h","tpie/tpie_log.cpp","tpie/tpie_log.h","tpie/progress_indicator_subindicator.cpp"],
 [("stream buffer and targets","tpie/logstream.cpp: flush, overflow, sync, remove_log_target"),("default log","tpie/tpie_log.cpp: file_log_target, stderr_log_target"),("groups of sub-indicators","tpie/progress_indicator_subindicator.cpp: init, done")],
 "what each target was given after every operation; the contents of the log file and of the terminal")
p("D01","In-memory containers match their abstract data types",
 "The fixed-capacity stack, queue, vector and heap-ordered queue, the plain, bit and packed arrays, the disjoint-set forest and the small sorted sets and maps of the library behave for every operation history as their textbook counterparts: contents, order, sizes, query results and iteration all agree, across copying, swapping, resizing and clearing.",
 ["histories","inputs","configurations"],"all operation histories and values, capacities and element widths",
 "Tests run one pattern per container.",
 ["tpie/internal_stack.h","tpie/internal_queue.h","tpie/internal_vector.h","tpie/internal_priority_queue.h","tpie/array.h","tpie/packed_array.h","tpie/disjoint_sets.h","tpie/tiny.h"],
 [("container operations","tpie/internal_*.h, tpie/array.h, tpie/packed_array.h, tpie/disjoint_sets.h, tpie/tiny.h")],
 "results of every container operation")
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
