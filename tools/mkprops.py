#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Region and attribute context follows stack semantics",
  "After any sequence of begin, end and set calls on a thread, the context Caliper reports (the current value of each attribute, the region path, and the context part of a snapshot) is exactly what the calls imply: begin pushes, a matching end pops and restores what was there before, set replaces the innermost value, end of an unaligned attribute removes only its own innermost value, as-value attributes hold their last value until ended, and hidden as-value attributes never appear in snapshots. This holds for every mix of attribute kinds, value types, scopes and nesting depths, and for any number of attributes alive at once within the documented capacity. Opening and closing contexts never loses, duplicates, reorders or alters an unrelated context value.",
  ["programs", "inputs"],
  "All programs of begin/end/set/get over any set of attributes (nested or not, as-value, unaligned, hidden, thread or process scope, all value types), any nesting depth, any attribute ids.",
  "Tests run a handful of fixed, well-nested programs with few attributes; none reaches hash collisions between attributes, deep unaligned overlaps, or set on non-innermost values.",
  ["src/caliper/Caliper.cpp", "src/caliper/Blackboard.cpp", "src/caliper/Blackboard.h", "src/caliper/MetadataTree.cpp", "src/common/Entry.cpp"],
  [("per-thread/process key-value context store", "src/caliper/Blackboard.cpp"), ("begin/end/set path edits", "src/caliper/Caliper.cpp handle_begin/handle_end/handle_set"), ("path copy without attribute", "src/caliper/MetadataTree.cpp")],
  ["cali_get / Caliper::get", "Caliper::pull_context", "Caliper::get_path_node"])

p("C02", "A mismatched end stops only the offending thread and corrupts nothing",
  "An end call that does not match the innermost open region (wrong region, empty stack, or wrong value where the value is checked) leaves the recorded context unchanged, delivers no end event, and makes later begin, end and set calls of that thread have no effect. Correctly nested calls are never treated as mismatched. Other threads, and data already recorded, are unaffected.",
  ["programs", "histories"],
  "All programs, including ones with arbitrarily placed wrong, surplus or missing ends, on any thread, before and after which other threads continue.",
  "One or two fixed nesting errors are tested for the error message only; nothing checks what remains of the context and which threads go on recording.",
  ["src/caliper/Caliper.cpp", "src/caliper/cali.cpp"],
  [("stack check on end", "src/caliper/Caliper.cpp load_current_entry, end, end_with_value_check"), ("per-thread error flag", "src/caliper/Caliper.cpp ThreadData::stack_error")],
  ["Caliper::get", "channel events", "Caliper::pull_context"])

p("C03", "Thread context is private, process context is shared",
  "Values of thread-scope attributes are visible only on the thread that set them; values of process-scope attributes are visible to every thread as soon as the call that changed them has returned, in get as well as in snapshots. Under every interleaving of threads the observed values are explainable by some order of the completed and in-flight calls, no update of a process-scope value is lost, and no snapshot shows a value that was never set or was already replaced before the snapshot began.",
  ["schedules", "programs"],
  "All interleavings of begin/end/set/get/snapshot calls of several threads on shared and private attributes.",
  "The thread tests run a free schedule of two threads and inspect one final profile; the stale-copy, lost-update and torn-read windows are not scheduled.",
  ["src/caliper/Caliper.cpp", "src/caliper/Blackboard.cpp", "src/caliper/Blackboard.h"],
  [("cached process snapshot invalidated by an update counter", "src/caliper/Caliper.cpp update_process_snapshot"), ("process store lock", "src/caliper/Caliper.cpp process_blackboard_lock")],
  ["Caliper::get", "Caliper::pull_context"])

p("C04", "Attribute creation is unique and stable under any schedule",
  "An attribute name always denotes exactly one attribute: concurrent or repeated creation with the same name yields the same attribute in every thread, whose name, type, properties and metadata never change after the first creator's call returned and are what that creator asked for plus the documented scope, global and preset rules. Distinct names yield distinct attributes, lookup by name or id finds every created attribute, and each listener is notified once per created attribute. Concurrent first use from several threads initialises Caliper exactly once.",
  ["schedules", "inputs"],
  "All interleavings of attribute creation, lookup and first use from several threads; all names, types, property sets and metadata.",
  "Attributes are created from one thread in the tests; the double-checked creation window and concurrent initialisation are never scheduled.",
  ["src/caliper/Caliper.cpp", "src/caliper/MetadataTree.cpp", "src/common/Attribute.cpp"],
  [("double-checked insertion under attribute lock", "src/caliper/Caliper.cpp create_attribute"), ("initialisation lock", "src/caliper/Caliper.cpp instance")],
  ["Caliper::create_attribute / get_attribute", "create_attr_evt"])

p("C05", "Context tree nodes are unique by id, immutable and reachable",
  "Every context tree node has an id no other node has, resolves by that id from every thread, and never changes its attribute, value or parent. Whatever threads create nodes concurrently, asking for a path returns a node whose chain to the root spells exactly the requested attributes and values, no node once obtained becomes unreachable from its parent, and asking again on the same thread returns the same node.",
  ["schedules", "inputs"],
  "All interleavings of node creation under shared and different parents, any number of nodes and threads, any value size.",
  "Single-threaded unit tests of a few nodes; the lock-free child insertion, id block hand-out and memory pool growth are not scheduled or filled.",
  ["src/caliper/MetadataTree.cpp", "src/caliper/MetadataTree.h", "src/caliper/MemoryPool.cpp", "include/caliper/common/Node.h", "include/caliper/common/lockfree-tree.hpp"],
  [("lock-free sibling insertion", "include/caliper/common/lockfree-tree.hpp"), ("node id blocks per thread", "src/caliper/MetadataTree.cpp"), ("memory pool", "src/caliper/MemoryPool.cpp")],
  ["Caliper::make_tree_entry", "Caliper::node"])

p("C06", "Channels see events exactly while active, independently of each other",
  "A channel receives every non-silent begin, set and end event exactly once, in program order, with the right attribute and value, if and only if it is active when the call is made; activating, deactivating, creating or deleting one channel never changes what another one receives or records. Context is maintained while a channel is inactive, so reactivated and later created channels see the context opened before. Channel-local context is seen only through its own channel.",
  ["programs", "histories"],
  "All histories of channel creation, activation, deactivation and deletion interleaved with annotations, for any number of channels.",
  "Tests use one or two channels with fixed on/off points and compare an aggregate; event-level delivery across histories is not compared.",
  ["src/caliper/Caliper.cpp", "include/caliper/Caliper.h", "include/caliper/callback.hpp", "src/caliper/cali.cpp"],
  [("active channel list", "src/caliper/Caliper.cpp activate_channel, deactivate_channel, delete_channel"), ("event dispatch", "src/caliper/Caliper.cpp begin, end, set")],
  ["Channel::events() callbacks", "cali_channel_is_active", "cali_channel_get"])

p("C07", "Event-triggered snapshots: one per event, with the right content",
  "With the event service on a channel, each begin, set and end of an enabled region or attribute processes exactly one snapshot, and other calls none; the snapshot holds the complete context of the calling thread at that moment (before the begin or set takes effect, and with the region still open for an end) plus the matching trigger information when that is enabled. Trigger lists, region level limits and include, exclude and branch filters select precisely the documented events; a filtered region still keeps its context.",
  ["programs", "configurations"],
  "All annotation programs on all threads, all trigger, level and filter settings.",
  "Tests compare a few profiles for one or two settings; the per-event content is not checked across programs and configurations.",
  ["src/services/event/EventTrigger.cpp", "src/caliper/Caliper.cpp", "src/caliper/RegionFilter.cpp"],
  [("trigger callbacks", "src/services/event/EventTrigger.cpp"), ("snapshot assembly", "src/caliper/Caliper.cpp push_snapshot"), ("filters", "src/caliper/RegionFilter.cpp")],
  ["process_snapshot event", "flushed records"])

p("C08", "On-line aggregation conserves every snapshot",
  "Aggregating snapshots on-line gives, for every distinct aggregation key, exactly one result per thread whose count equals the number of snapshots with that key and whose minimum, maximum and sum of each aggregation attribute are those of the values in them, no matter how many keys, values or threads there are and whether threads have ended. Flushing does not change the data, clearing starts from empty, and snapshots after either continue correctly.",
  ["programs", "histories", "inputs"],
  "All snapshot sequences over any number of keys and threads, any key configuration, any placement of flush and clear.",
  "Tests aggregate a few dozen snapshots in a handful of keys; table, buffer and key-length growth boundaries and flush/clear/thread-exit histories are not reached.",
  ["src/services/aggregate/Aggregate.cpp", "src/services/aggregate/AggregationDB.cpp", "src/services/aggregate/AggregationDB.h"],
  [("per-thread hash of keys to kernels", "src/services/aggregate/AggregationDB.cpp"), ("thread databases and retirement", "src/services/aggregate/Aggregate.cpp")],
  ["Caliper::flush records", "cali_channel_flush output"])

p("C09", "Tracing keeps every snapshot once, unaltered, within its buffer policy",
  "A trace delivers on flush every processed snapshot exactly once with exactly its attributes and values, in the order it was taken on its thread within each buffer, for any record content, any number of threads and any buffer growth. When a buffer is full, the grow policy loses nothing, and the stop policy keeps precisely the snapshots taken before the first one that did not fit. Flushing is repeatable, and clearing removes exactly what was recorded before.",
  ["programs", "inputs", "histories"],
  "All snapshot sequences, record sizes, value types and id ranges, thread counts and flush/clear placements, for each buffer policy.",
  "Tests trace tens of records and never fill a buffer; chunk boundaries, long varint encodings and policies are not exercised.",
  ["src/services/trace/Trace.cpp", "src/services/trace/TraceBufferChunk.cpp", "src/common/CompressedSnapshotRecord.cpp", "src/common/util/vlenc.h"],
  [("chunk capacity check", "src/services/trace/TraceBufferChunk.cpp fits"), ("overflow policies", "src/services/trace/Trace.cpp handle_overflow"), ("record encoding", "src/common/CompressedSnapshotRecord.cpp")],
  ["Caliper::flush records"])

p("C10", "Recorded times account exactly for elapsed time",
  "On each thread the snapshot durations recorded between two snapshots sum to exactly the elapsed clock time between them, in the configured unit and independently for each channel and thread; the inclusive duration reported when a region ends equals the time since the matching begin of that region, for any nesting and interleaving with other attributes. Offsets never decrease on a thread.",
  ["programs", "inputs", "histories"],
  "All annotation programs, all clock advances, all timer settings, several channels and threads.",
  "Tests only check that time attributes exist or are positive, since real clocks are not reproducible.",
  ["src/services/timer/Timer.cpp"],
  [("per-thread start time exchange", "src/services/timer/Timer.cpp snapshot_cb"), ("inclusive time stack", "src/services/timer/Timer.cpp")],
  ["process_snapshot event records"])

p("C11", "Flush, finalisation and channel deletion happen once and in order",
  "Every channel writes its output on finalisation exactly once if flush-on-exit is enabled and not at all otherwise; explicit flushes each write once. For each channel the lifecycle notifications come in the order initialised, (flushes), finishing, finished, each exactly once, with every service still usable until finished; after deletion or finalisation no event, flush or snapshot reaches the channel, and later annotation calls are harmless no-ops. Ending threads are announced and released exactly once, including when they end before or after finalisation.",
  ["histories", "configurations", "programs"],
  "All histories of channel creation, flushes, thread ends, deletions, and process end by return, exit or explicit finalisation.",
  "Tests exit normally with one channel; order and multiplicity across several channels, threads and deletion points are not observed.",
  ["src/caliper/Caliper.cpp", "src/caliper/cali.cpp", "src/caliper/ConfigManager.cpp"],
  [("finalize loop", "src/caliper/Caliper.cpp finalize, delete_channel"), ("thread-local destructor", "src/caliper/Caliper.cpp S_TLSObject"), ("flush", "src/caliper/Caliper.cpp flush, flush_and_write")],
  ["channel events", "output files"])

p("C12", "Asynchronous signals never see or cause a broken state",
  "A signal handler that interrupts a Caliper call at any instruction either is refused a Caliper object, or sees a complete, correct context that is the one before or after the interrupted call. Taking a snapshot from the handler never changes what the interrupted call does, and outside of Caliper calls the handler is always granted access.",
  ["schedules"],
  "Every instruction boundary inside annotation, attribute creation, snapshot and flush calls.",
  "The sampler test takes a few timer samples at arbitrary points; the windows in question are a few instructions wide.",
  ["src/caliper/Caliper.cpp", "src/services/sampler/Sampler.cpp"],
  [("per-thread signal lock", "src/caliper/Caliper.cpp siglock, sigsafe_instance")],
  ["Caliper::sigsafe_instance", "pull_snapshot from a handler"])

p("C13", "Written .cali data reads back unchanged",
  "Records, context trees, attributes (name, type, properties, metadata) and globals written to a .cali stream are read back as exactly the same multiset of records, attributes and globals, for every attribute name and string value (including separators, escapes, quotes, newlines and empty strings; other control characters are left out by design) and every value of every type but user-defined blobs and pointers. Entries of hidden attributes are not written. Each node is written before it is used and at most once, and writing what was read yields the same data again.",
  ["inputs"],
  "All record sets: any tree shape and id, all value types and extreme values, all strings.",
  "Unit tests round-trip a few plain values; separators, escapes and extreme values in combination are not covered.",
  ["src/reader/CaliWriter.cpp", "src/reader/CaliReader.cpp", "src/reader/CaliperMetadataDB.cpp", "src/common/Variant.cpp", "src/common/cali_types.c"],
  [("escaping writer", "src/reader/CaliWriter.cpp"), ("tokenising reader", "src/reader/CaliReader.cpp"), ("node import", "src/reader/CaliperMetadataDB.cpp")],
  ["CaliWriter output", "CaliReader callbacks"])

p("C14", "Merging streams equals reading their union",
  "Reading several .cali streams into one database gives exactly the union of the records each stream gives alone: equal paths and attributes are identified, different ones are kept apart, whatever ids the streams use, whichever order the streams come in, and whatever entities they share. Globals of each stream are all retained (of a global stored as value, the value read last), and reading in parallel gives the same result as reading one after the other.",
  ["inputs", "schedules"],
  "All sets of streams with overlapping, disjoint or conflicting id spaces, in any order, serial or multi-threaded.",
  "Tests merge one or two files produced by the same program, whose ids coincide.",
  ["src/reader/CaliperMetadataDB.cpp", "src/reader/CaliReader.cpp", "src/tools/cali-query/cali-query.cpp"],
  [("per-stream id map", "src/reader/CaliperMetadataDB.cpp merge_node, merge_snapshot")],
  ["CaliperMetadataDB queries", "cali-query output"])

p("C15", "Damaged input is rejected without harm",
  "Reading a stream that is truncated at any point or has damaged or missing lines never crashes, hangs or invents data: the records reported are those of the intact part of the stream with entries that refer to undefined entities left out, and reading one damaged stream does not disturb others read before or after it. (The cut last line of a truncated stream may be read as far as it goes.)",
  ["fault_sequences", "crash_points", "inputs"],
  "Every truncation point and every dropped, damaged or duplicated line or field of a stream.",
  "No test reads a damaged stream.",
  ["src/reader/CaliReader.cpp", "src/reader/CaliperMetadataDB.cpp"],
  [("field validation", "src/reader/CaliReader.cpp"), ("id map lookup", "src/reader/CaliperMetadataDB.cpp")],
  ["CaliReader callbacks and error state"])

p("C16", "CalQL queries compute what they say, independent of input order",
  "For any set of records and any query, the result is the one defined by the query language: LET terms are computed per record, WHERE keeps exactly the matching records, GROUP BY and the AGGREGATE operators yield one row per distinct key with each operator's defined value over that group. The result does not depend on the order in which records are read or on how entries are laid out inside a record, and without aggregation every selected record is passed through unchanged.",
  ["inputs", "programs"],
  "All record multisets, all permutations, all combinations of clauses and operators.",
  "Tests run fixed queries on a few fixed profiles in one order.",
  ["src/reader/Aggregator.cpp", "src/reader/RecordSelector.cpp", "src/reader/Preprocessor.cpp", "src/reader/QueryProcessor.cpp", "src/reader/CalQLParser.cpp", "src/reader/QuerySpec.cpp"],
  [("aggregation hash and kernels", "src/reader/Aggregator.cpp"), ("filter", "src/reader/RecordSelector.cpp"), ("preprocessor", "src/reader/Preprocessor.cpp")],
  ["QueryProcessor results"])

p("C17", "Partial aggregates combine to the aggregate of the whole",
  "Splitting the input records over any number of aggregators or processes, aggregating each part, exchanging the partial results and merging them in any tree shape and order gives the same result as aggregating all records in one place (with partial results of up to 127 entries, and inclusive operators not applied to values that are group keys themselves). The serialised form exchanged between processes carries nodes, attributes and records without loss or alteration.",
  ["inputs", "schedules", "configurations"],
  "All partitions of records over any number of ranks, including non-powers of two and empty ranks, and all merge orders.",
  "MPI tests run fixed small rank counts with near-identical data on each rank.",
  ["src/caliper/aggregate_over_mpi.cpp", "src/reader/Aggregator.cpp", "src/common/NodeBuffer.cpp", "src/common/SnapshotBuffer.cpp", "src/caliper/collective_flush.cpp"],
  [("binary tree reduction", "src/caliper/aggregate_over_mpi.cpp"), ("node and record serialisation", "src/common/NodeBuffer.cpp, src/common/SnapshotBuffer.cpp"), ("partial aggregates written as records", "src/reader/Aggregator.cpp flush")],
  ["Aggregator::flush", "collective output"])

p("C18", "Configuration values come from the documented source, with precedence",
  "Every runtime configuration variable has the value of the highest-priority source that sets it: explicit settings of a channel, then environment variables if allowed, then the selected configuration profiles, then presets, then the built-in default, whatever the order of the settings and however they are written in files. A channel's settings never leak into another channel.",
  ["configurations", "histories"],
  "All combinations of sources, profiles, files and channels setting any subset of variables.",
  "Unit tests check one variable per source and no combinations.",
  ["src/common/RuntimeConfig.cpp", "src/common/StringConverter.cpp"],
  [("lookup order", "src/common/RuntimeConfig.cpp ConfigSetImpl::init, init_config_database")],
  ["RuntimeConfig::get / init"])

p("C19", "A config string creates exactly the requested channels or an error",
  "For every configuration string and every set of known specs and options, either an error is reported and nothing is created, or exactly one channel per requested config is created, running exactly the services and settings implied by the config, its requested options and their inherited dependencies. Start, stop and flush apply to each created channel, and adding configurations in several steps equals adding them at once.",
  ["inputs", "configurations"],
  "All configuration strings: nested argument lists, quoting, repeated, boolean, misspelt or unsupported options, and option dependencies.",
  "Tests check a list of fixed strings.",
  ["src/caliper/ConfigManager.cpp", "src/common/util/parse_util.cpp", "src/caliper/controllers/controllers.cpp"],
  [("parser and option checker", "src/caliper/ConfigManager.cpp")],
  ["ConfigManager::error, get_all_channels, check"])

p("C20", "Tracked memory regions resolve exactly and add up",
  "At any time, an address resolves to a tracked memory region if and only if it lies inside a region announced and not yet released, with that region's label, identity and element index; the active and high-water amounts equal the sum of active region sizes and its maximum since the last snapshot. Each announcement and each matching release records exactly one event with the right size, and releasing an unknown address changes nothing.",
  ["histories", "inputs"],
  "All histories of allocations and releases at any addresses and sizes, with lookups in between, from several threads.",
  "One test tracks a few regions and resolves a few addresses.",
  ["src/services/alloc/AllocService.cpp", "src/services/alloc/SplayTree.hpp", "src/caliper/cali_datatracker.cpp"],
  [("interval lookup in a splay tree", "src/services/alloc/SplayTree.hpp"), ("high-water bookkeeping", "src/services/alloc/AllocService.cpp")],
  ["snapshot records"])

p("C21", "Loop snapshots partition the iterations of the target loops",
  "With loop monitoring, every iteration of every target loop is counted in exactly one loop snapshot: snapshots are taken at loop begin, after each full interval and at loop end, and their iteration counts sum to the number of iterations executed, each with the right start iteration. Inner and non-target loops are never counted.",
  ["programs", "configurations"],
  "All nests of loops and iterations, any interval and any target list.",
  "One test uses a fixed loop and interval.",
  ["src/services/monitor/LoopMonitor.cpp"],
  [("level tracking", "src/services/monitor/LoopMonitor.cpp")],
  ["process_snapshot event"])

p("C22", "The validator reports exactly the programs with nesting errors",
  "The nesting validator reports an error if and only if the annotation program is incorrectly nested or leaves regions open, for programs on any number of threads.",
  ["programs"],
  "All annotation programs, correct and incorrect.",
  "Tests check three fixed programs.",
  ["src/services/validator/validator.cpp"],
  [("per-thread shadow stacks", "src/services/validator/validator.cpp")],
  ["log output"])

p("C23", "Every report format shows the same query result",
  "For any records, the table, tree, JSON, expanded and .cali outputs of a query represent the same rows: every selected value appears exactly once in its row and column, well-formed and recoverable whatever characters it contains, hidden attributes never appear, and tree output places every record under its full region path.",
  ["inputs"],
  "All record multisets and values, including special characters and missing columns.",
  "Tests compare single lines of output for fixed profiles.",
  ["src/reader/TableFormatter.cpp", "src/reader/TreeFormatter.cpp", "src/reader/SnapshotTree.cpp", "src/reader/JsonFormatter.cpp", "src/reader/JsonSplitFormatter.cpp", "src/reader/Expand.cpp", "src/reader/FormatProcessor.cpp"],
  [("formatters", "src/reader/TableFormatter.cpp, TreeFormatter.cpp, JsonFormatter.cpp, JsonSplitFormatter.cpp, Expand.cpp"), ("tree construction", "src/reader/SnapshotTree.cpp")],
  ["formatter output"])

p("C24", "Region profiles add up",
  "The region times computed from a profile are consistent: the exclusive time of each region is the sum over exactly the records whose innermost region it is (if that is of the selected type), its inclusive time is that of all records in it or in regions inside it, each record counted once; the total is the sum over all records and the total of the selected type that over the records counted for any region, for nested and flat views and for any nesting including recursion. (The region path of a record is in one of its entries.)",
  ["inputs"],
  "All region trees and record multisets.",
  "Unit tests use one fixed profile.",
  ["src/caliper/RegionProfile.cpp", "src/reader/NestedExclusiveRegionProfile.cpp", "src/reader/NestedInclusiveRegionProfile.cpp", "src/reader/FlatExclusiveRegionProfile.cpp", "src/reader/FlatInclusiveRegionProfile.cpp"],
  [("profile computation", "src/reader/NestedExclusiveRegionProfile.cpp and siblings")],
  ["RegionProfile results"])

p("C25", "The Python reader agrees with the C++ reader",
  "For any .cali stream, the Python reader returns the same records, attributes with metadata, and globals as the C++ reader.",
  ["inputs"],
  "All well-formed streams.",
  "Tests read two fixed files.",
  ["python/caliper-reader/caliperreader/caliperreader.py", "python/caliper-reader/caliperreader/metadatadb.py", "python/caliper-reader/caliperreader/caliperstreamreader.py"],
  [("record tokenizer and id maps", "python/caliper-reader/caliperreader")],
  ["caliperreader.read_caliper_contents"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
