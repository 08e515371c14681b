#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that it stays readable and diffable)."""
import json, os
S="src/liblevenshtein/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

D=[S+"distance/memoized_distance.cpp",S+"distance/standard_distance.cpp",S+"distance/transposition_distance.cpp",S+"distance/merge_and_split_distance.cpp",S+"distance/symmetric_pair.cpp"]
p("C01","Threads sharing a distance evaluator always get exact, race-free answers",
  "When any number of threads ask one shared distance evaluator (standard, transposition, or merge-and-split) for distances, every call returns exactly the minimum number of that algorithm's edit operations between the two terms, in either argument order, no matter how the calls interleave or which answers earlier and concurrent calls already cached. No two calls ever touch the evaluator's shared state without synchronisation when at least one of them changes it, and no call crashes or reads invalid memory.",
  ["schedules","histories","inputs"],"every interleaving, down to single memory accesses, of calls by several threads on one evaluator, for every history of earlier calls and every pair of terms",
  "The tests call the evaluators from a single thread only, so no schedule at all is explored, and their random terms are compared only through metric axioms, never with an independently computed distance.",
  D,[("reader lock around the memo lookup, writer lock around the memo insertion","MemoizedDistance::get / set"),("order-independent memo key","SymmetricPair"),("recursive computation on suffixes through the shared memo","between() of the three evaluators")],
  [("memo","distances known so far, shared by all callers of one evaluator","MemoizedDistance::memo"),("mutex","coordinates memoization among threads","MemoizedDistance::mutex")],
  ["return value of between() / operator()"])
p("C02","Every distance call on a shared evaluator completes: no deadlock or livelock",
  "However threads sharing a distance evaluator are scheduled, delayed or stalled, every call that is given processor time returns within a bounded number of its own and other threads' steps: no deadlock, no self-deadlock through recursion, no livelock. A call that has returned or thrown leaves no lock held, so later calls by any thread always proceed.",
  ["schedules","histories","fault_sequences"],"every schedule of several threads with stalls, reader- or writer-preferring locks, spurious retryable lock errors and failing allocations",
  "Single-threaded tests never contend for the evaluator's lock and never make an operation fail while it is held.",
  D[:4],[("scoped shared/unique locks that are never held across a recursive call","MemoizedDistance::get / set")],
  [("mutex","reader/writer lock of the memo","MemoizedDistance::mutex")],["calls returning","locks held after return"])
p("C03","A distance evaluator survives failing allocations with its answers intact",
  "If memory allocation fails at any point inside a distance call, the call either still returns the exact distance or throws an out-of-memory exception, and nothing else happens. The evaluator stays usable: every later call by any thread, including a retry of the failed one, returns the exact distance.",
  ["fault_sequences","histories","schedules"],"every position of one or more failing allocations inside any call of any history, with other threads calling concurrently",
  "No test makes an allocation fail.",
  D,[("memo insertion with the strong exception guarantee, value stored only after it is fully computed","MemoizedDistance::set"),("scoped locks","MemoizedDistance::get / set")],
  [("memo","must never hold a partial or wrong distance","MemoizedDistance::memo")],["return values and exceptions of between()"])
T=[S+"transducer/transducer.cpp",S+"transducer/lazy_query.cpp",S+"transducer/state_transition.cpp",S+"transducer/position_transition.cpp",S+"transducer/merge.cpp",S+"transducer/unsubsume.cpp",S+"transducer/subsumes.cpp",S+"transducer/distance.cpp",S+"transducer/intersection.cpp",S+"transducer/state.cpp"]
C=[S+"collection/dawg.cpp",S+"collection/dawg_node.cpp",S+"collection/dawg_iterator.cpp",S+"collection/prefix.cpp",S+"collection/sorted_dawg.cpp"]
Z=[S+"serialization/serializer.cpp"]
p("C04","Threads sharing one dictionary and transducer get exact, race-free results",
  "When several threads concurrently query, look up, enumerate, compare, hash or save one finished dictionary, through shared or private transducers, while other threads build, load and destroy unrelated dictionaries, every thread gets exactly the results it would get alone: each query yields precisely the dictionary terms within the maximum distance, each once and with its exact edit distance. Reading a finished dictionary never modifies it or anything else shared, so no interleaving can contain a data race, a crash or an access to invalid memory.",
  ["schedules","inputs","histories"],"every interleaving of concurrent readers (and of unrelated writers) over every dictionary, query term, maximum distance and algorithm",
  "The tests use one thread; they cannot observe hidden shared mutable state (caches, scratch buffers, lazily built tables) in what must be a read-only path.",
  T+C+Z,[("queries keep all their mutable state in the query object and only read the dictionary and the transducer's initial state","LazyQuery::advance, StateTransition::operator()"),("const traversal of the graph","DawgNode::transition / for_each_edge"),("serialization only reads the dictionary","to_protobuf, collect_nodes, collect_edges")],
  [("dictionary graph","nodes and edges, immutable after construction","Dawg::_root"),("initial intersection","start of every query of one transducer","Transducer::_intersection")],
  ["candidates yielded","contains(), iteration, size(), ==, hash","bytes saved"])
p("C05","Lazy results stay exact when many open queries are interleaved or abandoned",
  "Any number of query and enumeration iterators over the same or different dictionaries may be open at once and be advanced, suspended, abandoned or restarted in any order, also after the caller's query string is gone. Each iterator yields exactly the terms within its own maximum distance (for an enumeration: all terms), each exactly once, each with the exact distance of its own algorithm, and then ends; nothing done to other iterators changes that, and repeating a query repeats its results in the same order.",
  ["schedules","histories","inputs"],"every interleaving of steps of several open iterators, every point of abandonment, every dictionary, query, distance bound (including 0 and the largest representable) and algorithm",
  "The tests drain one iterator at a time immediately after creating it, and their random distance bounds are mostly so large that every term matches.",
  T+C,[("breadth-first traversal whose whole frontier lives in the query object","LazyQuery"),("Levenshtein automaton transitions per algorithm","position_transition, merge, state_transition"),("distance recovered from the automaton state","distance<Type>"),("prefix chain owned by the iterator","DawgIterator, Intersection")],
  [("frontier","pending intersections and edges of one open query","LazyQuery::_pending / _edges")],["sequence of candidates and their distances, end of iteration"])
p("C06","Failing allocations while building or querying are contained and reported",
  "If memory allocation fails at any point while a dictionary is being built, looked up, enumerated, queried, saved or loaded, the operation throws an out-of-memory exception (or reports failure) and the affected object can still be destroyed; no wrong term, distance or partial dictionary is ever delivered as a result. All other dictionaries, transducers and open iterators keep giving exact results, and repeating the failed operation (for a build: starting it over) succeeds with the exact result.",
  ["fault_sequences","histories","inputs"],"every position of failing allocations inside every operation, in every history of other live objects",
  "No test makes an allocation fail.",
  T+C+Z,[("ownership lists from which destructors free whatever was built so far","LazyQuery::_intersections, DawgIterator::_prefixes, SortedDawg floating nodes"),("the dictionary is published only when complete","sorted_dawg, from_protobuf")],
  [],["exceptions thrown","results of other live objects and of the retry"])
p("C07","A dictionary holds exactly the accepted terms, whatever the history of additions",
  "After any history of additions - in order, out of order, repeated, empty, or interrupted by refused terms - a finished dictionary contains exactly the distinct terms whose addition succeeded: membership, size and enumeration agree with that set, and a term that sorts before its predecessor is refused without any effect on the others. Building from a whole sequence succeeds if and only if it is in ascending order. Once finished (or loaded), a dictionary never changes: attempts to add or remove terms are refused and leave it and every open iterator over it unaffected.",
  ["histories","fault_sequences","inputs"],"every sequence of accepted, refused and repeated additions, of construction attempts that are abandoned, and of mutation attempts after construction while iterators are open",
  "The tests only build from duplicate-free sets or from shuffled sets, never continue after a refused term and never touch a dictionary after it is finished.",
  [S+"collection/sorted_dawg.cpp",S+"collection/dawg.cpp",S+"collection/dawg_node.cpp",S+"collection/dawg_iterator.cpp",S+"collection/transition.cpp"],
  [("order check against the previous term","SortedDawg::add"),("minimisation of completed suffixes only","SortedDawg::minimize / minimized_node"),("hash and equality of sub-graphs","std::hash<DawgNode>, DawgNode::operator==")],
  [("previous term","largest term accepted so far","SortedDawg::_prev_term"),("size","number of distinct terms","Dawg::_size")],["return value of add/remove/sorted_dawg","contains(), size(), iteration, queries"])
p("C08","A save that reports success can be loaded back exactly; a failed one says so",
  "If saving a dictionary to a path or stream reports success, loading it back - in the same or another process, any number of save/load generations later, also over an older longer or shorter file - yields a dictionary with exactly the same terms, size, equality, hash and query results. If the storage did not accept every byte (full disk, I/O error, failure when the file is closed, a path that cannot be opened, a stream that fails), saving reports failure (a stream set to throw exceptions may throw instead, but does not end the process); partial writes and interrupted calls that the system retries are not failures.",
  ["fault_sequences","inputs","histories","configurations"],"every dictionary, heap layout, sequence of saves and loads, and every point and kind of storage fault during them",
  "The test saves to a healthy disk and loads once in the same process; no storage fault, short write, overwrite, or different heap layout is ever exercised.",
  Z+[S+"serialization/serializer.h","proto/liblevenshtein.proto"],[("stream state checked after serialization and after closing the file","serialize_protobuf"),("truncating open","serialize_protobuf(const char*)"),("node identity by address, remapped on load","to_protobuf / from_protobuf")],
  [("image","the bytes on disk or in the stream","file at path")],["return value of serialize_protobuf","dictionary returned by deserialize_protobuf"])
p("C09","Loading a cut-off or partly read save never yields a partial dictionary",
  "If what can be read is only a proper prefix of a saved dictionary - a save interrupted by a crash, a truncated file, a read error or stream failure part-way - loading returns null (or, if nothing was lost, the exact dictionary) and never a dictionary with missing terms, a wrong size, or an unusable one. Short and interrupted reads that eventually deliver every byte load the exact dictionary.",
  ["crash_points","fault_sequences","inputs"],"every byte position at which a save can be cut or a read can fail, for every dictionary",
  "The test only loads complete files; a cut at a field boundary parses as a valid message and cannot be noticed without trying every cut point.",
  Z,[("parse failure maps to null","deserialize_protobuf(std::istream&)"),("structural and size validation","from_protobuf")],[],["pointer returned by deserialize_protobuf","terms, size, queries of the loaded dictionary"])
p("C10","Loading damaged bytes never crashes: null or a self-consistent dictionary",
  "Loading any damaged or foreign byte sequence - flipped bits, lost or zeroed sectors, spliced saves, messages with dangling, duplicate or cyclic references or wrong counts - returns null or a dictionary that is fully usable: finite, with size, membership, enumeration and queries all agreeing, which can be saved, reloaded and destroyed. It never crashes, hangs, leaks or touches invalid memory.",
  ["fault_sequences","inputs"],"every storage corruption of every saved dictionary, and every well-formed message that is not a valid dictionary",
  "No test loads anything but an intact file.",
  Z,[("validation of references, acyclicity, reachability and size before a dictionary is published","from_protobuf")],[],["pointer returned by deserialize_protobuf / from_protobuf and all operations on it"])
p("C11","Sessions answer exactly across crashes, restarts and storage faults",
  "In the documented usage cycle - load the saved dictionary if there is one, otherwise build it from the terms, answer queries, save for reuse - every session answers every query exactly, no matter where earlier sessions crashed, which of their unsynchronised bytes survived, or which storage faults they met. After the last fault one fault-free session leaves a save that the next session loads.",
  ["crash_points","fault_sequences","histories"],"every sequence of sessions with a crash at any system call or byte of a save or load, power loss dropping unsynchronised data, full disks and I/O errors",
  "The demo test runs one session against a healthy disk and never restarts.",
  Z+[S+"collection/sorted_dawg.cpp",S+"transducer/lazy_query.cpp","example/src/main.cpp"],[("load returns null for anything incomplete, so the caller rebuilds","deserialize_protobuf"),("save overwrites whatever was left","serialize_protobuf")],
  [("saved file","the only state that survives a restart","serialization path")],["answers of each session","whether the next session can load"])
p("C12","Everything allocated is released exactly once, in every order of use",
  "In every history of building (also refused), loading (also rejected), saving (also failed), querying, enumerating, abandoning iterators half-way and destroying, once the objects a caller created are destroyed nothing the library allocated for them remains, and nothing is ever released twice or used after release. This also holds when loads and saves meet storage faults.",
  ["histories","fault_sequences","schedules"],"every history of object creation, use, abandonment and destruction, including those cut short by refused input or storage faults (out-of-memory itself excepted)",
  "Memory is observed only in the demo's three fixed queries under valgrind; unit tests do not check it.",
  C+T+Z,[("destructors walk what they own","~Dawg, SortedDawg::clean_up, ~LazyQuery, ~DawgIterator, ~Position, StateTransition, merge"),("rejected input frees what was built","sorted_dawg, from_protobuf")],
  [],["blocks outstanding after all owners are gone","invalid or double release"])
p("C13","Results do not depend on memory layout, thread, or what ran before",
  "Two dictionaries built or loaded from the same terms are equal and hash equally, enumerate their terms in the same order and answer each query with the same candidates in the same order, regardless of where the allocator placed them, which thread or process did the work, and what was created or destroyed earlier at the same addresses. A dictionary saved under one memory layout loads as an equal dictionary under any other.",
  ["configurations","histories","schedules"],"every placement of objects by the allocator (ascending, descending, immediately reused, scattered, equal in the low address bits), every content of fresh memory, every earlier history",
  "A test process sees one allocator and one layout, usually with fresh ascending addresses.",
  C+T+Z,[("graph equality and hashing by structure, not address","DawgNode::operator==, std::hash<DawgNode>, std::hash<Dawg>"),("label-ordered edges","DawgNode::_edges"),("64-bit node identities in the saved form","to_protobuf")],
  [("node identities","addresses written into the saved image","serialized node ids")],["==, hash, order of enumeration and candidates, reloaded dictionaries"])
p("C14","Distances obey the laws of edit distance in every history of a shared evaluator",
  "Whatever calls preceded or run concurrently, and whichever of them ran out of memory, the answers of a distance evaluator are consistent with each other: the distance is zero exactly when the terms are equal, is the same in both directions and when both terms are spelled backwards, is unchanged when a common prefix or suffix is added to both terms, is at least the difference and at most the maximum of the lengths, and is at most one after a single edit. The standard distance satisfies the triangle inequality, and allowing transpositions or merges and splits never makes a distance larger.",
  ["histories","schedules","fault_sequences","inputs"],"every history and interleaving of calls on a shared evaluator, with failing allocations, and all pairs and triples of terms related by a law",
  "The tests sample random terms one call at a time from a freshly constructed evaluator; a memoized answer that is wrong only after a particular earlier, concurrent or failed call breaks a law that no fresh evaluator breaks.",
  D,[("recursion on suffixes through the shared memo","between() of the three evaluators"),("order-independent memo key","SymmetricPair")],
  [("memo","distances known so far","MemoizedDistance::memo")],["return values of between(), compared with each other"])
p("C15","A finished dictionary's graph is minimal, whatever the history of additions",
  "However a dictionary's terms were added - in one sequence or one by one, with refused, repeated or empty additions in between, after failed or abandoned attempts, under any memory layout - the finished graph has exactly one node for each distinct set of remaining suffixes: no two nodes accept the same suffixes. Saving and loading keep that number of nodes.",
  ["histories","configurations","fault_sequences","inputs"],"every history of additions, refusals and abandoned attempts, every placement of nodes, every set of terms",
  "No test inspects the graph of a built dictionary, and a lost merge changes no lookup or query result; it shows as memory and file size only, and only for histories and terms that share suffixes in a particular way.",
  [S+"collection/sorted_dawg.cpp",S+"collection/dawg_node.cpp",S+"serialization/serializer.cpp"],[("suffix sharing","SortedDawg::minimize / minimized_node"),("hash and equality of sub-graphs","std::hash<DawgNode>, DawgNode::operator==")],
  [("minimized nodes","sub-graphs that were already seen","SortedDawg::minimized_nodes")],["nodes of the saved form (serialize_protobuf)"])
p("C16","Sessions of the example program serve and save complete dictionaries only",
  "Whatever crashes, storage faults and power losses happened before or happen while it runs, every session of the example program answers each query it is given exactly for a complete dictionary - the intact save if there is one, otherwise all lines of the list of terms - or refuses to start with a non-zero exit code. It ends once its input ends, however the input ends. If it reports success, the saved file holds exactly the dictionary it answered from; if it could not read its terms, it leaves the existing save untouched; if the save failed, its exit code says so.",
  ["crash_points","fault_sequences","histories","configurations"],"every sequence of sessions, every crash point and storage fault in any of them on the list of terms or on the save, every way for the input to end",
  "The demo is run once per algorithm on an intact list with no save; no test lets its storage fail, its input end early, or starts it over what a crashed session left behind.",
  ["example/src/main.cpp","example/src/command_line.cpp",S+"serialization/serializer.cpp",S+"collection/sorted_dawg.cpp",S+"transducer/lazy_query.cpp"],[("load or build, prompt, query, save","main() and prompt() of example/src/main.cpp"),("options","CommandLine::parse_opts"),("save and load by path","serialize_protobuf, deserialize_protobuf")],
  [("list of terms","one term per line","--dictionary-path"),("save","what the last session left","--serialization-path")],["printed answers, exit code, content of the saved file"])
p("C17","Work stays local, lazy and memoised, whatever ran before",
  "Whatever calls ran before or failed, and however many iterators are open: a query does not get noticeably costlier by adding any number of terms that are out of its reach; its first candidates are delivered without finding the others, so an abandoned query costs only what was read; asking it again costs no more than the first time. Looking a term up takes work for the term's length only, not for the number of terms. A distance takes work polynomial in the lengths of the two terms, and once answered it is looked up, in either argument order, not computed again. Loading, saving and destroying a dictionary take work for its nodes and edges, not for the possibly astronomically many terms they spell; building and enumerating take work near-linear in the number of terms, and building at most quadratic in the length of a term.",
  ["histories", "inputs", "fault_sequences", "schedules"],"every dictionary, query, pair of terms and history of earlier, failed and concurrent calls",
  "Results are the same however much work they took, so no assertion on results fails; the tests' dictionaries are too small for lost pruning, lost laziness or a lost cache to show, and wall-clock time is too noisy to be asserted. Steps counted under a deterministic simulator are exact.",
  [S+"transducer/lazy_query.cpp",S+"transducer/state_transition.cpp",S+"distance/memoized_distance.cpp",S+"collection/dawg.cpp",S+"collection/sorted_dawg.cpp",S+"serialization/serializer.cpp"],[("dead states end a branch","StateTransition::operator() returns nullptr"),("one candidate at a time","LazyQuery::advance"),("memoisation","MemoizedDistance::get/set"),("each node once","Dawg::all_nodes, collect_nodes, collect_edges")],
  [("pending intersections","what a query still has to explore","LazyQuery::_pending"),("memo","distances already answered","MemoizedDistance::memo")],["memory accesses and synchronisation points of the calling thread, counted by the simulator"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
