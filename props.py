"""Per-property notes used in the evidence files and in MANIFEST.json."""
REAL = ["all of /repo/src/liblevenshtein (compiled from the working tree with memory-access instrumentation)", "third-party MurmurHash", "the command-line program of /repo/example (C16)", "the protobuf runtime and generated message code", "libstdc++ streams, strings and containers (templates instrumented)", "the kernel's file system for scratch files"]
STUB = ["thread scheduler (one thread runs at a time, chosen by the seed)", "pthread mutexes, reader/writer locks, condition variables, once and static-initialisation guards", "operator new/delete inside library calls (simulated heap with six placement policies and failure injection)", "system calls on the scratch directory (faults, then the real call)", "the std::streambuf behind in-memory streams", "process crash (a nested process that exits at the chosen system call or byte)"]
ASSUMPTIONS = ["sequentially consistent memory (weak-memory effects appear only as data races)", "the protobuf runtime's own memory accesses are not instrumented (its allocations are)", "sampled, not exhaustive: a clean batch is evidence, not proof"]
INFO = {
 "C01": {"rule": "Each run draws 0-4 client threads over one or two shared evaluators, terms, history, preemption density, lock policy; every answer is compared with an independent dynamic program and every access with a happens-before race detector. Non-trivial: at least one switch between threads.", "note": "Races and wrong answers in sampled interleavings of up to 4 clients and terms of up to ~300 characters."},
 "C02": {"rule": "As C01 with stalled threads, writer- or reader-preferring locks, retryable lock errors and failing allocations; a run must end within its step budget with no lock held. Non-trivial: at least one switch between threads.", "note": "Progress within a step budget of 1e9 steps; no fairness beyond that of the simulated scheduler is assumed."},
 "C03": {"rule": "Allocation failures at drawn positions (single, series, persistent) inside calls, alone or with concurrent callers; afterwards all pairs again. Non-trivial: at least one allocation failed.", "note": "Failures are injected at operator new only."},
 "C04": {"rule": "2-4 clients read, query, save one or two shared dictionaries while building, loading and destroying their own; every result is compared with the model and every access with the race detector. Non-trivial: at least one switch between threads.", "note": "Up to 4 clients; dictionaries of up to ~250 terms."},
 "C05": {"rule": "1-3 dictionaries, up to 6 query and 2 enumeration iterators advanced, restarted, abandoned in a drawn interleaving; candidates compared with a scan using an independent distance. Non-trivial: iterators were interleaved or abandoned.", "note": "Bounds 0-5 mostly, extreme bounds on small dictionaries."},
 "C06": {"rule": "Allocation failures at drawn positions of builds, queries, enumerations, lookups, saves, loads, with bystanders; the failed operation is repeated. Non-trivial: at least one allocation failed.", "note": "One-shot failures; destructors are not starved (known finding)."},
 "C07": {"rule": "Histories of accepted, refused, repeated, empty additions, abandoned builds, later mutation attempts under open iterators, compared with a set model. Non-trivial: an addition was refused or a finished dictionary was asked to change.", "note": "Up to ~1500 terms per dictionary (more in the thorough tier)."},
 "C08": {"rule": "Saves and loads by path and stream over old content with short, interrupted, failing writes, full disks, failing open and close, refusing streams; success must mean an exact reload. Non-trivial: a save failed, or a save succeeded and was loaded.", "note": "The page cache is assumed to work once the file is closed; power loss belongs to C09 and C11."},
 "C09": {"rule": "Saves cut by crashes, truncation, power loss, read errors and failing streams at drawn bytes; every cut of small images; the load must be null or exact. Non-trivial: something was cut off or a read or write failed.", "note": "Weak only for holes in the middle of a file."},
 "C10": {"rule": "Bit flips, overwritten, dropped, duplicated and zeroed ranges, splices, and structural edits of the message; whatever loads must be self-consistent. Non-trivial: something was damaged.", "note": "Images of up to ~250 terms."},
 "C11": {"rule": "Sequences of sessions (load or build, query, save), each in its own process that may crash at a drawn system call or byte, with power loss and storage faults between. Non-trivial: at least two sessions.", "note": "Single writer at a time, as documented."},
 "C12": {"rule": "Each history is repeated three times in one process; blocks outstanding must not grow; double and invalid releases and use after release are detected at the access. Non-trivial: an abandoned iterator, refused input, rejected load, failed save or a distance.", "note": "Out-of-memory leaks are excluded by the property."},
 "C13": {"rule": "The same dictionaries under six allocator policies and four fill patterns, other threads and processes; sequences, equality, hashes are compared. Non-trivial: the placement policy changed or threads switched.", "note": "Placements are drawn from six policies."},
 "C14": {"rule": "Histories of calls by 0-4 clients on shared evaluators, some starved of memory, in groups of calls related by a law (identity, symmetry, reversal, common prefix or suffix, length bounds, single edit, triangle, inclusion of edit kinds); the library's answers are compared with each other only. Non-trivial: threads switched, an allocation failed, or more than three laws were checked on one evaluator.", "note": "Terms of up to ~20 characters where they differ, a few of up to 400."},
 "C15": {"rule": "Dictionaries with drawn amounts of common endings, built in one go or by histories with refused, repeated, empty, starved and abandoned additions under drawn memory layouts; the nodes of the saved graph are counted and compared with the minimum computed from the terms. Non-trivial: a graph was counted.", "note": "Up to ~4000 terms per dictionary."},
 "C16": {"rule": "Sequences of sessions of the command-line program in processes of their own, over changing lists of terms, with storage faults on the list, on the save or on both, crashes, power loss, and input that ends in different ways; its printed answers, exit code and saved file are compared with the model. Non-trivial: at least two sessions.", "note": "Its standard input and output are real files without faults."},
 "C17": {"rule": "Steps (memory accesses and synchronisation points of the calling thread) of queries over dictionaries with and without terms out of reach, of the first two candidates against all, of repeated queries between open and abandoned iterators, of lookups, first and repeated distances, builds, enumerations, loads, saves and destructions, the latter also for graphs that spell up to 2^60 terms, after histories with other threads and failing allocations; compared with bounds computed from the inputs. Non-trivial: a bound was checked.", "note": "Bounds leave a factor of four or more to the present code; smaller slow-downs are not reported. Up to ~1600 terms, or 2^60 in ladder-shaped graphs."},
}
