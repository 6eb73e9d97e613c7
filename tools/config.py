"""Which harness decides which property, with what budget (simulated runs: quick, thorough)."""
COMMON_ASSUMPTIONS = [
    "sequentially consistent interleavings at memory-access granularity; weaker hardware reorderings are covered only through the happens-before race detector (C++ memory orders are honoured there)",
    "g++ 13 -O1 with -fsanitize=thread instrumentation; the simulator runtime replaces libtsan",
    "seeded search: absence of a violation in the explored runs is not a proof",
]
_SIG_RULE = ("One run = one seeded program (1-3 signals, up to 96 slots in 11 connection forms, 2-4 simulated threads in 1-3 phases, scripts run by slots and by callable destructors), "
             "one seeded schedule (preemption at every lock, atomic, user-code boundary) and seeded faults; non-trivial when at least two threads run or emissions nest")
HARNESSES = {
    "sig": dict(src="sig.cpp", variants={"dbg": [], "rel": ["-DNDEBUG"]},
                real=["include/kl/signal.hpp", "include/kl/defer.hpp", "std::function, std::shared_ptr (libstdc++ headers)"],
                stub=["thread scheduler", "std::mutex / pthread locks", "operator new/delete (fault-injecting arena allocator)"]),
    "res": dict(src="res.cpp", variants={"dbg": []}, repo_src=["src/path.cpp", "src/json.cpp", "src/serialization_error.cpp"], plain_src=["resmodel.cpp"], deps=["resmodel.h", "jmodel.h", "damage.h"],
                real=["include/kl/resource.hpp", "include/kl/resource_op.hpp", "include/kl/path.hpp", "src/path.cpp", "include/kl/json.hpp", "src/json.cpp", "include/kl/detail/serialization.hpp", "include/kl/ctti.hpp", "RapidJSON"],
                stub=["transport between clients and server (loses, duplicates, reorders, damages)", "operator new/delete (fault-injecting arena allocator)", "user types whose copies, conversions and validators throw on command"]),
}
_K = '__open64_2 __open_2 close dup fcntl fcntl64 fstat fstat64 fstatat fstatat64 lseek lseek64 lstat lstat64 madvise mmap mmap64 munmap open open64 openat openat64 posix_fadvise posix_fadvise64 posix_madvise pread pread64 read stat stat64'.split()
HARNESSES["file"] = dict(src="file.cpp", variants={"dbg": [], "rel": ["-DNDEBUG"]}, repo_src=["src/file_view_unix.cpp"], plain_src=["fsk.cpp"], deps=["fsk.h"],
                redefine={k: "simk_" + k for k in _K},
                real=["include/kl/file_view.hpp", "src/file_view_unix.cpp"],
                stub=["kernel: files, descriptors, mappings and every system call (open, fstat, mmap, munmap, close, read ...)", "other processes replacing files", "thread scheduler", "operator new/delete (fault-injecting arena allocator)"])
_RES_RULE = ("One run = one seeded document (39 members: structs, optionals, keyed, indexed and mapped collections, read-only variants), 4-31 client requests of all five verbs in bursts, one seeded delivery order and seeded faults "
             "(loss, duplication, reordering, damage to path or body, memory failing at or from the k-th allocation of a request, the k-th user copy/conversion/validator call throwing); after every request the whole document, its change record and watchers are compared with the reference model; "
             "non-trivial when at least two updates succeed")
_R05_RULE = ("One run = 2-4 simulated threads, each with a resource of its own (39 members) and 1-4 steps: requests on its own resource, requests whose path and document other threads use too, and reads (get, serialize, change queries) of one resource nobody changes, mostly in a process where nothing was used before; "
             "every allocation and every call of user code is a preemption point, memory fails at the k-th allocation, user code throws, requests are damaged; happens-before race detection, and every answer and document is compared with the reference model of that resource alone; all runs count as non-trivial")
_S = dict(harness="sig", rule=_SIG_RULE, runs=(160000, 6000000))
_R = dict(harness="res", rule=_RES_RULE, runs=(24000, 1200000))
_FILE_RULE = ("One run = one seeded directory of 8 simulated files (empty, around page multiples, over 2 and 4 GiB, a directory, missing, unreadable), 1-4 threads opening, reading, transferring and destroying views and using descriptors of their own, "
              "every system call a preemption point that may fail with a realistic error, files replaced by another process between any two calls, memory failing at the k-th allocation; non-trivial when several views or threads exist or an error was reported")
_F = dict(harness="file", rule=_FILE_RULE, runs=(100000, 4000000))
HARNESSES["bin"] = dict(src="bin.cpp", variants={"dbg": [], "rel": ["-DNDEBUG", "-O2"]}, deps=["damage.h"],
                real=["include/kl/binary_rw.hpp", "include/kl/binary_rw/{endian,map,optional,pair,set,string,variant,vector}.hpp", "GSL spans, Boost.Endian"],
                stub=["the device or link holding the bytes (full, torn, crashed, stale, corrupting)", "operator new/delete (fault-injecting arena allocator)"])
_BIN_RULE = ("One run = one seeded stream of tagged records over 44 value types (numbers, endian types, strings, nested containers, optionals, pairs, variants, user types), written and read through one simulated device: a log surviving 1-4 crashes with torn last records, "
             "a message damaged in up to three places (bit flips, lost, duplicated, reordered, zeroed bytes, corrupted lengths), or a buffer that becomes full anywhere; memory may fail at the k-th allocation of a read; every operation is compared with an independent codec; "
             "non-trivial when at least two records survive, damage was read, or the buffer filled")
_B = dict(harness="bin", rule=_BIN_RULE, runs=(160000, 8000000))
HARNESSES["exc"] = dict(src="exc.cpp", variants={"dbg": [], "rel": ["-DNDEBUG"]},
                real=["include/kl/exception_info.hpp", "include/kl/defer.hpp", "std::shared_ptr, std::exception_ptr (libstdc++)"],
                stub=["thread scheduler", "std::mutex", "operator new/delete (fault-injecting arena allocator)", "user values whose copies throw on command"])
_EXC_RULE = ("One run = 0-2 shared originals and 1-4 simulated threads (3-40 steps each) that set, unset, copy, assign, move, throw, catch, mail (exception_ptr through a lock) and print exception information of five tags (string, int, counted value, raw bytes, move-only), "
             "memory failing at the k-th allocation of an operation, copies of values throwing; every object is compared with its own history after every operation; all runs count as non-trivial")
_DEF_RULE = ("One run = 1-3 simulated threads executing nested scopes (loops, early returns, breaks, lambdas, recursion up to depth 5, actions containing scopes) whose every step may throw or run out of memory; a shadow stack of pending actions is the oracle; all runs count as non-trivial")
_E = dict(harness="exc", rule=_EXC_RULE, runs=(200000, 6000000))
HARNESSES["json"] = dict(src="json.cpp", variants={"dbg": []}, repo_src=["src/json.cpp", "src/serialization_error.cpp"], plain_src=["jsonmodel.cpp"], deps=["jsonmodel.h", "jmodel.h", "damage.h"],
                redefine={k: "simm_" + k for k in ("malloc", "free", "realloc", "calloc")},
                real=["include/kl/json.hpp", "src/json.cpp", "include/kl/serialization.hpp", "include/kl/detail/serialization.hpp", "include/kl/serialization_attributes.hpp", "src/serialization_error.cpp", "include/kl/ctti.hpp", "include/kl/enum_reflector.hpp", "include/kl/enum_set.hpp", "RapidJSON"],
                stub=["thread scheduler, locks and initialisation guards", "operator new/delete (fault-injecting arena allocator) and RapidJSON's malloc (same arena, never fails)", "the medium that damages documents", "user-defined (de)serializers and validators that yield or throw on command"])
_JSON_RULE = ("One run = 2-8 operations (J01: 2-4 threads with 1-4 operations each on 1-3 shared objects and documents, in a process where nothing was used before) of five kinds (dump, serialize, deserialize, patch, parse, in up to 8 API forms) on 22 types covering every attribute, container, enum and customization form; "
              "documents damaged structurally and bytewise; memory failing at the k-th allocation (once or from then on), user code throwing at its k-th call; every outcome is compared with an independent schema-driven model; all runs with at least two operations count as non-trivial")
_SHIM = __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.realpath(__file__))), "harness", "yamlshim")
HARNESSES["yaml"] = dict(src="json.cpp", variants={"dbg": []}, flags=["-DKLB_YAML", "-I", _SHIM], ldflags=["-l:libyaml-cpp.a"], repo_src=["src/yaml.cpp", "src/serialization_error.cpp"], plain_src=["jsonmodel.cpp"],
                deps=["jsonmodel.h", "jmodel.h", "damage.h", "yamlshim/yaml-cpp/node/type.h"],
                real=["include/kl/yaml.hpp", "src/yaml.cpp", "include/kl/serialization.hpp", "include/kl/detail/serialization.hpp", "include/kl/serialization_attributes.hpp", "src/serialization_error.cpp", "include/kl/ctti.hpp", "include/kl/enum_reflector.hpp", "include/kl/enum_set.hpp", "yaml-cpp 0.8 (its library part is not instrumented: no memory-access checks inside it)"],
                stub=["thread scheduler, locks and initialisation guards", "operator new/delete (fault-injecting arena allocator)", "the medium that damages documents", "user-defined (de)serializers and validators that yield or throw on command", "yaml-cpp/node/type.h (declares NodeType as the namespace that src/yaml.cpp expects)"])
_YAML_RULE = ("One run = 2-8 operations (Y03: 2-4 threads with 1-4 operations each on 1-3 shared objects and texts, in a process where nothing was used before) of five kinds (dump, serialize, deserialize, patch, parse, in up to 8 API forms) of the YAML backend on 23 types covering every attribute, container, enum and customization form; "
              "documents damaged structurally and bytewise; memory failing at the k-th allocation (once or from then on), user code throwing at its k-th call; every outcome is compared with an independent schema-driven model, and every document read or viewed is compared with what it said before; all runs with at least two operations count as non-trivial")
_RELAY_RULE = ("One run = 2-4 simulated nodes running the old or the new version of a record type (renamed member with aliases, members unknown to the old version, flattened header, defaults, extra fields), 6-39 steps of client patches, replication messages (lost, duplicated, reordered, damaged, memory failing while receiving), "
               "crashes tearing the unsynced tail of the node's log at any byte and restarts in either version; after every step the node's record is read back by a new-version reader and compared with the history of client changes; non-trivial when a revision was replicated")
HARNESSES["text"] = dict(src="text.cpp", variants={"dbg": []}, repo_src=["src/base64.cpp", "src/path.cpp"], deps=["damage.h"],
                real=["include/kl/base64.hpp", "src/base64.cpp", "include/kl/path.hpp", "src/path.cpp", "include/kl/split.hpp", "include/kl/stream_join.hpp", "include/kl/hash.hpp", "include/kl/enum_reflector.hpp", "include/kl/enum_range.hpp", "include/kl/ctti.hpp"],
                stub=["transport (loses, duplicates, reorders, damages)", "thread scheduler", "operator new/delete (fault-injecting arena allocator)"])
_T01_RULE = ("One run = 1-6 byte-string fragments (lengths around every padding and block boundary) sent as base64 or base64url texts through a channel that loses, duplicates, reorders and damages them until all have arrived, a receiver using the other alphabet, memory failing at the k-th allocation; every text is judged by an independent decoder; non-trivial when at least two texts were delivered")
_T02_RULE = ("One run = 3-22 operations (set, clear, copy, assign, move, construct) on up to 6 path objects with path texts of 0-52 segments, damaged in transit, memory failing at the k-th allocation; after every operation every path object with specified contents is compared with an independent decoder; non-trivial when at least two texts were set")
_T03_RULE = ("One run = 2-4 simulated threads with 1-6 calls each of 19 helper facilities on shared and own inputs in a process where nothing was used before, memory failing at the k-th allocation of a call; happens-before race detection and comparison with the lone-call result; all runs count as non-trivial")
_T = dict(harness="text", runs=(120000, 6000000))
_J = dict(harness="json", rule=_JSON_RULE, runs=(100000, 5000000))
_Y = dict(harness="yaml", rule=_YAML_RULE, runs=(60000, 3000000), assumptions=["what a scalar's text means as a number or bool is taken from yaml-cpp; memory failures that yaml-cpp itself turns into failed conversions are accepted as errors"])
PROPS = {
    "S01": dict(_S, expect_probes=["nested-emission", "concurrent-emissions-same-signal", "forwarded-signal"]),
    "S02": dict(_S, expect_probes=["disconnect-during-emission", "disconnect-during-other-threads-emission", "self-disconnect"]),
    "S03": dict(_S, expect_probes=["blocked"]),
    "S04": dict(_S, expect_probes=["alloc-failure", "self-disconnect", "operation-from-callable-destructor"]),
    "S05": dict(_S, expect_probes=["operation-from-callable-destructor", "lock-contended"]),
    "S06": dict(_S, expect_probes=["emission-stopped", "nested-emission"]),
    "S07": dict(_S, expect_probes=["slot-throws", "argument-copy-throws", "connect-failed"]),
    "S08": dict(_S, expect_probes=["move-construct", "move-assign", "swap", "move-while-emitting"]),
    "S09": dict(_S),
    "R01": dict(_R, expect_probes=["user-exception-propagated", "bad-alloc-propagated", "conflict-rolled-back", "applied-then-failed"]),
    "R02": dict(_R, expect_probes=["put", "post", "patch", "delete", "unparsable-request"]),
    "R03": dict(_R, expect_probes=["application-change", "delete", "conflict-rolled-back"]),
    "R04": dict(_R, expect_probes=["read-only-refused", "conflict-rolled-back"]),
    "R05": dict(_R, rule=_R05_RULE, runs=(24000, 1200000), expect_probes=["shared-read", "shared-request", "own-request", "alloc-failure"]),
    "F01": dict(_F, expect_probes=["empty-file", "file-over-2GiB", "page-multiple", "system-error", "several-threads", "file-replaced", "mmap-fails", "fstat-fails", "open-fails"]),
    "F02": dict(_F, expect_probes=["mmap-fails", "fstat-fails", "close-fails", "bad-alloc", "several-threads"]),
    "B01": dict(_B, expect_probes=["error-detected", "read-after-error", "out-of-memory", "length-corrupted", "span", "skip"]),
    "B02": dict(_B, expect_probes=["recovered", "crash-torn-write", "stale-bytes-follow"]),
    "B03": dict(_B, expect_probes=["buffer-full", "write-after-error", "exact-fit", "one-byte-short", "writer-skip"]),
    "J01": dict(_J, expect_probes=["static-init", "static-init-contended", "out-of-memory"]),
    "J02": dict(_J, expect_probes=["out-of-memory", "user-exception", "rejected"]),
    "J03": dict(_J, expect_probes=["rejected", "unparsable", "duplicate-members", "extra-field-collision"]),
    "J04": dict(_J, rule=_RELAY_RULE, runs=(200000, 6000000), expect_probes=["replicated", "recovered", "version-changed", "torn-line", "damage-refused"]),
    "Y01": dict(_Y, expect_probes=["rejected", "unparsable", "duplicate-members", "extra-field-collision"]),
    "Y02": dict(_Y, expect_probes=["out-of-memory", "user-exception", "rejected"]),
    "Y03": dict(_Y, expect_probes=["static-init", "out-of-memory"]),
    "T01": dict(_T, rule=_T01_RULE, expect_probes=["assembled", "damage-detected", "non-canonical", "out-of-memory"]),
    "T02": dict(_T, rule=_T02_RULE, expect_probes=["malformed-refused", "damaged", "deep-path", "moved", "out-of-memory"]),
    "T03": dict(_T, rule=_T03_RULE, expect_probes=["out-of-memory"]),
    "E01": dict(_E, expect_probes=["unset", "copied", "moved", "several-threads", "exception-mailed", "exception-received"]),
    "E02": dict(_E, expect_probes=["out-of-memory", "value-copy-failed", "several-threads"]),
    "D01": dict(_E, rule=_DEF_RULE, expect_probes=["left-by-exception", "left-normally", "several-threads"]),
}
