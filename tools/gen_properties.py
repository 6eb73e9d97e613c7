#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

SIG = ["include/kl/signal.hpp", "include/kl/defer.hpp"]
# ---------------------------------------------------------------- signals
p("S01", "An emission calls every connected slot exactly once, in connection order",
  "An emission invokes each slot that stays connected and unblocked from before it starts until its turn exactly once, with the emitted arguments, and invokes no slot twice; slots whose connection begins after the emission began visiting are not invoked by it, and an uninterrupted emission never ends before reaching the last slot. Slots run in the order given by their connection (front-inserted ones, newest first, before back-appended ones, oldest first), whatever other threads or the slots themselves connect, disconnect, block or emit meanwhile.",
  ["schedules", "histories", "inputs"],
  "For all interleavings of concurrent and nested emissions with connect, disconnect, disconnect-all and block operations issued by any thread or by the slots themselves.",
  "The tests exercise emission on one thread, plus a few free-running two-thread stress loops whose interleaving nobody controls; a slot skipped or repeated only when a connect/disconnect lands between two visits of a concurrent emission is not reached.",
  SIG, [("snapshot of the tail and step-by-step locked traversal", "include/kl/signal.hpp operator()"),
        ("insertion of new slots", "include/kl/signal.hpp insert_new_slot_locked"),
        ("deferred physical removal while an emission is active", "include/kl/signal.hpp cleanup_invalidated_slots_locked / remove_slot_locked")],
  ["slot invocations and their arguments"])
p("S02", "Disconnection is final and every observer agrees on it",
  "Once disconnecting a slot (through any handle, a scoped handle's destruction, disconnect-all, or the signal's destruction) has returned, no emission begins a new visit of that slot and the slot is never invoked again; every handle to it reports disconnected forever and it no longer counts among the connected slots. A slot that nobody disconnected stays connected and counted, so at every instant the reported number of slots equals the number of slots connected and not yet disconnected.",
  ["schedules", "histories"],
  "For all interleavings of disconnect operations with emissions (including from inside the slot itself and from several threads racing on the same slot), connects and queries.",
  "Tests check finality sequentially and for a slot disconnecting itself; the windows between a disconnect and a concurrent emission's clean-up, or two racing disconnects, are never forced.",
  SIG, [("atomic detach from the sender, then locked removal", "include/kl/signal.hpp slot_state::disconnect, signal::disconnect"),
        ("validity test before each invocation", "include/kl/signal.hpp operator()"),
        ("disconnect_all_slots, num_slots", "include/kl/signal.hpp")],
  ["connection::connected, signal::num_slots/empty, slot invocations"])
p("S03", "A blocked slot is never invoked and is invoked again once all blockers die",
  "While at least one blocker of a slot exists before an emission reaches that slot and until after, the slot is not invoked but stays connected and counted; when the last of its blockers (including copies, moved and nested ones, from any thread) is gone, later emissions invoke it again. Blocking one slot never affects another.",
  ["schedules", "histories"],
  "For all interleavings and all histories of creating, copying, moving, assigning and destroying blockers on any threads, during and between emissions.",
  "Tests nest two blockers on one thread; blocker copies racing on several threads, blockers created in slots or outliving the signal, and assignment chains are not covered.",
  SIG, [("block count and its test before each invocation", "include/kl/signal.hpp slot_state::block/unblock/blocked, connection::blocker")],
  ["slot invocations, connection::connected"])
p("S04", "Slots and handles never dangle, leak, race or outlive their last user",
  "Under any supported concurrent use, a slot's callable is destroyed exactly once: never while one of its invocations is running, and no later than when its signal no longer holds it, no emission is visiting it and no handle to it remains. No operation reads or writes freed memory, frees twice, leaks, or performs a data race on the signal's own state.",
  ["schedules", "histories", "fault_sequences"],
  "For all interleavings of supported concurrent operations, including handles that outlive the signal, slots that disconnect themselves or others, slots that throw, and allocation failures.",
  "Tests count destructions in a handful of sequential scenarios and run a few uncontrolled thread loops without a race or lifetime oracle.",
  SIG, [("intrusive reference count", "include/kl/signal.hpp ref_counted, connection, blocker"),
        ("emission holds a reference to the visited and the last slot", "include/kl/signal.hpp operator()"),
        ("mutex over list state", "include/kl/signal.hpp")],
  ["callable destructors, heap accesses"])
p("S05", "Signal operations never deadlock, whatever slots and callables do",
  "Every operation on a signal or a handle finishes after finitely many steps once the slots it runs have returned: user code (slot bodies, argument copies, and the destructors of callables being released) may call any operation of the same or another signal, other than moving an emitting one, without self-deadlock, and concurrent operations, including swaps and move assignments of the same signals in any directions, never deadlock each other.",
  ["schedules", "histories"],
  "For all interleavings of supported operations and all re-entrant uses from slot bodies and callable destructors, including cross-connected signals and swaps in opposite orders.",
  "Tests re-enter from slot bodies only, on one thread; a self-deadlock reached through a callable's destructor or an opposite-order lock acquisition needs a specific history or schedule.",
  SIG, [("lock is never held while user code runs", "include/kl/signal.hpp operator(), disconnect_all_slots, cleanup_invalidated_slots_locked"),
        ("ordered double lock in swap", "include/kl/signal.hpp swap")],
  ["completion of every operation"])
p("S06", "Stopping and current-connection are private to one emission on one thread",
  "A stop request made by a slot ends exactly the innermost emission running on the calling thread after that slot returns, and no other emission: not an outer one, not a later one, not one on another thread. Inside a slot the current connection identifies that very slot, also after nested emissions finished or threw, and outside every slot it is empty.",
  ["schedules", "histories"],
  "For all nestings of emissions (same or different signals), all threads emitting concurrently, and all points where a slot stops, throws or emits.",
  "Tests stop a single non-nested emission on one thread and query the current connection in simple cases.",
  SIG, [("per-thread emission state saved and restored around each emission", "include/kl/signal.hpp get_tls_signal_info, operator(), kl::this_signal")],
  ["slot invocations, this_signal::current_connection"])
p("S07", "A failing slot or allocation leaves the signal fully usable",
  "An exception thrown by a slot reaches the emitter unchanged, the remaining slots of that emission are not invoked, and afterwards the signal, its connections, concurrent and outer emissions behave as if the emission had simply ended there (deferred disconnections still happen, nothing leaks, moving is possible again). If connecting fails for lack of memory the error propagates and the signal is exactly as before.",
  ["fault_sequences", "histories", "schedules"],
  "For every slot and nesting level at which an exception may be thrown, every allocation that may fail, and all surrounding histories and schedules.",
  "One test throws from one slot; allocation failure is never injected, and clean-up after exceptions under nesting or concurrency is not examined.",
  SIG, [("scope guards around the emission", "include/kl/signal.hpp operator(), include/kl/defer.hpp"),
        ("allocation before list mutation", "include/kl/signal.hpp connect")],
  ["exceptions at the emitter, later emissions, allocations outstanding"])
p("S08", "Moving or swapping signals transfers every connection, or terminates",
  "After moving or swapping signals that are not being emitted, each slot belongs to the signal it was moved to in unchanged order, is invoked by that signal only, and all its existing handles (connections, scoped connections, blockers) keep controlling it there; no slot is lost, duplicated or left attached to the old signal, also when several threads swap and connect at once. Moving or swapping a signal while any thread is emitting it terminates the process rather than continuing.",
  ["histories", "schedules"],
  "For all histories of connect, disconnect, block, emit, move-construct, move-assign, swap and destroy over several signals, with emissions on other threads.",
  "Tests move and swap signals with a couple of slots once; histories with deferred removals, blockers, chains of moves and concurrent emissions are not covered.",
  SIG, [("list hand-over and back-pointer rebinding under lock", "include/kl/signal.hpp move constructor, swap, rebind_locked"),
        ("termination check", "include/kl/signal.hpp terminate_if_emitting_locked")],
  ["slot invocations per signal, connected(), process termination"])
p("S09", "Connection handles are faithful values",
  "Copies of a connection compare equal, hash equal and observe the same slot; handles to different slots compare unequal; moving or assigning a handle transfers which slot it designates without affecting the slot, and empty handles are inert and report disconnected. A scoped handle disconnects its slot when and only when it is destroyed still owning it; releasing, moving, swapping or assigning it never disconnects a slot that some scoped handle still owns.",
  ["histories", "schedules"],
  "For all histories of copy, move, assign, swap, release, disconnect and destroy over sets of handles, on any threads owning them.",
  "Tests try each member function once on one or two handles.",
  SIG, [("reference-counting handle classes", "include/kl/signal.hpp connection, scoped_connection, std::hash specialisations")],
  ["operator==, operator<, hash, connected, num_slots"])
# ---------------------------------------------------------------- resources
RES = ["include/kl/resource_op.hpp", "include/kl/resource.hpp", "include/kl/serialization.hpp", "include/kl/detail/serialization.hpp"]
p("R01", "A rejected or failing resource update changes nothing",
  "When a put, post, patch or delete is answered with an error status, or user code it runs (validators, conversions, copies) throws, the whole resource value and its change record are exactly as before the request. If memory runs out anywhere inside an update, the value and its change record are either both as before or both fully updated, never a mixture, and the resource keeps serving later requests.",
  ["fault_sequences", "histories", "inputs"],
  "For every resource content, request, validation outcome and every allocation or user-code call inside the request at which a failure may strike.",
  "Tests check roll-back for a few validation failures; no allocation failure or throwing copy/conversion is injected at every possible point.",
  RES, [("candidate copy, then guarded replacement", "include/kl/resource_op.hpp put/patch/post/del, rollback_value, pop_back_rollback"),
        ("change record update", "include/kl/resource.hpp modification_tracker::notify_changed")],
  ["get() of every path, changed_since of every path, status codes"])
p("R02", "Resource requests behave like the document model under any request stream",
  "For every history of requests, including lost, duplicated, reordered, truncated and corrupted ones, the resource answers and evolves like a plain document tree: get returns exactly the value last written, put replaces the addressed node, patch merges only the members it names, post appends one element, delete removes exactly the addressed element or empties the addressed optional. Statuses tell success, not-found, not-allowed, conflict and bad-request apart accordingly and an unparsable or ill-typed body never changes anything.",
  ["histories", "inputs", "fault_sequences"],
  "For all histories of requests over paths of a nested document (members, optionals, keyed collections, indexed collections, maps) delivered by an unreliable transport.",
  "Tests issue one or two hand-written requests per fixture; interactions over long histories (delete then recreate then address by key, duplicate deliveries) are not sampled.",
  RES + ["include/kl/path.hpp", "src/path.cpp", "include/kl/json.hpp"],
  [("path traversal", "include/kl/resource_op.hpp visit_node"), ("verbs", "include/kl/resource_op.hpp get/put/post/patch/del/delete_direct_child"),
   ("patch semantics", "include/kl/detail/serialization.hpp")],
  ["statuses and bodies of all verbs"])
p("R03", "Watchers see every change and nothing but changes",
  "For any observer that remembered a generation, a path is reported changed since then if and only if some update since then succeeded on that path, on one of its descendants, or on an ancestor whose replacement (or removal or insertion of children) covers it. Failed requests and reads never advance anything, and generations only grow.",
  ["histories", "inputs", "fault_sequences"],
  "For all histories of successful, rejected and failing requests and all observed paths and remembered generations, including deletion of optionals and of collection elements.",
  "Tests look at the generation of a few paths after one update; descendants of deleted nodes, failing updates and long histories are not covered.",
  ["include/kl/resource.hpp", "include/kl/resource_op.hpp", "include/kl/path.hpp"],
  [("per-node and per-subtree generations", "include/kl/resource.hpp modification_tracker"), ("subtree flag at each verb", "include/kl/resource_op.hpp")],
  ["changed_at, changed_since, current"])
p("R04", "Read-only nodes, element identity and validated invariants survive all requests",
  "No request addressed to a node declared read-only, or to anything below a node whose subtree is declared read-only, ever changes it (replacing a writable ancestor may). No request changes the key of a keyed element through that element, creates two elements with the same key, or leaves the resource in a state that its validators reject. Such requests are refused with a not-allowed or conflict status.",
  ["histories", "inputs", "fault_sequences"],
  "For all request histories, addressing the protected node directly, through an element or through any ancestor that permits writing, with failures injected anywhere.",
  "Tests try one direct write per attribute; combinations of attribute, verb and nesting over histories are not covered.",
  ["include/kl/resource_op.hpp", "include/kl/resource_attributes.hpp"],
  [("access context carried along the path", "include/kl/resource_op.hpp access_context"),
   ("identity and uniqueness checks", "include/kl/resource_op.hpp preserves_identity, validate_unique_child_keys, check_duplicate_child_key"),
   ("whole-tree validation after each candidate change", "include/kl/resource_op.hpp validate_tree")],
  ["resource value after each request"])
p("R05", "Threads reading one resource or serving their own never interfere",
  "Any number of threads may at once read (get, serialize, ask what changed in) one resource that nobody is changing, and serve requests on resources of their own, sharing nothing but unmodified paths and request documents, including the very first uses in the process and requests that are refused, fail in user code or run out of memory. There is no data race or deadlock, and each request has exactly the answer and effect it has alone.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "For all interleavings of readers of a shared resource and of servers of separate resources, all requests, and every placement of memory and user-code failures.",
  "Tests are single-threaded; hidden shared state (caches, static scratch, lazily built tables) only shows under particular interleavings.",
  ["include/kl/resource.hpp", "include/kl/resource_op.hpp", "include/kl/path.hpp", "include/kl/detail/serialization.hpp"],
  [("const reads touch no mutable state", "include/kl/resource.hpp modification_tracker::changed_at"),
   ("path traversal keeps its state on the stack", "include/kl/resource_op.hpp visit_node"),
   ("per-type tables are built once, safely", "include/kl/detail/serialization.hpp reserved_field_names")],
  ["answers of requests", "resource value after each request", "change record"])
# ---------------------------------------------------------------- file view
FV = ["include/kl/file_view.hpp", "src/file_view_unix.cpp"]
p("F01", "A file view is exactly the file's bytes, or an error naming the cause",
  "Opening a view either yields precisely the bytes the file had (none for an empty file) at a readable address for the view's whole life, or throws a system error carrying the failing call's error code; a regular file that may be read is never refused for a reason of the view's own making (such as asking to write). It never yields a view with other contents or size and never touches an invalid mapping, whichever of the underlying system calls fails.",
  ["fault_sequences", "inputs"],
  "For every file size and kind and every single or repeated failure of open, status query, mapping and close, including interrupted calls.",
  "Tests open an existing, a missing and an empty file; mapping and status failures never happen in them.",
  FV, [("error checks after each system call", "src/file_view_unix.cpp file_view::file_view")],
  ["get_bytes, exception code"])
p("F02", "File views release every descriptor and mapping exactly once",
  "Whatever fails, after construction has returned or thrown no file descriptor opened by it stays open, and each mapping is removed exactly once, with its exact address and size, when the view that owns it dies and not earlier. Nothing else is ever closed or unmapped.",
  ["fault_sequences", "histories"],
  "For all histories of opening and destroying several views (copied or moved wherever the type permits) with any system call failing at any point.",
  "Tests never count descriptors or mappings and never inject failures.",
  FV, [("descriptor guard", "src/file_view_unix.cpp file_descriptor"), ("destructor", "src/file_view_unix.cpp ~file_view")],
  ["open descriptors and mappings"])
# ---------------------------------------------------------------- binary
BIN = ["include/kl/binary_rw.hpp"] + ["include/kl/binary_rw/%s.hpp" % x for x in ("string","vector","map","set","optional","variant","pair","endian")]
p("B01", "Reading damaged binary input is contained and detected",
  "Reading any sequence of values from a truncated, torn or corrupted buffer never accesses memory outside the buffer, never throws (unless memory itself runs out, which leaks nothing), and uses memory bounded by a fixed multiple of the buffer size; the position never leaves the buffer. Once a read needs more bytes than remain the reader reports an error that no later operation clears, later reads consume nothing, and a string, vector, map or set whose read fails is left empty. A value read without error is exactly what the bytes encode.",
  ["fault_sequences", "inputs", "histories"],
  "For all written messages, all truncation points and byte corruptions of them, and all sequences of read, peek, span and skip operations.",
  "Tests truncate a few hand-written buffers; corrupted length prefixes and operations after an error in arbitrary order are not covered.",
  BIN, [("bounds checks and sticky error flag", "include/kl/binary_rw.hpp cursor_base, peek_impl, read_impl, span"), ("container readers", "include/kl/binary_rw/*.hpp")],
  ["err, pos, left, values read, allocations"])
p("B02", "Values written then stored intact are read back identical",
  "Any sequence of supported values written to a buffer and preserved by its device is read back as the same sequence of values, consuming exactly the bytes written, even when it is followed by other data or a torn later record. A torn record never damages what was read before it.",
  ["histories", "fault_sequences", "inputs"],
  "For all sequences of (nested) values and all crash points of a device holding consecutive records, of which only a prefix survives.",
  "Tests round-trip single hand-picked values; sequences and surviving prefixes of record streams are not explored.",
  BIN, [("symmetric writers and readers", "include/kl/binary_rw/*.hpp")],
  ["values, pos"])
p("B03", "A full output buffer is detected and never overrun",
  "Writing never touches memory beyond the buffer: the first primitive (a number, or the characters or elements of a string, span or vector of numbers taken together) that does not fit is not written at all, the writer reports an error from then on, nothing more is written, and the bytes before the position are exactly the encoding of what was written before it; the rest of the buffer is untouched. If the total encoding fits there is no error and the position equals its size.",
  ["fault_sequences", "inputs", "histories"],
  "For all sequences of values and all buffer capacities, that is all points at which the device becomes full.",
  "Tests overflow one or two buffers with one primitive.",
  BIN, [("capacity check and sticky error flag", "include/kl/binary_rw.hpp write_impl")],
  ["err, pos, buffer contents and guard bytes"])
# ---------------------------------------------------------------- serialization
SER = ["include/kl/json.hpp", "include/kl/serialization.hpp", "include/kl/detail/serialization.hpp", "src/json.cpp"]
p("J01", "Concurrent JSON serialization of shared data is race-free and deterministic",
  "Any number of threads may at once dump or serialize the same unmodified objects as JSON and parse, deserialize or patch from the same unmodified JSON documents into objects of their own, including the very first uses in the process and first uses that fail, without data race or deadlock, and each obtains exactly the result a single thread would.",
  ["schedules", "histories"],
  "For all interleavings of concurrent first and later serializations, dumps and deserializations of shared documents and objects.",
  "No test serializes from two threads; lazily initialised shared tables are only ever touched by one.",
  SER + ["include/kl/ctti.hpp", "include/kl/enum_reflector.hpp"],
  [("no mutable shared state; lazily initialised function-local tables", "include/kl/detail/serialization.hpp reserved_field_names, include/kl/json.hpp get_null_value, src/json.cpp")],
  ["results of dump/serialize/deserialize"])
p("J02", "Memory exhaustion during JSON (de)serialization is an ordinary, leak-free error",
  "If an allocation fails (or user-supplied serialization code throws) at any point of serializing, dumping, parsing, deserializing or patching JSON, the only outcome is the out-of-memory exception (or the user's exception): nothing leaks, the object being read into stays valid and usable, and repeating the operation with memory available gives the normal result.",
  ["fault_sequences", "inputs"],
  "For every supported type tree and every single or repeated allocation failure inside the operation.",
  "Allocation failure is never injected by the tests.",
  SER + ["include/kl/serialization_error.hpp"], [("RAII throughout; error context added while unwinding", "include/kl/detail/serialization.hpp, src/json.cpp, include/kl/serialization_error.hpp")],
  ["exception types, outstanding allocations, retried result"])
p("J03", "JSON documents state what objects hold; damaged ones only give documented errors",
  "Dumping or serializing an object as JSON yields a well-formed document stating exactly its content under the declared attributes (renaming, skipping, null handling, flattening, extra fields). Parsing, deserializing and patching from any document, including truncated, torn, duplicated, reordered or corrupted ones, either succeeds with exactly the value the document states for that type and its attributes (aliases, defaults, missing and null policies, validators, range checks) or throws the documented parse or deserialization error whose message names the offending field; it never crashes, hangs, leaks or throws anything else.",
  ["fault_sequences", "inputs"],
  "For all documents produced from supported objects and all damage sequences applied to them in transit.",
  "Tests feed a few malformed documents per type; the attribute tests are not part of the build here.",
  SER + ["include/kl/serialization_attributes.hpp", "include/kl/serialization_error.hpp", "include/kl/ctti.hpp", "include/kl/enum_reflector.hpp"], [("type checks, attribute handling and error wrapping", "include/kl/detail/serialization.hpp, include/kl/json.hpp, src/json.cpp")],
  ["exception type and message, resulting value or document"])
p("J04", "Records survive rolling upgrades, crashes and unreliable delivery unchanged",
  "Nodes running different versions of a record type (members renamed with aliases, members only the newer version knows, flattened groups, defaults, extra fields) may exchange and store it as JSON in any order, with messages lost, duplicated, reordered or damaged, nodes crashing in the middle of a write and coming back in either version: every record a node accepts is exactly one that a client wrote, members unknown to an old node pass through it unchanged, intact documents are always accepted, and a torn or damaged text that is no document never is.",
  ["histories", "fault_sequences", "schedules"],
  "For all sequences of client changes, replications, crashes and version changes on any number of nodes.",
  "Tests serialize and deserialize one object once, with one version of its type.",
  SER + ["include/kl/serialization_attributes.hpp"], [("rename, aliases, default_value, flatten, extra_fields in both directions and in patch", "include/kl/detail/serialization.hpp add_reflected_fields, deserialize_adl, patch_adl, resolve_field_name")],
  ["record contents as a new-version reader sees them"])
# ---------------------------------------------------------------- exception info / defer
p("E01", "Copies of exception information are independent",
  "Setting or unsetting a piece of information on one copy of an exception's information never changes what any other copy reports, in the same or another thread, and copies made and used by different threads never race. Each copy reports for every tag the most recently set and not yet unset value of its own history.",
  ["histories", "schedules"],
  "For all histories of set, unset, copy, assign, throw, catch and rethrow over several copies, on any interleaving of threads each owning its copies.",
  "Tests set and unset tags on a single object and copy it once.",
  ["include/kl/exception_info.hpp"], [("shared immutable list with per-copy head", "include/kl/exception_info.hpp exception_info::set/unset/get")],
  ["get<Tag>, diagnostic_info"])
p("E02", "Attaching information is all-or-nothing and never corrupts a throw",
  "If memory runs out while information is set, copied into or thrown with an exception, the information object is exactly as before and only the out-of-memory error (or the original exception) is seen; nothing leaks and every value is destroyed exactly once.",
  ["fault_sequences", "histories"],
  "For all histories of set/unset/copy/throw with every allocation in them failing in turn or in combination.",
  "Allocation failure is never injected by the tests.",
  ["include/kl/exception_info.hpp"], [("allocate node, then link", "include/kl/exception_info.hpp exception_info::set, throw_with_info")],
  ["get<Tag>, exception types, outstanding allocations"])
p("D01", "Deferred actions run exactly once, at scope exit, in reverse order",
  "Every deferred action registered in a scope runs exactly once when the scope is left by falling through, return, break or an exception from any point, after everything later in the scope and in reverse order of registration; an action that was not reached does not run. It sees the values its variables have at that moment.",
  ["fault_sequences", "histories"],
  "For all nestings of scopes and all points at which an exception or early exit leaves them, on any thread.",
  "A single test leaves one scope normally.",
  ["include/kl/defer.hpp"], [("scope guard object", "include/kl/defer.hpp KL_DEFER")],
  ["order and number of executed actions"])
# ---------------------------------------------------------------- text on a connection
YSER = ["include/kl/yaml.hpp", "src/yaml.cpp", "include/kl/serialization.hpp", "include/kl/detail/serialization.hpp"]
p("Y01", "YAML documents state what objects hold and reading never changes them",
  "With the YAML backend, dumping or serializing an object yields a well-formed document stating exactly its content under the declared attributes. Parsing, deserializing and patching from any document, including truncated, torn, duplicated, reordered or corrupted ones, either succeeds with exactly the value the document states for that type and its attributes or throws the documented parse or deserialization error whose message names the offending field; it never crashes, hangs, leaks or throws anything else, and it never changes the document read or any document read before.",
  ["fault_sequences", "inputs", "histories"],
  "For all documents produced from supported objects, all damage sequences applied to them in transit, and all sequences of reads into one object.",
  "The YAML tests are not part of the build here, and read a few intact documents once into fresh objects.",
  YSER + ["include/kl/serialization_attributes.hpp", "include/kl/serialization_error.hpp"], [("type checks, error wrapping, views", "include/kl/yaml.hpp, src/yaml.cpp")],
  ["exception type and message, resulting value or document, documents read earlier"])
p("Y02", "Memory exhaustion during YAML (de)serialization is an ordinary, leak-free error",
  "If an allocation fails (or user-supplied serialization code throws) at any point of serializing, dumping, parsing, deserializing or patching with the YAML backend, the only outcome is the out-of-memory exception, the documented parse or deserialization error, or the user's exception: nothing leaks, the object being read into stays valid and usable, no document changes, and repeating the operation with memory available gives the normal result.",
  ["fault_sequences", "crash_points"],
  "For all failing allocation positions in every operation on every supported type.",
  "No test makes an allocation fail.",
  YSER, [("allocation sites of the tree and stream backends", "include/kl/yaml.hpp")],
  ["exception type, leaks, result of the repetition"])
p("Y03", "Concurrent YAML serialization of shared objects is race-free and deterministic",
  "Any number of threads may at once dump or serialize the same unmodified objects with the YAML backend and parse the same text, and deserialize or patch from documents of their own into objects of their own, including the very first uses in the process and first uses that fail, without data race or deadlock, and each obtains exactly the result a single thread would (objects holding views of YAML nodes are not shared).",
  ["schedules", "fault_sequences"],
  "For all interleavings of any number of threads.",
  "Tests are single-threaded.",
  YSER, [("function statics and lazily built tables", "include/kl/yaml.hpp get_null_value, include/kl/detail/serialization.hpp")],
  ["races, results"])
p("T01", "Base64 payloads survive unreliable delivery or are refused",
  "Bytes encoded with the standard or the URL alphabet are the RFC 4648 text of those bytes (padded, respectively unpadded), and decode to the same bytes at every receiver. A text that was truncated, torn, duplicated, reordered or corrupted on its way (or sent to a receiver using the other alphabet) is refused when it is not an encoding, and otherwise decodes to exactly the bytes its characters state; decoding never reads or writes outside its text and result, and running out of memory is an ordinary leak-free error.",
  ["fault_sequences", "inputs", "histories"],
  "For all byte strings sent as any number of fragments, all loss, duplication, reordering and damage of their texts, and every failing allocation.",
  "Tests decode a few hand-written texts; damaged transmissions and failing memory are never exercised.",
  ["include/kl/base64.hpp", "src/base64.cpp"], [("length and padding checks, per-quad error bit", "src/base64.cpp base64_decode_impl, base64_encode_impl")],
  ["base64_encode, base64_decode, base64url_encode, base64url_decode"])
p("T02", "Request paths are decoded exactly, stay inside the root, and survive failures",
  "Any path text yields exactly its non-empty segments, percent-decoded, with literal \".\" and \"..\" segments resolved and never leading above the root; a text with a malformed escape or an encoded slash is refused with the path error. A path object that refused a text or ran out of memory can be set again and then is exactly the new path; copies and moved-to paths keep their segments whatever happens to the original; joined text, prefixes and views always agree with the segments.",
  ["histories", "fault_sequences", "inputs"],
  "For all sequences of set, clear, copy, assign and move of several path objects with path texts of any depth, damaged in transit, and every failing allocation.",
  "Tests set a handful of short paths, each on a fresh object.",
  ["include/kl/path.hpp", "src/path.cpp"], [("in-place decoding with segment offsets", "src/path.cpp path::set, push_decoded_segment, pop_segment; include/kl/path.hpp path_view")],
  ["size, operator[], view, prefix, joined, path_parse_error"])
p("T03", "Text, enum and reflection helpers can be used from any thread at any time",
  "Base64, paths, split, stream joining, hashing, enum names and values, and struct reflection may be used by any number of threads at once, on shared unmodified inputs or on their own, including their very first use in the process and uses that run out of memory: there is no data race and every call gives exactly the result it gives alone.",
  ["schedules", "fault_sequences"],
  "For all interleavings of first and later calls from several threads, with allocations failing in any of them.",
  "No test calls these from more than one thread.",
  ["src/base64.cpp", "src/path.cpp", "include/kl/split.hpp", "include/kl/stream_join.hpp", "include/kl/hash.hpp", "include/kl/enum_reflector.hpp", "include/kl/enum_range.hpp", "include/kl/ctti.hpp"], [("no mutable shared state", "include/kl/*.hpp, src/base64.cpp, src/path.cpp")],
  ["results of the calls"])
# ---------------------------------------------------------------- not applicable to this technique
p("N02", "Streaming and tree serialization agree and round-trip",
  "For every supported object, dumping it to text directly and serializing it to a document and printing that give equal documents, and deserializing either gives the object back, for the JSON and the YAML backend.",
  ["inputs", "programs"], "For all supported types and values.", "Tests cover hand-written types and values.",
  ["include/kl/json.hpp", "include/kl/yaml.hpp"], [("parallel dump/serialize implementations", "include/kl/detail/serialization.hpp")])
p("N04", "Reflection of structs and enums is complete and order-preserving",
  "Reflecting a registered type visits every registered member exactly once in declaration order, and names and enumerators map to each other one-to-one.",
  ["programs", "inputs"], "For all registered types.", "Tests reflect a few types.",
  ["include/kl/ctti.hpp", "include/kl/enum_reflector.hpp", "include/kl/reflect_struct.hpp", "include/kl/reflect_enum.hpp"], [("macro-generated reflection", "include/kl/ctti.hpp")])
p("N05", "Enum sets, ranges, zips, splits, tuples and hashes obey their algebra",
  "Enum sets form a boolean algebra over their enumerators, enum ranges visit each enumerator once, zip pairs equal positions up to the shortest range, split followed by join restores the text, tuple operations visit every element in order and equal values hash equally.",
  ["inputs"], "For all values of the value types.", "Tests cover hand-picked values.",
  ["include/kl/enum_set.hpp", "include/kl/enum_range.hpp", "include/kl/zip.hpp", "include/kl/split.hpp", "include/kl/stream_join.hpp", "include/kl/tuple.hpp", "include/kl/hash.hpp"],
  [("value-type templates", "include/kl/*.hpp")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    print(len(P))
