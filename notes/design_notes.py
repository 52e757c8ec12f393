METHOD = {
"C01": "all operation sequences on the real `String<N>` against a `std::string` cut to N after each step; guard bytes around the object, asan.",
"C02": "all operation sequences on three `cstring`s against optional strings, each allocation also failing; leaks counted.",
"C03": "all operation sequences on `Array<T,N>` against a vector; all comparisons on all pairs.",
"C04": "all pairs of types and boundary values against 128-bit arithmetic.",
"C05": "the product of values, argument types and target kinds against exact arithmetic (128-bit integers, exact floats); refused conversions must leave the old value.",
"C06": "all operation sequences on three objects against a value model; equality and its laws on all pairs.",
"C07": "all one-edit texts and pairs of edits of valid identifiers against an independent parser; ordering laws on all triples.",
"C08": "the product of boundary counts, units and texts against 64/128-bit arithmetic and an independent calendar.",
"C09": "every enumerator value and AnySimple value printed and compared with the documented names.",
"C10": "all names up to a length against the grammar; all paths up to a number of segments in a tree with every kind of object against an independent resolver.",
"C11": "all add/remove/clear sequences on each kind of collection against a vector model.",
"C12": "all sequences on real containers in a component tree against a model of content, bounds and ownership; every component must be destroyed exactly once.",
"C13": "as C12 for references, with deletion of referenced components.",
"C14": "all lifecycle call sequences, with every hook also throwing, against the state machine; link removal over all sets of links.",
"C15": "all sequences of subscriptions and emissions, also from inside sinks, against a set model.",
"C16": "all sequences of failure operations with store/restore against a set of booleans.",
"C17": "all value writes by every route against an independent view of the memory (guard bytes); all routes must agree.",
"C18": "all sequences of writes and force operations against a two-cell model.",
"C19": "all connection graphs of a bounded size and writes through every route; after each step every connected target equals its source.",
"C20": "all write/store/restore sequences into an in-memory storage and real files; every truncation byte.",
"C21": "all publication sequences against a model of what is published; every exposed field is written and read through its interface and in its memory.",
"C22": "all registration sequences against a model of the registry; after each step everything ever registered is compared.",
"C23": "the product of types and values, all call sequences on two live requests, all invocations, against a model of the parameters.",
"C24": "every value restored over every other value and from every truncation, and pairs in one stream.",
"C25": "all sequences of simulator calls, with further calls from inside every event, hook and entry point; the run is recorded as a tree and compared with a model of the documented state machine.",
"C26": "as C25, for which entry points run, when and in which order.",
"C27": "all sequences of registrations and creations, additions to and deletions from the top-level containers against a model.",
"C28": "component trees × phase calls × components added from inside every hook; each hook's count, order and arguments against a model.",
"C29": "all sequences of changes, stores and restores, and every single failure (component, file byte, full device) against a model of the stored values.",
"C30": "all sequences of time operations against the two offset equations; concurrently, all interleavings up to a preemption bound must be linearizable (checked by searching all orders).",
"C31": "all schedules, with operations made inside events, against an independent model of the due instants; every execution is checked for order, time and number.",
"C32": "as C31 with every mutation of every event at every moment.",
"C33": "all interleavings (bounded preemptions) of the running thread and callers; termination, data races and the fate of every posted event are judged.",
"C34": "as C33 for the timer thread, with virtual time.",
"C35": "all histories, also from inside entry points, against a map of subscriptions.",
"C36": "all interleavings of all short programs; results must equal those of some sequential order.",
"C37": "all histories against a counter per pair, with re-entrant sources; concurrently as C36.",
"C38": "all patterns and configurations of a grammar against an independent renderer of the expected lines; all interleavings of loggers, reconfiguration and shutdown.",
"C39": "all interleavings of all short lock programs; mutual exclusion and refusals judged against the state of the holders.",
"C40": "all sequences of library operations against a model of what is loaded, with real shared objects; packages compiled from the repository's sources.",
"C43": "50 ways to raise × all argument tuples; the exception is kept in an exception_ptr, read twice after the arguments are destroyed (under ASan) and compared with the arguments; then the same for refusals provoked through real components.",
"C41": "all schedules × disturbances × restore; what is executed afterwards is compared with a run in which nothing happened in between.",
}
OPEN = """
* C17–C19: cyclic connections, and undeclared literals pushed from typed outputs into published enumerations, are
  excluded. A published output only promises its targets what is written through it. `operator T&()` of a connectable
  simple array bypasses the push. `Connect(nullptr)` is outside the contract.
* C20: fields that are no state are left untouched; padding bytes are checked not to be written.
* C21: with several reasons to refuse, any of their exceptions is accepted; fields published as objects may be listed
  after the others; the parent of array items may be the array or its parent; publishing an operation again forgets its
  parameters (so that they can be published anew); null names and null fields are outside the contract.
* C22: negative sizes, counts and lengths, null names, fields or literals of the same name are left open.
* C23: setter requests accept any parameter name by design; NaN against a bounded type is left open; operations with a
  composed parameter have no request, their parameters are tested on `Publication::Request` directly; the name of the
  operation in exceptions raised by property requests is left open.
* C24: containers are no object references by design; a storage reader that reads short without raising is excluded;
  an unresolvable reference restores null; without resolver restore raises CannotRestore.
* C25: `Hold(false)` made inside SMP_PreSimTimeChange may only take effect at the next one; phase methods are not called
  from a component's own hooks; what a Restore that raises leaves in the event manager is covered by C29; events emitted
  directly through the event manager do not count as simulator events.
* C26: entry points do not throw. C27: what becomes of a factory refused with DuplicateUuid is only judged by leaks;
  factories of the same name: any of them may be returned by name. C28: hooks neither throw nor delete.
* C29: after a Restore that failed part-way the values are unspecified until a successful Restore.
* C30: time differences that are not representable are excluded; SetSimulationTime by subscribers during a change of time
  may be honoured or ignored.
* C31/C32: order at equal time is posting order (lenient for events that were moved); immediate events first; moving
  an event during its own execution re-arms it; removing it ends it; overflowing sums are excluded; events posted by the
  last PreSimTimeChange of a run may wait for the next run; past epoch and mission occurrences are skipped.
* C33: `Hold(true)` lets at most the event already dispatched and one pending change of time complete; a second
  concurrent Hold may be refused; Run is refused while SMP_EnterStandby and SMP_LeaveStandby are emitted.
* C34: Exit is not called while other threads use the components. Zulu events execute in Standby and Executing only.
* C35: names queried after a Store are unspecified after Restore. C37: null source/target are outside the contract.
* C38: what an invalid directive or layout prints is unspecified (it must not crash or lose the message); two outputs
  into one file are unspecified.
* C40: initialising a package again in a simulator that still lives after Finalise is excluded.
* Exceptions raised by `Xsmp::Request::extract/inject` have a temporary field as sender (observed, not judged).
* C43: the sender of the InvalidFieldType raised by the constructor of a typed field with an unregistered type is that
  field; what Xsmp::Request raises for a missing parameter carries the name of the parameter as its name.
"""
FALSE = """
All of these were corrected in the property or the harness before the check was registered; none is listed as known.

* C31/C32: the first models forbade Hold(false) before the first change of time, immediate events posted by the last
  PreSimTimeChange and skipped epoch occurrences; the leak check was dropped (cached entries).
* C33/C34: removal of an event between the end of its callback and its re-scheduling, EnterStandby overlapping the next
  Run, judging before events in flight had ended, and Exit concurrent with component use were wrongly reported. C33 also
  found a real defect in an earlier repair of mine (421dad5).
* C41: a restore at the same instant as an event was judged too strictly.
* C22: the statement promised look-up by name path and checking of bounds, which the interface does not offer.
* C21: the statement promised one common order of publication for fields and field objects.
* C23: `values` first demanded a refusal of NaN; `calls` once diverged because pruning hid a choice.
"""
CAUGHT = {
"C01-swap": "C01", "C02-empty-sentinel": "C02", "C03-less": "C03", "C04-char": "C04", "C39-relock": "C39", "C40-lazy": "C40",
"C10-index": "C10", "C23-inout": "C23", "C24-set": "C24", "C26-standby": "C26", "C28-exit": "C28", "C31-endless": "C31", "C32-now": "C32", "C33-wakeup": "C33", "C35-alias": "C35", "C36-query": "C36", "C37-first": "C37", "C38-stop": "C38", "C41-time": "C41", "C43-duplicate": "C43",
"C05-duration": "C05", "C07-order": "C07", "C11-remove": "C11", "C12-upper": "C12", "C13-twice": "C13", "C14-neighbour": "C14", "C15-sender": "C15", "C16-restore": "C16", "C19-name": "C19", "C20-forced": "C20", "C21-return": "C21", "C22-refused": "C22", "C25-reconnect": "C25", "C27-refused": "C27", "C29-both": "C29", "C30-epoch": "C30", "C34-moved": "C34", "C06-prefix": "C06", "C08-coarse": "C08", "C09-del": "C09", "C17-sign": "C17", "C18-twice": "C18",
}
