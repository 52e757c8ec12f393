#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

# ---------------------------------------------------------------- value types
prop("C01", "Bounded String equals a std::string cut at its capacity",
 "After any sequence of constructions, assignments, appends, clears, trims and swaps, a String<N> holds exactly what a std::string put through the same operations and cut to N characters after each one would hold (content also ends at the first embedded terminator): never longer than N, always NUL-terminated, size/empty/data/c_str in agreement. at() and the bounded accessors throw std::out_of_range exactly for positions outside the string, and iteration, comparison, concatenation, conversion and streaming agree with std::string / std::string_view on that content. No operation reads or writes outside the object or its arguments, self-aliasing arguments included.",
 ["histories","inputs"], "all operation sequences up to a depth over small capacities and an argument alphabet straddling the capacity (empty, embedded terminators, exactly full, overlong, self-aliasing)",
 "String tests call each member once on a couple of capacities; the capacity/length/aliasing cross product over operation sequences is never covered.",
 ["include/Xsmp/String.h"], [("bounded copy and append with truncation","include/Xsmp/String.h"),("at() bounds check","include/Xsmp/String.h"),("terminator maintenance","include/Xsmp/String.h")], observe=["String members, operators and free functions"])
prop("C02", "cstring is an owning value type with independent copies",
 "A cstring always reports the last text given to it (null only once moved from), a copy is equal to and independent of its source, and a move transfers the text and leaves the source destructible, assignable and copyable. This holds for every sequence of construction, copy, move, assignment from a C string and swap-like chains, self-assignment and assignment from its own buffer included, without leak, double release or access to released memory.",
 ["histories"], "all sequences up to a depth of copy/move/assign operations over two or three cstrings and a text alphabet including null, empty and the object's own buffer",
 "The single cstring test walks one sequence and cannot observe aliasing, moved-from reuse or leaks.",
 ["include/Xsmp/cstring.h","src/Xsmp/cstring.cpp"], [("deep copy in constructors and assignments","src/Xsmp/cstring.cpp"),("release of the previous buffer","src/Xsmp/cstring.cpp")], observe=["cstring conversions and operators"])
prop("C03", "Array is a faithful fixed-size sequence",
 "For every sequence of accesses, fills, swaps, copies and comparisons an Array<T,N> agrees with a plain N-element sequence: element i read through any accessor or iterator (forward, reverse, const) is the last value stored at i. at() throws std::out_of_range exactly when the index is not below N, comparisons are lexicographic, nested arrays compare and copy element-wise, and size/max_size/empty report N, N and N==0.",
 ["histories","inputs"], "all operation sequences up to a depth on Arrays of sizes 0..3, nested arrays included, every index around the bounds, all pairs of small contents for comparisons",
 "There is no Array unit test that compiles without the SMP headers; field tests only touch a few elements.",
 ["include/Xsmp/Array.h"], [("element storage and bounds check","include/Xsmp/Array.h"),("comparison operators","include/Xsmp/Array.h")], observe=["Array members and operators"])
prop("C04", "Integer comparison helpers are mathematically exact",
 "cmp_equal, cmp_less and their derived forms order two integers of any signed/unsigned types and widths as their mathematical values, and in_range<R>(v) is true exactly when v is representable in R. This holds at and around every type limit.",
 ["inputs"], "all ordered pairs of the standard integer types crossed with all values at, next to and between every type limit (8-bit types: every pair of values)",
 "Only used indirectly by conversions; no test crosses signedness or limits.",
 ["include/Smp/utility.h"], [("sign-aware comparison","include/Smp/utility.h")], observe=["return values"])
prop("C05", "AnySimple conversion never silently changes a value",
 "Setting or reading an AnySimple as another primitive kind (directly or through the conversion operators, for all supported kinds) yields the mathematically same value whenever the target kind can represent it and raises the documented type-conversion exception otherwise; it never returns a wrapped, truncated or otherwise different value. Exempt by design: conversion to Bool is a truth test; Float64 to Float32 tolerates a rounding of at most DBL_EPSILON; characters and strings only convert to themselves and Bool. A set that throws leaves the object still usable with its previous type and value.",
 ["inputs"], "all ordered pairs of primitive kinds crossed with boundary value sets (every limit of every kind and its neighbours, zero, infinities, NaN, texts, null text)",
 "Tests convert a handful of mid-range values between a few kinds; limits and cross-kind pairs are not enumerated.",
 ["src/Smp/AnySimple.cpp","include/Smp/AnySimple.h","include/Xsmp/AnySimpleConverter.h"], [("per-kind conversion","src/Smp/AnySimple.cpp"),("range checks","include/Smp/utility.h")], observe=["AnySimple operators and SetValue"])
prop("C06", "AnySimple has value semantics and a sound equality",
 "Over any sequence of sets, copies, moves and self-assignments every AnySimple holds the last value and type given to it, copies are independent (string payloads are owned, never shared or leaked), and a moved-from object stays usable. Equality is reflexive (except NaN), true for a copy, symmetric between values of one kind or of two integer kinds (compared mathematically), an empty value equals only an empty one, and != is always its negation.",
 ["histories","inputs"], "all operation sequences up to a depth over two or three AnySimples and an alphabet of typed values, and all pairs of boundary values for equality",
 "Tests assign once and compare once; no aliasing, move chains or symmetric pairs.",
 ["src/Smp/AnySimple.cpp"], [("deep copy of string payload","src/Smp/AnySimple.cpp"),("equality dispatch","src/Smp/AnySimple.cpp")], observe=["AnySimple operators"])
prop("C07", "Uuid parsing, printing, ordering and hashing agree",
 "A Uuid built from a well-formed textual form prints back to the same text (lower case), every malformed text is rejected the documented way and never read past its end, and ==, < and hashing are consistent: equality holds exactly for identical 128-bit values and < is a strict total order. Numeric and textual construction of the same identifier give equal objects.",
 ["inputs"], "all single-edit variations (case, length, separator and digit position) of valid texts, and all pairs from an identifier set differing in every field",
 "A unit test covers one valid and a few invalid texts.",
 ["src/Smp/Uuid.cpp","include/Smp/Uuid.h"], [("parser and printer","src/Smp/Uuid.cpp")], observe=["Uuid constructors, operators and stream output"])
prop("C08", "Duration and DateTime text and arithmetic round-trip",
 "Duration and DateTime arithmetic, comparison and conversion to/from chrono types agree with 64-bit nanosecond counts, and printing a representable DateTime, or a non-negative Duration below 100 hours, then parsing the text yields the same value. The unit factories and literals denote exactly their number of nanoseconds, and unparsable text is refused rather than read as another value.",
 ["inputs"], "all values from a grid of unit boundaries (0, +-1ns, +-1 of each unit and their neighbours, leap days, year limits) and all pairs for arithmetic and comparison",
 "Tests use a few positive literals.",
 ["include/Xsmp/Duration.h","include/Xsmp/DateTime.h","src/Xsmp/Duration.cpp","src/Xsmp/DateTime.cpp"], [("printing and parsing","src/Xsmp/Duration.cpp"),("printing and parsing","src/Xsmp/DateTime.cpp")], observe=["members, stream output, string construction"])
prop("C09", "Printed form of primitive values is unambiguous and total",
 "Streaming any primitive kind, access kind, view kind, state or AnySimple value produces its documented textual name or value for every possible value, including unknown enumerator values and null strings, and leaves the stream usable. Distinct enumerators print distinct texts and printing (from the default formatting state) never changes the stream's formatting state for later output.",
 ["inputs"], "every enumerator and out-of-range value of every streamed enumeration, every printable kind crossed with boundary values",
 "Tests print a few values.",
 ["src/Smp/StreamOperators.cpp"], [("enumerator tables","src/Smp/StreamOperators.cpp")], observe=["std::ostream contents and state"])

# ---------------------------------------------------------------- object tree
prop("C10", "Object names are validated and paths resolve back to their object",
 "An object can only be created with a legal SMP name and every illegal name is refused with InvalidObjectName. For every object of a tree its absolute path resolves (absolutely from the simulator, relatively from any component, with '.' and '..' segments) to that very object; a path never resolves to anything but the object its segments denote, and unresolvable paths yield null.",
 ["inputs","programs"], "all names up to a length over an alphabet of legal and illegal characters, and all paths of up to several segments over the names of small trees, from every starting component",
 "Tests resolve about ten hand-written paths in one tree.",
 ["src/Xsmp/Helper.cpp","src/Xsmp/Services/XsmpResolver.cpp","src/Xsmp/Object.cpp","include/Xsmp/Helper.h"], [("name checker","src/Xsmp/Helper.cpp"),("path builder and resolver","src/Xsmp/Helper.cpp")], observe=["IResolver, Helper::GetPath, object constructors"])
prop("C11", "Collections keep insertion order and unique names",
 "Over any sequence of add, remove and clear operations a Collection enumerates exactly the objects currently in it in insertion order; lookup by index and by name agree with that enumeration and give null for absent ones. Adding an object with a name already present raises DuplicateName and changes nothing, and an owning collection destroys each of its objects exactly once.",
 ["histories"], "all operation sequences up to a depth over a few objects, two of them sharing a name, for each collection flavour",
 "Tests add one or two elements and never interleave removals with lookups.",
 ["include/Xsmp/Collection.h"], [("vector plus name index","include/Xsmp/Collection.h"),("duplicate check","include/Xsmp/Collection.h")], observe=["Smp::ICollection interface"])
prop("C12", "Containers enforce their bounds, types and ownership",
 "A container's content always satisfies count <= upper bound, holds only components of its declared type with unique names, and destroys each contained component exactly once. Additions beyond the upper bound raise ContainerFull, of a wrong type InvalidObjectType, duplicates DuplicateName, and deletions below the lower bound or of absent components the documented exceptions; a refused operation leaves the container unchanged.",
 ["histories"], "all operation sequences up to a depth, for every bound configuration in a small grid",
 "Tests fix one configuration and a couple of operations.",
 ["include/Xsmp/Container.h","src/Xsmp/Container.cpp"], [("bound and type checks","include/Xsmp/Container.h"),("ownership","src/Xsmp/Container.cpp")], observe=["Smp::IContainer interface"])
prop("C13", "References enforce their bounds and forget deleted components",
 "A reference's content always satisfies count <= upper bound with every referenced component of the declared type; AddComponent beyond the bound raises ReferenceFull, a wrong type InvalidObjectType, RemoveComponent below the lower bound or of an absent component the documented exceptions, and a refused operation changes nothing. Lookup by name and enumeration agree with the content.",
 ["histories"], "all operation sequences up to a depth, for every bound configuration in a small grid",
 "Tests fix one configuration and a couple of operations.",
 ["include/Xsmp/Reference.h","src/Xsmp/Reference.cpp"], [("bound and type checks","include/Xsmp/Reference.h")], observe=["Smp::IReference interface"])
prop("C14", "Component lifecycle only follows legal state transitions",
 "A component moves only Created -> Publishing -> Configured -> Connected -> Disconnected: a lifecycle call (Publish, Configure, Connect, Disconnect) made in a state that does not allow it raises InvalidComponentState, changes no state and runs no user hook, and each accepted call runs the matching user hook exactly once with the given arguments; an exception of the hook reaches the caller. RemoveLinks(target) drops every event subscription, reference and dataflow connection of the component (those of its fields included) to the target and no other, so that after RemoveLinks and deletion of the target nothing refers to it.",
 ["histories"], "all sequences of lifecycle calls up to a depth, on models and services with each supported hook signature, user hooks that throw included",
 "Tests follow the happy path through the simulator.",
 ["src/Xsmp/Component.cpp","include/Xsmp/Component.h","include/Xsmp/ComponentHelper.h"], [("state checks","src/Xsmp/Component.cpp"),("hook dispatch","include/Xsmp/ComponentHelper.h")], observe=["IComponent::GetState, hook calls"])
prop("C15", "Event sources notify exactly the subscribed sinks",
 "An emission notifies every sink that is subscribed exactly once with the emitted argument and the emitter's sender, and no other sink; (un)subscribing twice, or with an incompatible type, raises the documented exception and changes nothing. Sinks may subscribe or unsubscribe themselves or each other during a notification: a sink unsubscribed before its turn is not notified, nobody is notified twice, and (un)subscriptions made this way hold for the next emission.",
 ["histories"], "all sequences up to a depth of subscribe/unsubscribe/emit/destroy over two sources and three sinks of the event argument kinds, with each sink action during notification",
 "Tests subscribe one or two sinks and emit once.",
 ["src/Xsmp/EventSource.cpp","include/Xsmp/EventSource.h","src/Xsmp/EventSink.cpp","include/Xsmp/EventSink.h"], [("sink set","src/Xsmp/EventSource.cpp"),("destructor notification","src/Xsmp/EventSink.cpp")], observe=["EventSink callbacks"])
prop("C16", "A fallible model is failed exactly when one of its failures is",
 "IsFailed is true exactly when at least one published failure is failed, and Fail/Unfail change only their own failure, idempotently. Failure state survives a Store/Restore round trip unchanged.",
 ["histories"], "all Fail/Unfail/Store/Restore sequences up to a depth over up to three failures",
 "Tests toggle one failure.",
 ["include/Xsmp/FallibleModel.h","src/Xsmp/FallibleModel.cpp","src/Xsmp/Field.cpp"], [("failure collection","include/Xsmp/FallibleModel.h"),("failure field","src/Xsmp/Field.cpp")], observe=["IFallibleModel, IFailure"])

# ---------------------------------------------------------------- fields and publication
prop("C17", "Fields hold exactly the last accepted value",
 "Reading a simple, array, structure or simple-array field, typed or through the generic interface, by index or by name, returns exactly the last value accepted by a write. Values of the field's own kind are accepted unless they are an undeclared literal of a published enumeration; a string longer than the capacity is truncated to it; a value of another kind is either stored with the same mathematical value (Bool: its truth value) or refused. A refused write (incompatible value, undeclared enumeration literal, wrong size, out-of-range index) raises the documented exception and changes no element. Typed C++ access, program memory and the generic interface always observe the same values, and no write touches memory outside the field.",
 ["histories","inputs"], "all write/read sequences up to a depth over fields of every primitive kind, array, structure and nested shape, with valid and each kind of invalid argument",
 "Tests write a few valid values per field.",
 ["include/Xsmp/Field.h","src/Xsmp/Field.cpp","src/Xsmp/Publication/Field.cpp"], [("type and size checks","src/Xsmp/Field.cpp"),("raw access","src/Xsmp/Publication/Field.cpp")], observe=["ISimpleField, IArrayField, ISimpleArrayField, IStructureField"])
prop("C18", "A forced field keeps its forced value until unforced",
 "While a forcible field is forced every read yields the forced value, whatever is written to it by assignment or through its interface; Force replaces the forced value, Freeze holds the current one, and Unforce keeps the value and lets later writes take effect again. IsForced reports exactly this state, and a refused Force (bad type or value) changes neither the value nor the forced status. Array items and structure members behave the same.",
 ["histories"], "all sequences up to a depth of set, typed assignment, Force, Freeze, Unforce with accepted and refused values, on forcible fields of several kinds",
 "Tests run one linear Force/Unforce scenario.",
 ["src/Xsmp/Field.cpp","include/Xsmp/Field.h","src/Xsmp/Publication/Field.cpp"], [("forced flag guarding writes","src/Xsmp/Field.cpp"),("guarded typed assignment","include/Xsmp/Field.h")], observe=["IForcibleField"])
prop("C19", "Dataflow connections propagate every output change to all targets",
 "Connect accepts exactly an output and an input of the same kind, size and structure that are not yet connected and raises InvalidTarget or FieldAlreadyConnected without effect otherwise; after Connect and after Push every connected input equals its source, and every write to a typed output (assignment, operators, SetValue, SetValues, fill) updates all inputs connected to it or to the structure or array it belongs to, through input-output fields as well. A disconnected input is no longer written, a forced input keeps its value, and no other field changes. When an input refuses a value the writer gets its exception, the output keeps the new value and the input its previous one.",
 ["histories"], "all sequences up to a depth of connect, disconnect, set, push and delete over a few outputs and inputs of simple, array and structure shapes",
 "Tests connect one output to one input.",
 ["src/Xsmp/Field.cpp","src/Xsmp/Publication/Field.cpp","include/Xsmp/Field.h"], [("target set and push","src/Xsmp/Field.cpp"),("disconnection on destruction","src/Xsmp/Field.cpp")], observe=["IDataflowField, field values"])
prop("C20", "Stored field state restores exactly",
 "Storing any published or typed field, array or structure and restoring it (into the same or a freshly built identical object, after arbitrary modifications) gives back exactly the stored values of every state field, its forced and its failed status, touches no field that is not state and no other memory, and consumes exactly the bytes that were written; Store changes nothing. A storage that is truncated, missing or full is reported by an exception and never leads to undefined behaviour, and the storage file classes give back exactly the blocks written.",
 ["inputs","fault_sequences"], "every field shape crossed with value sets, every truncation point of the stored stream",
 "Tests round-trip one model through a file.",
 ["src/Xsmp/Field.cpp","include/Xsmp/Field.h","src/Xsmp/Publication/Field.cpp","src/Xsmp/StorageReader.cpp","src/Xsmp/StorageWriter.cpp"], [("Store/Restore of fields","src/Xsmp/Field.cpp"),("stream reader and writer","src/Xsmp/StorageReader.cpp")], observe=["IPersist, field values"])
prop("C21", "Publication exposes exactly what was published",
 "After any sequence of publications a component exposes exactly the published fields, properties and operations, each kind (fields published as objects apart) in publication order, with their declared name, type, view kind, state/input/output flags and parent, and the exposed fields alias the published memory. Publishing a field under a used name, an unknown type or an unsupported element raises the documented exception and adds nothing; republishing an existing operation or property by name follows the documented merge.",
 ["histories"], "all publish sequences up to a depth over a set of element kinds with colliding names and known/unknown types",
 "Tests publish one fixed model.",
 ["src/Xsmp/Publication/Publication.cpp","src/Xsmp/Publication/Field.cpp","src/Xsmp/Publication/Operation.cpp","src/Xsmp/Publication/Property.cpp"], [("per-kind collections","src/Xsmp/Publication/Publication.cpp")], observe=["IPublication, IComponent::GetFields"])
prop("C22", "Type registry keeps each type unique and complete",
 "Over any sequence of registrations every registered type is found again by its UUID (primitive types also by their kind) with exactly its declared properties (name, description, kind, bounds, item type and count, literals, fields), and the predefined primitive types are always present. A registration that reuses a UUID, or uses an invalid name, primitive kind, memory size, item type or base type, raises the documented exception, whose sender still exists, and leaves the registry unchanged.",
 ["histories"], "all registration sequences up to a depth over type kinds with colliding names/UUIDs and valid/invalid parameters",
 "Tests register each kind once.",
 ["src/Xsmp/Publication/TypeRegistry.cpp","src/Xsmp/Publication/Type.cpp"], [("UUID map and checks","src/Xsmp/Publication/TypeRegistry.cpp")], observe=["ITypeRegistry, IType"])
prop("C23", "Requests and operations deliver exact parameters and results",
 "A request created for a published operation or property carries exactly its parameters with their types and default values; parameters set by index or name are those the invoked code receives, the result it returns is the one read back, and out/inout parameters are written back. Unknown names give -1, and indices outside range, values of incompatible type or outside the declared type raise the documented exception, whose sender exists, without changing the request.",
 ["inputs","histories"], "all parameter/value assignments from an alphabet of valid and invalid values for operations of every primitive kind and direction, all short request call sequences",
 "Tests invoke a few operations with valid values.",
 ["src/Xsmp/Request.cpp","include/Xsmp/Request.h","src/Xsmp/Publication/Request.cpp","src/Xsmp/Publication/Operation.cpp","src/Xsmp/Publication/Property.cpp"], [("parameter extraction and validation","include/Xsmp/Request.h"),("request object","src/Xsmp/Publication/Request.cpp")], observe=["IRequest, IDynamicInvocation"])
prop("C24", "Persisted standard containers restore exactly or fail cleanly",
 "For every supported value (arithmetic and enumeration types, strings of any character width, raw and standard arrays, pairs, vectors, maps, sets, unordered containers, atomics, object references and their nestings) Restore after Store yields an equal value and consumes exactly the stored bytes, whatever the target held before; with type checks, restoring another type raises CannotRestore. Restoring from a storage truncated at any byte raises and never gives undefined behaviour, and the value can be used and restored again.",
 ["inputs","fault_sequences"], "all container shapes up to a few elements and two nesting levels crossed with element alphabets, previous contents and every truncation point",
 "Tests round-trip one value per container type into an empty target.",
 ["include/Xsmp/Persist.h","include/Xsmp/Persist/StdVector.h","include/Xsmp/Persist/StdString.h","include/Xsmp/Persist/StdMap.h","include/Xsmp/Persist/StdSet.h","include/Xsmp/Persist/StdUnorderedMap.h","include/Xsmp/Persist/StdUnorderedSet.h"], [("size-prefixed encoding","include/Xsmp/Persist/StdVector.h")], observe=["Persist::Store/Restore"])

# ---------------------------------------------------------------- simulator
prop("C25", "The simulator only follows the SMP state machine and its events",
 "Over any sequence of simulator calls the state changes only along the documented Building/Connecting/Initialising/Standby/Executing/Storing/Restoring/Reconnecting/Exiting/Aborting transitions; a call not allowed in the current state changes nothing and runs nothing. Each transition emits exactly the documented pair of leave/enter global events, in order, once.",
 ["histories"], "all sequences of simulator calls up to a depth, global-event observers on every event, the state dumped at each emission",
 "Tests drive one linear scenario.",
 ["src/Xsmp/Simulator.cpp"], [("state guard in each call","src/Xsmp/Simulator.cpp"),("event emission on entering and leaving","src/Xsmp/Simulator.cpp")], observe=["ISimulator::GetState, EventManager subscriptions"])
prop("C26", "Every registered init entry point runs at each initialisation",
 "Every entry point accepted by AddInitEntryPoint (in Building, Connecting or Standby state, from any event, component hook or other entry point) is executed exactly once, in registration order and in Initialising state, each time the simulator initialises: after connecting and at every Initialise(). AddInitEntryPoint in any other state has no effect, and nothing but an initialisation executes the entry points.",
 ["histories"], "all sequences up to a depth of adds (before, while and after initialisation, from inside an entry point) and initialise/connect calls",
 "No test adds entry points during initialisation.",
 ["src/Xsmp/Simulator.cpp"], [("init entry point container","src/Xsmp/Simulator.cpp")], observe=["entry point execution log"])
prop("C27", "Factories create components of the right type, name and parent",
 "A factory registered under a UUID is found again by it, a second registration of a used UUID raises DuplicateUuid and changes nothing, and CreateInstance yields an instance made by that factory with the requested name, description and parent, or null for an unknown UUID. Services and models land in the container they belong to with unique names.",
 ["histories"], "all sequences up to a depth of registrations, creations and additions with colliding UUIDs and names",
 "Tests register a couple of factories.",
 ["src/Xsmp/FactoryCollection.cpp","include/Xsmp/Factory.h","src/Xsmp/Simulator.cpp"], [("UUID uniqueness check","src/Xsmp/FactoryCollection.cpp")], observe=["ISimulator::RegisterFactory/CreateInstance/GetFactories"])
prop("C28", "The simulator drives every component exactly once per phase",
 "After Publish, Configure, Connect (and Reconnect, Exit, Abort) each component of the tree, nested ones and those added at any legal moment included, has received each phase call exactly once and in phase order, services before or after models as documented, parents and children both. A component added while a phase is running is neither skipped nor driven twice.",
 ["histories","configurations"], "all trees up to a few nodes, all interleavings of phase calls with component additions, additions made from inside hooks included",
 "Tests use one flat or one small tree.",
 ["src/Xsmp/Simulator.cpp"], [("recursive phase walkers","src/Xsmp/Simulator.cpp")], observe=["component hook log, component states"])
prop("C29", "Simulation Store/Restore round-trips and survives failures",
 "After Store to a file and any later changes, Restore from that file gives every persistent component and published state field the stored value, in Standby, with the documented events. If any component or the storage fails part-way the call reports it, the simulator does not stay in Storing/Restoring and remains controllable.",
 ["fault_sequences","histories"], "all component trees up to a few nodes and every single failure point (each component's Store/Restore throwing, each truncation of the file, unwritable directory)",
 "Tests store and restore once with no failure.",
 ["src/Xsmp/Simulator.cpp","src/Xsmp/StorageReader.cpp","src/Xsmp/StorageWriter.cpp"], [("storage walkers","src/Xsmp/Simulator.cpp")], observe=["ISimulator::Store/Restore, state, field values"])

# ---------------------------------------------------------------- services
prop("C30", "The four time kinds always satisfy their defining relations",
 "After any sequence of time operations epoch time minus simulation time equals the offset fixed by the last SetEpochTime, mission time equals epoch time minus the mission start (as set by SetMissionStart or implied by SetMissionTime), and simulation time only moves forward and never past the next scheduled event. Each change emits its global event exactly once, refused changes raise or do nothing as documented, times survive Store/Restore, and a restoration that fails because the storage ends early raises and changes no time. Times read or changed from several threads at once are those of some order of the calls, without data race or deadlock.",
 ["histories"], "all operation sequences up to a depth over boundary durations, including calls from within the time-change events",
 "Tests set each time once.",
 ["src/Xsmp/Services/XsmpTimeKeeper.cpp"], [("offsets","src/Xsmp/Services/XsmpTimeKeeper.cpp")], observe=["ITimeKeeper getters, global events"])
prop("C31", "The scheduler executes every due event once, in order, at its time",
 "Over any schedule of immediate, simulation, mission, epoch and cyclic events, events execute in non-decreasing time order (immediate events first, those posted at equal time in posting order), each exactly once per due occurrence with the clock of its kind reading exactly its due time, also when epoch or mission time is changed meanwhile (occurrences that the change puts in the past are skipped); a cyclic event with repeat n runs n+1 times and with repeat -1 forever, and nothing runs before it is due or after a hold. Run(duration) stops at its end or at a hold made before and leaves nothing behind. Posting in the past or with an invalid cycle or repeat raises the documented exception and schedules nothing.",
 ["histories"], "all sequences up to a depth of Add*Event and run steps over a small grid of times, cycles and repeats; all events executed compared with a reference event queue",
 "Tests schedule a few events at distinct times.",
 ["src/Xsmp/Services/XsmpScheduler.cpp","src/Xsmp/Services/XsmpScheduler.h"], [("ordered event table","src/Xsmp/Services/XsmpScheduler.cpp"),("cycle re-insertion","src/Xsmp/Services/XsmpScheduler.cpp")], observe=["entry point execution log with times"])
prop("C32", "Scheduler mutations take effect exactly on the named event",
 "RemoveEvent, SetEventTime (all time kinds), SetEventCycleTime and SetEventRepeat called at any moment, from inside executing events (on itself, on siblings due at the same instant, on later ones) included, affect exactly the named event from then on: a removed event never runs again, a moved one runs at its new time only, and unknown identifiers raise InvalidEventId. Query functions report the current state of every event.",
 ["histories"], "all sequences up to a depth of add/mutate/run operations, each mutation also placed inside the execution of each event",
 "Tests mutate one pending event from outside.",
 ["src/Xsmp/Services/XsmpScheduler.cpp"], [("event table and time index","src/Xsmp/Services/XsmpScheduler.cpp")], observe=["execution log, IScheduler"])
prop("C33", "Run, Hold and concurrent scheduler calls never hang or lose events",
 "With the simulation running in one thread and hold, add, remove, move or query calls arriving from others, every call returns, and a Hold(true) issued after Run has begun stops the run: once it has returned at most the event already being dispatched is still executed, and Run returns without further delay in Standby (or Aborting) state. No event is lost, duplicated, executed out of order, at another time than its own or later than the interleaving requires; simulation time never runs ahead of the target speed, nor beyond what has been posted; a removed event is not executed. There is no data race or deadlock under any interleaving.",
 ["schedules"], "all thread interleavings of small drivers up to a preemption bound, virtual time",
 "Tests run single-threaded or with sleeps; they see one interleaving.",
 ["src/Xsmp/Services/XsmpScheduler.cpp","src/Xsmp/Simulator.cpp","include/Xsmp/Services/ThreadSafeData.h"], [("event mutex and hold condition","src/Xsmp/Services/XsmpScheduler.cpp")], observe=["execution log, thread termination"])
prop("C34", "Zulu events run once, at or after their time, from the timer thread",
 "Every Zulu-time event is executed by the timer thread exactly once per due occurrence, in order of due time and posting, not before its time and, unless another event is being executed, as soon as it is due (also when posted while the timer sleeps for a later one). Removing, moving and repeating apply as for other events, posting in the past or with an invalid cycle raises and schedules nothing, no event is executed while another one is, and Exit or destruction of the simulator always joins the timer thread, after which nothing is executed. This holds under every interleaving with the simulation thread, without race, deadlock or crash.",
 ["schedules","histories"], "all interleavings up to a preemption bound of small drivers over a virtual clock",
 "Tests post one Zulu event and sleep.",
 ["src/Xsmp/Services/XsmpScheduler.cpp"], [("timer thread and condition","src/Xsmp/Services/XsmpScheduler.cpp")], observe=["entry point execution log with virtual times"])
prop("C35", "Event manager delivers each emission to exactly its subscribers",
 "Over any history of QueryEventId, Subscribe, Unsubscribe, Emit and Restore, an emission executes exactly the entry points then subscribed to that event, once each; the same name always yields the same id, distinct names distinct ids, and predefined events keep their fixed ids. Invalid names, ids, duplicate and missing subscriptions raise the documented exceptions without effect, a restoration that fails because the storage ends early changes nothing, and callbacks may (un)subscribe or emit.",
 ["histories"], "all operation sequences up to a depth over predefined and user events and entry points, callbacks performing each operation",
 "Tests cover each call once.",
 ["src/Xsmp/Services/XsmpEventManager.cpp"], [("name and subscription maps","src/Xsmp/Services/XsmpEventManager.cpp")], observe=["IEventManager, entry point execution log"])
prop("C36", "Event manager is linearizable under concurrent use",
 "Concurrent QueryEventId, Subscribe, Unsubscribe and Emit calls from several threads behave as if executed one after another in some order: an id returned by QueryEventId is usable at once by any thread, a name never gets two ids, and no race or deadlock exists under any interleaving.",
 ["schedules"], "all interleavings up to a preemption bound of two or three threads with one or two calls each, histories checked against the sequential specification",
 "Tests are single-threaded.",
 ["src/Xsmp/Services/XsmpEventManager.cpp","include/Xsmp/Services/ThreadSafeData.h"], [("reader/writer locks","src/Xsmp/Services/XsmpEventManager.cpp")], observe=["return values, exceptions, execution log"])
prop("C37", "Link registry counts links exactly",
 "Over any history of AddLink, RemoveLink and RemoveLinks, GetLinkCount equals adds minus removes per source/target pair, RemoveLink returns true exactly when that was positive, GetLinkSources lists exactly the sources with a link to the target (sources of equal name included), and CanRemove is true exactly when all of them can be asked; RemoveLinks(target) asks every such source that still has links, even if links are added and removed meanwhile. Concurrent calls on the registry are linearizable and free of races and deadlocks.",
 ["histories","schedules"], "all operation sequences up to a depth over a few components, same-named ones included, and all interleavings of small concurrent drivers up to a preemption bound",
 "Tests cover one pair, one thread.",
 ["src/Xsmp/Services/XsmpLinkRegistry.cpp"], [("count map and source collections","src/Xsmp/Services/XsmpLinkRegistry.cpp")], observe=["ILinkRegistry"])
prop("C38", "Every log message reaches its configured outputs once, intact",
 "Each logged message is written exactly once and complete to every configured destination whose level and filter admit it, in call order per thread, before shutdown completes, with the layout the configuration asks for. Message-kind queries give a stable distinct id per name, which a Store/Restore keeps and a failed restoration does not change, and no configuration text, valid or malformed, makes the logger crash or read outside the text.",
 ["inputs","schedules"], "all pattern strings up to a length over the directive alphabet, configurations over an alphabet of valid/invalid fragments, interleavings of concurrent producers",
 "Tests log a few lines with one configuration.",
 ["src/Xsmp/Services/XsmpLogger.cpp"], [("queue and writer thread","src/Xsmp/Services/XsmpLogger.cpp"),("pattern compiler","src/Xsmp/Services/XsmpLogger.cpp")], observe=["log files and console stream"])
prop("C39", "ThreadSafeData gives exclusive writes, shared reads and live locks",
 "Data behind a ThreadSafeData is only reachable while a lock is held: never by two writers or a writer and a reader at once, while readers may overlap. try_read is refused only while a writer holds the lock and try_write only while somebody does; moved or early-released locks release exactly once and can be taken again with lock(); and no program that holds one lock at a time deadlocks or races under any interleaving.",
 ["schedules"], "all interleavings up to a preemption bound of two or three threads using read, write, try_read and try_write locks, moves, early unlock and relock",
 "It has no test of its own.",
 ["src/Xsmp/ThreadSafeData.h"], [("shared mutex and lock guards","src/Xsmp/ThreadSafeData.h")], observe=["lock guards, try results, data behind the locks"])
prop("C40", "Library loading and package initialisation are idempotent and reversible",
 "LoadLibrary opens exactly lib<name>.so, all of whose references must resolve; a missing or invalid library or symbol, or a null name, gives null with an error text, never a crash; a library stays loaded exactly while it has open handles. A package's Initialise/Finalise entry points forward arguments and result; initialising the services package for a simulator adds each of its six services once, a null simulator is refused, initialising again for a known simulator adds nothing, finalising twice is harmless and a finalised package can be initialised for a new simulator. Simulator::LoadLibrary initialises a library once per call, raises LibraryNotFound or InvalidLibrary as documented, and its destructor finalises every loaded library in reverse order.",
 ["histories","inputs"], "all sequences up to a depth of load/symbol/close/error queries and of load/initialise/finalise/destroy over two simulators, with good, missing, unresolved and malformed libraries",
 "Tests load one library once.",
 ["src/Xsmp/LibraryHelper.cpp","include/Xsmp/LibraryHelper.h","src/xsmp_services.cpp","src/xsmp_services.pkg.cpp"], [("dlopen wrapper and suffix handling","src/Xsmp/LibraryHelper.cpp"),("simulator set","src/xsmp_services.cpp")], observe=["return values, loaded objects, simulator contents"])
prop("C41", "Scheduler state survives Store and Restore",
 "After Store, arbitrary further scheduling and execution, and Restore (in the same simulation, or in a new one that is composed alike), the scheduler executes exactly the events it would have executed had it continued from the stored instant: same identifiers, times, cycles, remaining repeats, order and immediate events, and no event posted after the store; this holds also when the restoration is made while a Zulu event is executed; events posted after Restore never get the identifier of a restored pending event. Zulu events are executed again at their Zulu times; occurrences whose Zulu time is already past at the restore may be executed late or be skipped.",
 ["histories"], "all schedules up to a few events, each stored at every instant and restored after every short continuation",
 "Tests store one schedule without continuing.",
 ["src/Xsmp/Services/XsmpScheduler.cpp","src/Xsmp/Services/XsmpTimeKeeper.cpp"], [("event table persistence","src/Xsmp/Services/XsmpScheduler.cpp")], observe=["execution log after Restore"])
prop("C42", "Python bindings expose the same values as the C++ interface",
 "A value written, read or passed through the Python bindings is the same as through the C++ interface, and an exception raised on one side arrives as its counterpart on the other.",
 ["inputs"], "all bound interfaces crossed with boundary values",
 "The Python tests use a few values and need pybind11.",
 ["src/python/ecss_smp.cpp","src/python/ecss_smp.h"], [("pybind11 converters","src/python/ecss_smp.h")], observe=["python module"])
prop("C43", "Exceptions say what was refused, and still do later",
 "Every exception raised by the SDK is of the class, and carries the name, of what went wrong; it gives the sender and exactly the objects, names, values, indexes, sizes, kinds and states involved (what was refused and what was expected never exchanged), its message names what was refused, and what() consists of name, description and message. All of that stays true for as long as the exception lives, after the strings and values of the call are gone, whatever they were: missing, empty, long or with special characters.",
 ["inputs","histories"], "every kind of exception over all combinations of an alphabet of arguments, each raised, kept while the arguments are destroyed, and read; every refusal of a request, array, container, reference, event source or sink and type registry",
 "Tests raise each exception once, with one set of arguments that is still alive when it is read.",
 ["src/Xsmp/Exception.cpp","include/Xsmp/Exception.h"], [("exception classes","src/Xsmp/Exception.cpp"),("refusal of a value of another type","src/Xsmp/Publication/Request.cpp"),("refusal by an event sink","src/Xsmp/EventSink.cpp")], observe=["caught exceptions and what their getters return"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
