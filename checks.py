# Registry of checks: what each builds and explores.
def one(name, harness, lib="none", **kw):
    return dict(name=name, harness=harness, lib=lib, **kw)
CHECKS = {
 "C01": dict(parts=[one("string", ["c01_string.cpp"])],
   quick=[dict(set=dict(depth=1))], thorough=[dict(set=dict(depth=d)) for d in (1,2,3)],
   bounds="capacities 0,1,2,3,9; every start content over {a,b} (with zero or garbage tail) then every sequence of `depth` operations of a 30-operation alphabet; all content pairs for comparisons"),
 "C02": dict(parts=[one("cstring", ["c02_cstring.cpp"], ["src/Xsmp/cstring.cpp"])],
   quick=[dict(set=dict(depth=4))], thorough=[dict(set=dict(depth=d)) for d in (4,6,8)],
   bounds="3 cstrings, 12 operations, depth operations, each allocation also failing"),
 "C03": dict(parts=[one("array", ["c03_array.cpp"])],
   quick=[dict(set=dict(depth=3))], thorough=[dict(set=dict(depth=d)) for d in (3,5,7)],
   bounds="sizes 0..4, all contents pairs over 3 values, operation sequences up to depth"),
 "C04": dict(parts=[one("utility", ["c04_utility.cpp"])],
   quick=[dict()], thorough=[dict()],
   bounds="all ordered pairs of 10 integer types; all 8-bit values, values within 3 of every power-of-two limit for wider types"),
 "C05": dict(parts=[one("any", ["c05_anysimple.cpp"], "core")],
   quick=[dict()], thorough=[dict()],
   bounds="13 C++ argument types x all 8-bit values / all values within 2 of each power of two and selected roundings (wider types) / 75 floats x 16 target kinds x 3 previous contents; then all 13 conversion operators"),
 "C06": dict(parts=[one("any", ["c06_anysimple.cpp"], "core")],
   quick=[dict(set=dict(depth=4))], thorough=[dict(set=dict(depth=d,values=v)) for d,v in ((4,8),(4,16),(5,12),(6,8))],
   bounds="3 objects, 8 operations, 8..16 values (one per kind and corner), depth operations; equality on all pairs of 28 values"),
 "C07": dict(parts=[one("uuid", ["c07_uuid.cpp"], "core")],
   quick=[dict()], thorough=[dict()],
   bounds="4 base texts; every byte at every position; every pair of positions x 5x5 characters; every truncation, insertion, deletion and extension; every pair/triple of 39 identifiers that differ in one field"),
 "C08": dict(parts=[one("time", ["c08_time.cpp"], "core")],
   quick=[dict()], thorough=[dict()],
   bounds="all pairs of 68 counts around unit and 64-bit limits; 15 counts in 7 chrono units; comparison, arithmetic and conversion of the 68 counts and of 63 counts around multiples of each of 5 chrono units with 9 counts of that unit; texts of 576+68 durations and 138+68 dates"),
 "C09": dict(parts=[one("stream", ["c09_stream.cpp"], "core")],
   quick=[dict()], thorough=[dict()],
   bounds="7 enumerations x 72 integer values (all declared, unknown and extreme ones); AnySimple of every kind x the value set of C05 (all 256 characters)"),
 "C39": dict(parts=[one("tsd", ["c39_tsd.cpp"], flavor="rt")],
   quick=[dict(set=dict(preempt=2,unlockpoints=1,len2=1,ops3=8)), dict(set=dict(preempt=1,len2=2,threads=2,ops2=10))],
   thorough=[dict(set=dict(preempt=4,unlockpoints=1,len2=1,threads=2)), dict(set=dict(preempt=3,len2=2,threads=2)), dict(set=dict(preempt=2,unlockpoints=1,ops3=16))],
   bounds="all programs of 2 threads x 1..2 and 3 threads x 1 of 16 lock usages; every interleaving of their synchronisation operations with at most `preempt` preemptions",
   assumptions=["interleavings are sequentially consistent; weaker memory effects are only covered in so far as they need a data race, which is reported", "readers are admitted while a writer waits (glibc default)"]),
 "C40": dict(parts=[one("library", ["c40_library.cpp"], ["src/Xsmp/LibraryHelper.cpp"], isolate=True, lflags=["-rdynamic", "-Wl,-rpath,'$$ORIGIN/C40_files'"],
      extra=[dict(name=f"libc40{n}.so", src=["c40_lib.cpp"], flags=[f"-DLIBID={i}"] + f) for n, i, f in (("one",1,[]),("two",2,[]),("a.b",3,[]),("_very_long_name_of_a_library_that_does_not_fit_in_any_small_buffer_0123456789",4,[]),("unresolved",5,["-DUNRESOLVED"]),("init",11,["-DINIT=true","-DFINI=true"]),("finifalse",12,["-DINIT=true","-DFINI=false"]),("noinit",13,["-DFINI=true"]),("nofini",14,["-DINIT=true"]),("initfalse",15,["-DINIT=false","-DFINI=true"]))]),
    one("package", ["c40_package.cpp"], "services", isolate=True, lflags=["-rdynamic", "-Wl,-rpath,'$$ORIGIN/C40_files'"],
      extra=[dict(name=f"libc40pkg_{n}.so", src=[f"@repo/{d}/xsmp_{n}.pkg.cpp"]) for n, d in (("services","src"),("logger","src-gen"),("time_keeper","src-gen"),("resolver","src-gen"),("event_manager","src-gen"),("link_registry","src-gen"),("scheduler","src-gen"))]),
    one("entry", ["c40_entry.cpp"], ["src/Xsmp/LibraryHelper.cpp"], lflags=["-rdynamic", "-Wl,-rpath,'$$ORIGIN/C40_files'"])],
   quick=[dict(part="entry", set=dict(depth=2)), dict(part="library", set=dict(depth=4,names=5)), dict(part="library", set=dict(depth=2,names=12)), dict(part="package", set=dict(depth=3,libs=7,pkgs=2)), dict(part="package", set=dict(depth=2,libs=13,pkgs=7))],
   thorough=[dict(part="library", set=dict(depth=d,names=n)) for d, n in ((4,12),(5,5),(6,4))] + [dict(part="package", set=dict(depth=d,libs=l,pkgs=p)) for d, l, p in ((3,13,7),(4,7,2),(5,5,2))],
   bounds="12 library names (present, missing, unresolved, not a library, null, other spellings), 6 symbol names, every sequence of `depth` load/close/lookup/error operations; 13 libraries on 2 simulators (placed at fixed addresses), every supported sequence of load / re-initialise / finalise / destroy"),
 "C11": dict(parts=[one("collection", ["c11_collection.cpp"], "core")],
   quick=[dict(set=dict(depth=5,objects=3)), dict(set=dict(depth=3,objects=5))], thorough=[dict(set=dict(depth=d,objects=n)) for d, n in ((5,4),(4,5),(7,3),(6,5))],
   bounds="five collection kinds (plain, of a foreign interface, with duplicates, owning, delegating), 3..5 objects of which two share a name, every sequence of `depth` add/remove/clear operations (delegate operations included)"),
 "C12": dict(parts=[one("container", ["c12_container.cpp"], "core")],
   quick=[dict(set=dict(depth=4,cands=3)), dict(set=dict(depth=3,cands=5)), dict(set=dict(depth=2,cands=14))], thorough=[dict(set=dict(depth=d,cands=n)) for d, n in ((4,5),(3,14),(4,7),(5,5),(6,4))],
   bounds="lower bounds 0..2, upper bounds -1..3, 5..14 candidate components (equal names, names used by a sibling container, field, property, operation, entry point, event source/sink or failure of the parent, wrong type, wrong parent), every sequence of `depth` add/delete/connect operations, deletions nested in a component's Disconnect included"),
 "C13": dict(parts=[one("reference", ["c13_reference.cpp"], "core")],
   quick=[dict(set=dict(depth=3))], thorough=[dict(set=dict(depth=d)) for d in (3,4,5)],
   bounds="lower bounds 0..2, upper bounds -1..3, four components of which two share a name, every sequence of `depth` add/remove/remove-links operations on references to an interface and to a class"),
 "C10": dict(parts=[one("paths", ["c10_paths.cpp"], "services")],
   quick=[dict(set=dict(len=4,depth=3)), dict(set=dict(len=2,depth=4,segs=12))], thorough=[dict(set=dict(len=5,depth=3)), dict(set=dict(len=3,depth=4,segs=28))],
   bounds="every name of up to `len` characters over a 12 character alphabet, every character in 6 positions, 16 names for 26 kinds of named objects; a tree with every kind of object: every canonical absolute and relative path, every path of up to `depth` segments (40 segments, separators '/', '.', none) from 7 senders; every history of component additions and deletions"),
 "C14": dict(parts=[one("lifecycle", ["c14_lifecycle.cpp"], "core"), one("links", ["c14_links.cpp"], "core")],
   quick=[dict(part="lifecycle", set=dict(depth=7)), dict(part="links", set=dict(links=2))], thorough=[dict(part="lifecycle", set=dict(depth=12)), dict(part="links", set=dict(links=3))],
   bounds="components, models and services with each hook signature (a user class derived from another included): every sequence of `depth` lifecycle calls with each hook throwing; every set of up to `links` links among 23 kinds (events, references, simple/array/structure dataflow, typed and published, nested) towards two sibling targets and a child, then removal and destruction of each target"),
 "C15": dict(parts=[one("events", ["c15_events.cpp"], "core")],
   quick=[dict(set=dict(depth=2,inside=2))], thorough=[dict(set=dict(depth=d,inside=i)) for d,i in ((3,2),(2,3))],
   bounds="two sources and three sinks of seven argument kinds, from every subscription state, every sequence of `depth` subscribe / unsubscribe / remove-links / emit operations with up to `inside` of them made by sinks while they are notified (nested emissions included); all pairs of argument kinds"),
 "C16": dict(parts=[one("failure", ["c16_failure.cpp"], "core")],
   quick=[dict(set=dict(depth=3)), dict(set=dict(depth=5,failures=3))], thorough=[dict(set=dict(depth=4)), dict(set=dict(depth=8,failures=3)), dict(set=dict(depth=10,failures=2))],
   bounds="two models with seven failures (simple, transient, array, simple array, structure, forcible, output), every sequence of `depth` fail / unfail / store / restore / write operations"),
 "C17": dict(parts=[one("fields", ["c17_fields.cpp"], "core")],
   quick=[dict(set=dict(depth=2,big=4,first=2))], thorough=[dict(set=dict(depth=2,big=100,opdepth=4)), dict(set=dict(depth=3,big=2))],
   bounds="105 simple fields (21 types x published, published output, typed, typed output, typed forcible) x every value of the C05 value set (16 kinds), after up to `first` other values; 99 compound shapes (arrays, simple arrays of every kind, structures, nested, anonymous, typed; with guard bytes): every sequence of `depth` writes by index, by SetValues, by C++ access, with an undeclared literal, another kind, a wrong length or index at each position; read back by index, by name, by path, by GetValues and in memory after every step; sequences of C++ operators on typed fields"),
 "C18": dict(parts=[one("force", ["c18_force.cpp"], "core")],
   quick=[dict(set=dict(depth=6))], thorough=[dict(set=dict(depth=12))],
   bounds="14 forcible fields (kinds, output, input, transient, array items, structure members): every sequence of `depth` writes, C++ assignments and operators, Force (accepted, refused, typed), Freeze and Unforce"),
 "C19": dict(parts=[one("dataflow", ["c19_dataflow.cpp"], "core")],
   quick=[dict(set=dict(depth=2)), dict(set=dict(depth=2,inner=0,wide=0,pre=1,refusals=0)), dict(set=dict(depth=3,inner=0,wide=0,refusals=0))], thorough=[dict(set=dict(depth=4,inner=0,wide=0,refusals=0)), dict(set=dict(depth=3,inner=0,wide=0,pre=1,refusals=0)), dict(set=dict(depth=3,refusals=3))],
   bounds="nine families (simple, string, simple array, array, structure, nested) of typed, published and anonymous outputs, inputs, in-outs, a forcible input and fields that are no valid target: every sequence of `depth` connect / disconnect / C++ write / SetValue / SetValues / fill / swap / Push / Freeze operations (items of compounds included with inner=1); connection graphs are acyclic; with pre=1 from every set of connections of the first output; every sequence of two writes (13 operators, SetValue, SetValues, fill, swap, Push) to outputs with an input that refuses some values"),
 "C20": dict(parts=[one("persist", ["c20_persist.cpp"], "core"), one("storage", ["c20_files.cpp"], "core")],
   quick=[dict(part="persist", set=dict(depth=3)), dict(part="storage", set=dict(blocks=2))], thorough=[dict(part="persist", set=dict(depth=4,snaps=2)), dict(part="persist", set=dict(depth=5)), dict(part="storage", set=dict(blocks=3))],
   bounds="240 field shapes (all of C17, and transient, forcible, failure variants, nested), two identical objects built separately and up to two snapshots: every sequence of `depth` writes, freezes, failures, stores and restores; a storage that ends or fills up at every byte (raising, or short reads); storage files: 8 directory forms, up to `blocks` blocks of 0..70000 bytes, truncations, missing files"),
 "C24": dict(parts=[one("persist", ["c24_persist.cpp"], "services")],
   quick=[dict(set=dict(values=2))], thorough=[dict(set=dict(values=3))],
   bounds="85 types (18 scalar, strings of 4 widths, arrays, pairs, vectors, sets, maps, unordered containers with colliding hashes, other comparators and allocators, atomics, object references, nestings): every sample restored over every sample, truncated at and stored into a storage full at every byte; every sequence of up to `values` values of any two types in one stream, with and without type checks, restored as another type"),
 "C35": dict(parts=[one("events", ["c35_events.cpp"], "services")],
   quick=[dict(set=dict(depth=4)), dict(set=dict(depth=3,inside=2))], thorough=[dict(set=dict(depth=5,inside=2)), dict(set=dict(depth=4,inside=4))],
   bounds="simulators with and without logger, three entry points, events 'a', 'b', a predefined one and invalid ids: every sequence of `depth` QueryEventId, Subscribe, Unsubscribe, Emit, Store and Restore operations from several subscription states, with up to `inside` of them (or an exception) made by entry points while they are called; names close to predefined ones, long names, 40 further names"),
 "C36": dict(parts=[one("concurrent", ["c36_concurrent.cpp"], "services", flavor="rt")],
   quick=[dict(set=dict(preempt=2,len2=1,ops3=0)), dict(set=dict(preempt=1,len2=2,ops2=8,ops3=0)), dict(set=dict(preempt=1,len2=1,ops2=1,ops3=6))], thorough=[dict(set=dict(preempt=1,len2=2,ops3=0)), dict(set=dict(preempt=3,len2=1,ops3=0)), dict(set=dict(preempt=1,len2=1,ops2=1,ops3=13)), dict(set=dict(preempt=2,len2=2,ops2=9,ops3=0))],
   bounds="from four subscription states, all programs of 2 threads x 1..2 and 3 threads x 1 of 13 operations (query of one or two new names, of a predefined one, subscribe / unsubscribe / emit of own, shared and not yet existing ids, an entry point that unsubscribes itself): every interleaving of their synchronisation operations with at most `preempt` preemptions; results must equal those of some order of the calls that respects real time; races, deadlocks and uses of released memory are violations",
   assumptions=["interleavings are sequentially consistent; weaker memory effects are only covered in so far as they need a data race, which is reported"]),
 "C37": dict(parts=[one("links", ["c37_links.cpp"], "services"), one("concurrent", ["c37_concurrent.cpp"], "services", flavor="rt")],
   quick=[dict(part="links", set=dict(depth=4,sources=3)), dict(part="links", set=dict(depth=3,sources=5)), dict(part="concurrent", set=dict(preempt=2,len2=1,ops3=0)), dict(part="concurrent", set=dict(preempt=1,len2=2,ops2=8,ops3=0)), dict(part="concurrent", set=dict(preempt=1,len2=1,ops2=1,ops3=7))],
   thorough=[dict(part="links", set=dict(depth=5,sources=4)), dict(part="links", set=dict(depth=4,sources=5)), dict(part="concurrent", set=dict(preempt=3,len2=1,ops3=0)), dict(part="concurrent", set=dict(preempt=2,len2=2,ops2=10,ops3=0)), dict(part="concurrent", set=dict(preempt=2,len2=1,ops2=1,ops3=11))],
   bounds="up to five sources (two with the same name, one that is no linking component, one that is itself a target) and three targets: every sequence of `depth` AddLink, RemoveLink and RemoveLinks calls, where sources asked to remove their links report it, ignore it, remove links of others, add links, ask again or throw; counts up to 300. Concurrently: from five link states all programs of 2 threads x 1..2 and 3 threads x 1 of 11 operations, every interleaving with at most `preempt` preemptions, results explained by some order of the calls; races, deadlocks and uses of released memory are violations",
   assumptions=["interleavings are sequentially consistent; weaker memory effects are only covered in so far as they need a data race, which is reported"]),
 "C30": dict(parts=[one("time", ["c30_time.cpp"], "services"), one("concurrent", ["c30_concurrent.cpp"], "services", flavor="rt"), one("concurrent_gcc", ["c30_concurrent.cpp"], "services", flavor="rtg")],
   quick=[dict(part="time", set=dict(depth=3,inside=1,values=4)), dict(part="time", set=dict(depth=2,inside=2,values=6)), dict(part="concurrent", set=dict(preempt=2,len=1)), dict(part="concurrent_gcc", set=dict(preempt=2,len=1)), dict(part="concurrent", set=dict(preempt=1,len=2,ops=6))],
   thorough=[dict(part="time", set=dict(depth=4,inside=2,values=6))] + [dict(part=p, set=dict(preempt=a,len=l,ops=o,threads=t)) for p in ("concurrent", "concurrent_gcc") for a,l,o,t in ((4,1,10,2),(2,2,7,2),(2,1,10,3))],
   bounds="six values from the ends of the representable range: every sequence of `depth` SetEpochTime, SetMissionStartTime, SetMissionTime, SetSimulationTime (outside and during a time change), time change as made by a scheduler, Store and Restore calls, with up to `inside` of them made by subscribers of the four events. Concurrently: all programs of 2..3 threads x `len` of 10 operations (getters, setters, Store, Restore), every interleaving with at most `preempt` preemptions, results explained by some order of the calls, compiled by clang and by gcc (they evaluate operands in different orders); races and deadlocks are violations",
   assumptions=["interleavings are sequentially consistent; weaker memory effects are only covered in so far as they need a data race, which is reported", "times whose differences are not representable are excluded"]),
 "C31": dict(parts=[one("run", ["c31_run.cpp"], "services")],
   quick=[dict(only="posts", set=dict(posts=2,inside=1,hooks=1,durations=2)), dict(only="posts", set=dict(posts=2,opset=1,inside=1,durations=1)), dict(only="posts", set=dict(posts=3,inside=0,between=1,durations=1)), dict(only="shifts", set=dict(posts=2,before=1,inside=1,hooks=1)), dict(only="shifts", set=dict(posts=3,before=0,inside=1))],
   thorough=[dict(only="posts", set=dict(posts=3,inside=1,durations=1,runs=1)), dict(only="posts", set=dict(posts=2,inside=2,durations=1,runs=1)), dict(only="posts", set=dict(posts=2,inside=1,later=1,durations=1)), dict(only="posts", set=dict(posts=2,opset=1,inside=1,between=1)), dict(only="posts", set=dict(posts=3,opset=1,inside=1,durations=1,hooks=1)), dict(only="shifts", set=dict(posts=3,before=1,inside=1,hooks=1)), dict(only="shifts", set=dict(posts=2,before=1,inside=2,hooks=1))],
   bounds="up to `posts` events from 14 (22 with opset=1) combinations of kind, delay -1..3, cycle -1..3 and repeat -1..2 over three entry points, two runs of 0..2 time units, up to `inside` further posts, Hold(true) or Hold(false) made by executing events and by subscribers of the time change events, further posts between runs; with pending epoch and mission events every change of epoch and mission time by -3..3 before or (up to `inside`) during a run",
   assumptions=["Zulu events and other threads are the subject of C33 and C34", "times whose sums are not representable are excluded"]),
 "C32": dict(parts=[one("mutate", ["c32_mutate.cpp"], "services")],
   quick=[dict(set=dict(posts=2,before=1,inside=0)), dict(set=dict(posts=2,before=0,inside=1)), dict(set=dict(posts=1,before=0,inside=2)), dict(set=dict(posts=1,before=1,inside=1,hooks=1)), dict(set=dict(posts=2,before=0,inside=1,zulu=1,opset=2)), dict(set=dict(posts=3,before=0,inside=1,opset=2))],
   thorough=[dict(set=dict(posts=1,before=2,inside=0)), dict(set=dict(posts=2,before=1,inside=1)), dict(set=dict(posts=2,before=0,inside=1,zulu=1,opset=2,between=1)), dict(set=dict(posts=2,before=0,inside=2,opset=2)), dict(set=dict(posts=3,before=0,inside=2,opset=2)), dict(set=dict(posts=2,before=0,inside=2,hooks=1,opset=2))],
   bounds="up to `posts` pending events (as in C31; a Zulu event with zulu=1) and 13 changes (RemoveEvent, the four SetEvent...Time with times now, later and in the past, SetEventCycleTime, SetEventRepeat, valid and invalid) of each of them and of an unknown one: `before` of them before the run, up to `inside` of them, of further posts or of holds made by executing events (of themselves, events due at the same instant, later, immediate and finished ones) and, with hooks=1, by subscribers of the time change events, `between` of them between the two runs",
   assumptions=["Zulu events and other threads are the subject of C33 and C34"]),
 "C33": dict(parts=[one("threads", ["c33_threads.cpp"], "services", flavor="rt")],
   quick=[dict(only="two_threads", set=dict(preempt=2,len2=1,rdpoints=0)), dict(only="two_threads", set=dict(preempt=1,len2=1,fast=1)), dict(only="two_threads", set=dict(preempt=1,len2=2,rdpoints=0)), dict(only="two_threads", set=dict(preempt=1,len2=1,runs=2)), dict(only="three_threads", set=dict(preempt=1,ops3=7,rdpoints=0)), dict(only="unbounded", set=dict(preempt=1,lenu=1,rdpoints=0))],
   thorough=[dict(only="unbounded", set=dict(preempt=2,lenu=1,rdpoints=0)), dict(only="unbounded", set=dict(preempt=1,lenu=2,rdpoints=0)), dict(only="two_threads", set=dict(preempt=3,len2=1,presets=2,ops2=10,rdpoints=0)), dict(only="two_threads", set=dict(preempt=2,len2=1,fast=1)), dict(only="two_threads", set=dict(preempt=2,len2=1,spurious=1,rdpoints=0)), dict(only="two_threads", set=dict(preempt=2,len2=2,ops2=7,rdpoints=0)), dict(only="two_threads", set=dict(preempt=2,len2=1,runs=2,rdpoints=0)), dict(only="three_threads", set=dict(preempt=1,fast=1)), dict(only="three_threads", set=dict(preempt=2,ops3=6,presets=3,rdpoints=0))],
   bounds="one thread calls Run(2) (runs=2: twice), one or two others make `len2` calls each of 13 (Hold(true), Hold(false), post immediate, in 0, in 1 and cyclic events, remove and move pending ones, queries, Abort, SetTargetSpeed) over four initial schedules (one of them with an event that holds); every interleaving with at most `preempt` preemptions (at lock, wait and notify operations, atomic accesses and callbacks; with rdpoints=0 not at shared locks; early timeouts count as preemptions), on a virtual clock, with waits between events and (fast=1) without; then a closing run in which everything still pending must be executed; Run() without end under the same calls, ended by a hold; the pace of the target speed is checked as a lower bound on the execution instants",
   assumptions=["interleavings are sequentially consistent; weaker memory effects are only covered in so far as they need a data race, which is reported", "one thread at a time runs the simulation"]),
 "C34": dict(parts=[one("zulu", ["c34_zulu.cpp"], "services", flavor="rt")],
   quick=[dict(only="standby", set=dict(preempt=1,timeouts=0,rdpoints=0)), dict(only="standby", set=dict(preempt=1,behaviours=4,rdpoints=0)), dict(only="standby", set=dict(preempt=2,len=0)), dict(only="running", set=dict(preempt=1,len=0)), dict(only="running", set=dict(preempt=1,timeouts=0,endings=1,behaviours=4,ops=8,rdpoints=0)), dict(only="running", set=dict(preempt=1,endings=1,behaviours=3,ops=6,rdpoints=0))],
   thorough=[dict(only="standby", set=dict(preempt=1,timeouts=0,len=2,rdpoints=0,behaviours=5)), dict(only="standby", set=dict(preempt=2,timeouts=0,rdpoints=0,behaviours=4)), dict(only="standby", set=dict(preempt=2,rdpoints=0,behaviours=2)), dict(only="running", set=dict(preempt=2,len=0,rdpoints=0)), dict(only="running", set=dict(preempt=1,timeouts=0,rdpoints=0)), dict(only="running", set=dict(preempt=1,rdpoints=0,endings=1)), dict(only="running", set=dict(preempt=1,timeouts=0,len=2,ops=6,endings=1,behaviours=4,rdpoints=0))],
   bounds="two Zulu events due 1 and 1 or 2 time units ahead, the first of which holds, posts, removes, moves (itself or the other), sleeps, runs or exits when executed; another thread makes `len` of 12 calls (post, remove, move before, at and after the due time, repeat, query, post in the past or with invalid cycles); the simulation is in Standby or runs events that are due at the same instants; then everything is left to complete, or the simulation exits or is destroyed at once; every interleaving of all threads with at most `preempt` preemptions (rdpoints=0: not at shared locks) on a virtual clock; with timeouts=0 time only passes while every thread waits, so that events must be executed at exactly their time, otherwise timeouts may come early as well",
   assumptions=["interleavings are sequentially consistent; weaker memory effects are only covered in so far as they need a data race, which is reported", "Exit is not called while other threads use the components of the simulation", "an event due while the simulator is in another state than Standby and Executing is skipped by design"]),
"C43": dict(parts=[one("exceptions", ["c43_exceptions.cpp"], "services")],
   quick=[dict(only="kinds"), dict(only="refusals"), dict(only="services")], thorough=[dict(only="kinds"), dict(only="refusals"), dict(only="services")],
   bounds="50 ways to raise an exception (all of Xsmp/Exception.h), each with every combination of an alphabet of arguments (5 texts, one missing and one of 300 characters; extreme numbers; every kind, state and 5 values; 3 senders), read twice after the arguments are destroyed; 16 groups of refusals by requests, event sinks and sources, arrays, references, containers and types, with every argument kind, index and length of an alphabet; 12 groups by the event manager, scheduler, time keeper, simulator and components, each in every state and with every wrong identifier, name, time and cycle time of an alphabet",
   assumptions=["messages are only required to name what was refused, not to have a given wording", "the objects an exception refers to (sender, component, field...) are alive when it is read", "the least Duration cannot be shown (date library) and is not used"]),
 "C41": dict(parts=[one("persist", ["c41_persist.cpp"], "services"), one("zulu", ["c41_zulu.cpp"], "services", flavor="rt")],
   quick=[dict(part="persist", only="continued", set=dict(posts=2)), dict(part="persist", only="continued", set=dict(posts=1,inside=1)), dict(part="persist", only="continued", set=dict(posts=1,opset=1)), dict(part="persist", only="continued", set=dict(posts=1,hooks=1)), dict(part="persist", only="fresh", set=dict(posts=2,orders=1)), dict(part="persist", only="fresh", set=dict(posts=1,before=1,zulu=1)), dict(part="zulu", set=dict(preempt=1,timeouts=0))],
   thorough=[dict(part="persist", only="continued", set=dict(posts=2,before=1)), dict(part="persist", only="continued", set=dict(posts=2,disturb=2)), dict(part="persist", only="continued", set=dict(posts=2,inside=1,durations=3)), dict(part="persist", only="continued", set=dict(posts=1,again=1)), dict(part="persist", only="continued", set=dict(posts=1,inside=2,hooks=1)), dict(part="persist", only="continued", set=dict(posts=2,opset=1)), dict(part="persist", only="continued", set=dict(posts=1,after=1,later=1)), dict(part="persist", only="fresh", set=dict(posts=3,orders=1)), dict(part="persist", only="fresh", set=dict(posts=2,inside=1)), dict(part="zulu", set=dict(preempt=2,timeouts=0)), dict(part="zulu", set=dict(preempt=1,timeouts=0,disturb=3,after=2))],
   bounds="simulation, mission, epoch and immediate events: every schedule of 2 events (14 forms), run for 0-2 units, stored, disturbed by every mutation, post, run or clock change, restored, run on twice, with operations inside events (1); the same restored into a newly composed simulation after other posts; Zulu events with the real Zulu thread: up to 3 events, store before or after the first occurrence, up to 2 of 7 disturbances, restore, all schedules with 1 preemption; a restore made by a Zulu event or by another thread while it is executed, followed by up to two posts of four kinds",
   assumptions=["Restore of time keeper and scheduler with data written by Store; in the same simulation or one composed alike", "Zulu occurrences that are past at the restore may be executed late or skipped"]),
 "C38": dict(parts=[one("layout", ["c38_layout.cpp"], "services"), one("kinds", ["c38_kinds.cpp"], "services"), one("concurrent", ["c38_concurrent.cpp"], "services", flavor="rt")],
   quick=[dict(part="layout", only="pattern", set=dict(len=3)), dict(part="layout", only="pattern", set=dict(len=4,tokens=12)), dict(part="layout", only="pattern", set=dict(len=2,file=1)), dict(part="layout", only="configuration"), dict(part="kinds", set=dict(depth=4)), dict(part="concurrent", only="producers", set=dict(preempt=2)), dict(part="concurrent", only="producers", set=dict(preempt=2,kinds=1)), dict(part="concurrent", only="producers", set=dict(preempt=1,threads=3)), dict(part="concurrent", only="producers", set=dict(preempt=2,messages=2)), dict(part="concurrent", only="producers", set=dict(preempt=1,loggers=2)), dict(part="concurrent", only="shutdown", set=dict(preempt=3)), dict(part="concurrent", only="services", set=dict(preempt=1))],
   thorough=[dict(part="layout", only="pattern", set=dict(len=4)), dict(part="layout", only="pattern", set=dict(len=6,tokens=9)), dict(part="layout", only="pattern", set=dict(len=3,file=1)), dict(part="kinds", set=dict(depth=6)), dict(part="concurrent", only="producers", set=dict(preempt=3)), dict(part="concurrent", only="producers", set=dict(preempt=2,threads=3)), dict(part="concurrent", only="producers", set=dict(preempt=2,messages=2,kinds=1)), dict(part="concurrent", only="producers", set=dict(preempt=2,loggers=2)), dict(part="concurrent", only="producers", set=dict(preempt=2,spurious=1,unlockpoints=1)), dict(part="concurrent", only="shutdown", set=dict(preempt=4,messages=2)), dict(part="concurrent", only="services", set=dict(preempt=2))],
   bounds="conversion patterns: every sequence of up to 3 of 31 (4 of 12) directives, formats, braces, escapes and text; configurations: every combination of outputs, classes, layouts, patterns, levels, path filters and file names from lists of valid and invalid values, in six ways of writing them down; kinds: every sequence of 4 queries, logs, Store and Restore; concurrency: 2 threads x 1-2 and 3 threads x 1 messages, two loggers on one console, shutdown at any time, the real time keeper and event manager: every interleaving with at most `preempt` preemptions",
   assumptions=["what an invalid directive, format or layout name prints is not specified, only that everything else is written", "two outputs into one file are not specified", "Restore sets the known kinds to those stored"]),
 "C25": dict(parts=[one("states", ["c25_states.cpp"], "services")],
   quick=[dict(only="all", set=dict(depth=4)), dict(only="all", set=dict(depth=4,connected=1)), dict(only="all", set=dict(depth=3,budget=1)), dict(only="all", set=dict(depth=3,connected=1,budget=1)), dict(only="all", set=dict(depth=1,connected=1,budget=2)), dict(only="all", set=dict(depth=3,poor=1)), dict(only="all", set=dict(depth=2,poor=1,connected=1,budget=1))],
   thorough=[dict(only="all", set=dict(depth=5)), dict(only="all", set=dict(depth=5,connected=1)), dict(only="all", set=dict(depth=4,budget=1)), dict(only="all", set=dict(depth=2,connected=1,budget=2)), dict(only="all", set=dict(depth=3,connected=1,budget=2)), dict(only="all", set=dict(depth=4,poor=1)), dict(only="all", set=dict(depth=3,poor=1,connected=1,budget=1))],
   bounds="every sequence of 4 of 14 simulator calls, every sequence of 3 with one further call made from inside any global event, component hook or init entry point, and with 2 such calls after 1; with and without logger, event manager and resolver; the whole run is compared with a model of the state machine (state inside every event, events, hooks and entry points in order)",
   assumptions=["the phase methods are not called again from inside a component's own hooks", "Hold(false) asked for inside PreSimTimeChange may wait for the next one", "what a Restore that raises leaves in the event manager is not specified"]),
 "C26": dict(parts=[one("states", ["c25_states.cpp"], "services")],
   quick=[dict(only="init", set=dict(depth=5)), dict(only="init", set=dict(depth=4,budget=1)), dict(only="init", set=dict(depth=2,budget=2,connected=1))],
   thorough=[dict(only="init", set=dict(depth=7)), dict(only="init", set=dict(depth=5,budget=1)), dict(only="init", set=dict(depth=3,budget=2)), dict(only="init", set=dict(depth=3,budget=2,connected=1))],
   bounds="every sequence of 5 of 7 calls (Connect, Initialise, AddInitEntryPoint, Run, Hold, Store, Abort), of 4 with one more call from inside any event, hook or init entry point, of 2 with 2 more: which entry points run, when and in which order is compared with a model",
   assumptions=["entry points do not throw"]),
 "C28": dict(parts=[one("phases", ["c28_phases.cpp"], "services")],
   quick=[dict(only="order"), dict(only="phases", set=dict(depth=4)), dict(only="phases", set=dict(depth=2,budget=1)), dict(only="phases", set=dict(depth=1,budget=2)), dict(only="phases", set=dict(depth=3,budget=1,trees=2)), dict(only="phases", set=dict(depth=1,budget=3,trees=2))],
   thorough=[dict(only="order"), dict(only="phases", set=dict(depth=5)), dict(only="phases", set=dict(depth=3,budget=1)), dict(only="phases", set=dict(depth=2,budget=2)), dict(only="phases", set=dict(depth=1,budget=3,trees=3)), dict(only="phases", set=dict(depth=4,budget=1,trees=2))],
   bounds="4 component trees (up to 5 components, 3 levels, models and services, two containers per composite); every sequence of 4 phase calls and additions between them; of 2 (3) with one component added from inside any hook in 7 ways (own, sibling, other container, grandparent, top-level model or service, another subtree); 1 call with up to 3 such additions; each hook's arguments, count, order and the order of the whole walk are checked",
   assumptions=["hooks do not throw, do not delete components and do not call the phase methods themselves", "Reconnect is given a connected component"]),
 "C29": dict(parts=[one("tree", ["c29_store.cpp"], "services"), one("sched", ["c29_sched.cpp"], "services")],
   quick=[dict(part="tree", only="sequences", set=dict(depth=4)), dict(part="tree", only="failures", set=dict(depth=1)), dict(part="sched", only="sequences", set=dict(depth=3)), dict(part="sched", only="failures", set=dict(depth=1))],
   thorough=[dict(part="tree", only="sequences", set=dict(depth=4)), dict(part="tree", only="failures", set=dict(depth=2)), dict(part="sched", only="sequences", set=dict(depth=3)), dict(part="sched", only="failures", set=dict(depth=2))],
   bounds="a simulation of 4 nested persistent components, state fields and arrays, the real time keeper, event manager, resolver, link registry (and scheduler): every sequence of 3 of 19 changes, stores and restores with 2 files, in the same or a newly composed simulation; every failure (each of 4 components raising 3 kinds of exception at either storage call while stored or restored, the file truncated at every byte, directories and files that cannot be made, opened or written, full disk) followed by every further operation",
   assumptions=["after a Restore that fails part-way the values of the state are not specified, until a Restore succeeds", "/dev/full stands for a full disk"]),
 "C27": dict(parts=[one("factories", ["c27_factories.cpp"], "services")],
   quick=[dict(only="factories", set=dict(depth=3)), dict(only="containers", set=dict(depth=4))],
   thorough=[dict(only="factories", set=dict(depth=4)), dict(only="containers", set=dict(depth=5))],
   bounds="every sequence of 3 registrations (7 factories of 4 uuids, or one registered before) and creations (4 uuids x 6 names and parents); every sequence of 4 of 15 additions to, deletions from the top-level containers and simulator transitions; after each step all factories, containers and standard services are compared with a model",
   assumptions=["what happens to the object of a refused factory is judged only by leaks"]),
 "C22": dict(parts=[one("types", ["c22_types.cpp"], "services")],
   quick=[dict(only="types", set=dict(depth=2)), dict(only="types", set=dict(depth=3, lean=1)), dict(only="predefined")],
   thorough=[dict(only="types", set=dict(depth=3)), dict(only="types", set=dict(depth=4, lean=1)), dict(only="predefined")],
   bounds="every sequence of 2 registrations (7 kinds of type, 3 uuids of which one is predefined, 5 names of which 3 are invalid, every primitive kind for floats and integers, 10 enumeration sizes, arrays and classes over 8 item and base types, literals, fields) and every sequence of 3 from a reduced alphabet (2 uuids, valid names); after each step every type is compared with a model",
   assumptions=["negative item sizes, counts and lengths, null names, fields of one name in one structure and literals that share a name are left open"]),
 "C23": dict(parts=[one("requests", ["c23_requests.cpp"], "services")],
   quick=[dict(only="values"), dict(only="calls", set=dict(depth=3)), dict(only="invoke"), dict(only="refusals"), dict(only="composed")],
   thorough=[dict(only="values"), dict(only="calls", set=dict(depth=5)), dict(only="invoke"), dict(only="refusals"), dict(only="composed")],
   bounds="33 types (every primitive kind, bounded integers and floats, strings, enumerations of every size) against 100 values as parameter, result, property getter and setter; every sequence of 3 calls (60 calls) on two requests of 5 operations; every operation of two parameters (33 x 5 types, 9 pairs of directions, 3 results) invoked with and without its inputs; foreign requests; properties of every access, republished and shadowed by operations; parameters of array and structure type with one leaf missing or wrong",
   assumptions=["NaN against a bounded float type and the parameter name of a setter request are left open"]),
 "C21": dict(parts=[one("publication", ["c21_publication.cpp"], "services")],
   quick=[dict(only="flags"), dict(only="sequences", set=dict(depth=3)), dict(only="sequences", set=dict(depth=4, lean=1))],
   thorough=[dict(only="flags"), dict(only="sequences", set=dict(depth=4)), dict(only="sequences", set=dict(depth=6, lean=1))],
   bounds="every way of publishing a field (12 typed overloads, 30 types by uuid or through the type, arrays of 16 kinds and 0..3 items) with every view kind and combination of flags; every sequence of 3 of 51 (4 of 18) publications of fields, field objects, arrays, structures and their items, operations, parameters and properties under equal, different and invalid names, with Unpublish",
   assumptions=["fields published as objects may be listed after the others"]),
}
