// One test library; LIBID and flags choose what it provides. It reports through a callback that the harness exports.
extern "C" void c40_event(int lib, int what);
namespace { struct Life { Life() { c40_event(LIBID, 1); } ~Life() { c40_event(LIBID, 2); } } life; }
namespace Smp { class ISimulator; namespace Publication { class ITypeRegistry; } }
extern "C" {
int c40_value = 100 + LIBID;
int c40_function(int x) { return x + LIBID; }
#if LIBID == 1
int c40_only_in_1 = 1;
#endif
#ifdef UNRESOLVED
int c40_nowhere_defined();
int c40_uses_it() { return c40_nowhere_defined(); }
#endif
extern void *c40_args[2];
#ifdef INIT
bool Initialise(::Smp::ISimulator *s, ::Smp::Publication::ITypeRegistry *r) { c40_args[0] = s; c40_args[1] = r; c40_event(LIBID, 3); return INIT; }
#endif
#ifdef FINI
bool Finalise(::Smp::ISimulator *s) { c40_args[0] = s; c40_event(LIBID, 4); return FINI; }
#endif
}
