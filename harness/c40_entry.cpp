// C40: the packages' C entry points forward their arguments and result to the package functions (recorded by stand-ins here).
#include "mc.h"
#include <Xsmp/LibraryHelper.h>
#include <dlfcn.h>
#include <string>
namespace Smp { class ISimulator; namespace Publication { class ITypeRegistry; } }
using S = Smp::ISimulator *; using R = Smp::Publication::ITypeRegistry *;
static int inits[7], finis[7]; static S gotS; static R gotR; static bool answer;
#define PKG(K, N) extern "C" { __attribute__((visibility("default"), used)) bool Initialise_xsmp_##N(S s, R r) { ++inits[K]; gotS = s; gotR = r; return answer; } __attribute__((visibility("default"), used)) bool Finalise_xsmp_##N() { ++finis[K]; return answer; } }
PKG(0, logger) PKG(1, time_keeper) PKG(2, resolver) PKG(3, event_manager) PKG(4, link_registry) PKG(5, scheduler) PKG(6, services)
MC_SCENARIO(forwarding) {
  static const char *const PKGS[] = {"logger", "time_keeper", "resolver", "event_manager", "link_registry", "scheduler", "services"};
  const int k = mc::choose(7); void *h = Xsmp::LoadLibrary((std::string("c40pkg_") + PKGS[k]).c_str());
  if (!h) mc::error("cannot load package " + Xsmp::GetLastError());
  auto init = Xsmp::GetSymbol<bool (*)(S, R)>(h, "Initialise"); auto fini = Xsmp::GetSymbol<bool (*)(S)>(h, "Finalise");
  MC_CHECK(init && fini, "entry-point", "package " << PKGS[k] << " lacks an entry point");
  int a = 0, b = 0; for (int i = 0; i < 7; ++i) inits[i] = finis[i] = 0;
  static int o1, o2;
  for (int d = mc::param("depth", 3); d-- > 0;) {
    S s = mc::pick<S>({nullptr, reinterpret_cast<S>(&o1), reinterpret_cast<S>(&o2)}); answer = mc::flip();
    if (mc::flip()) { MC_OP("Initialise -> " << answer); R r = mc::pick<R>({nullptr, reinterpret_cast<R>(&o1), reinterpret_cast<R>(&o2)}); gotS = nullptr; gotR = nullptr; bool x = init(s, r); ++a; MC_CHECK(x == answer && gotS == s && gotR == r, "forward", "Initialise of " << PKGS[k] << " returned " << x << " for " << answer << (gotS == s && gotR == r ? "" : " and passed other arguments on")); }
    else { MC_OP("Finalise -> " << answer); bool x = fini(s); ++b; MC_CHECK(x == answer, "forward", "Finalise of " << PKGS[k] << " returned " << x << " for " << answer); }
    for (int i = 0; i < 7; ++i) MC_CHECK(inits[i] == (i == k ? a : 0) && finis[i] == (i == k ? b : 0), "forward", "entry points of " << PKGS[k] << " were used " << a << "+" << b << " times, package " << PKGS[i] << " was called " << inits[i] << "+" << finis[i]);
  }
  Xsmp::CloseLibrary(h);
}
