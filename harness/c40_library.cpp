// C40: library handles and symbols over all sequences of load / close / lookup / error queries.
#include "mc.h"
#include <Xsmp/LibraryHelper.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <dlfcn.h>
#include <string>
#include <vector>
static int constructed[8], destroyed[8];
extern "C" { __attribute__((visibility("default"), used)) void *c40_args[2];
__attribute__((visibility("default"), used)) void c40_event(int lib, int what) { if (what == 1) ++constructed[lib]; if (what == 2) ++destroyed[lib]; } }
namespace {
struct Name { const char *text; int lib; }; // lib 0: cannot be loaded
const Name NAMES[] = {{"c40one", 1}, {"c40two", 2}, {"c40nosuch", 0}, {nullptr, 0}, {"c40unresolved", 0}, {"c40text", 0}, {"", 0}, {"libc40one.so", 0}, {"c40one.so", 0}, {"c40One", 0}, {"c40a.b", 3}, {"c40_very_long_name_of_a_library_that_does_not_fit_in_any_small_buffer_0123456789", 4}};
const char *const SYMS[] = {"c40_value", "c40_function", "c40_only_in_1", "nosuch_symbol", nullptr, ""};
bool hasSym(int lib, int s) { return s <= 1 || (s == 2 && lib == 1); }
struct H { void *h; int lib; };
}
MC_SCENARIO(sequences) {
  std::vector<H> open; int pendingError = 0; // 0 none, 1 some failure not read yet, 2 unspecified
  std::memset(constructed, 0, sizeof constructed); std::memset(destroyed, 0, sizeof destroyed);
  if (static bool once = false; !once) { once = true; if (FILE *f = std::fopen((std::string(std::getenv("MC_FILES") ? std::getenv("MC_FILES") : ".") + "/libc40text.so." + std::to_string(getpid())).c_str(), "w")) { std::fputs("not a library\n", f); std::fclose(f); std::string d = std::string(std::getenv("MC_FILES") ? std::getenv("MC_FILES") : ".") + "/libc40text.so"; std::rename((d + "." + std::to_string(getpid())).c_str(), d.c_str()); } }
  (void)Xsmp::GetLastError();
  const int depth = mc::param("depth", 3), names = mc::param("names", 5);
  for (int i = 0; i < depth; ++i) {
    const int nopen = static_cast<int>(open.size());
    int op = mc::choose(names + nopen * 7 + 1);
    if (op == 0) {
      MC_OP("GetLastError"); mc::context("GetLastError");
      std::string e = Xsmp::GetLastError();
      if (pendingError == 1) MC_CHECK(!e.empty(), "error-text", "no error text after a failed operation");
      if (pendingError == 0) MC_CHECK(e.empty(), "error-text", "error text '" << e << "' although nothing failed since the last query");
      pendingError = 0;
    } else if (op <= names) {
      const Name &n = NAMES[op - 1]; MC_OP("LoadLibrary " << (n.text ? n.text : "null")); mc::context("LoadLibrary");
      void *h = Xsmp::LoadLibrary(n.text);
      MC_CHECK((h != nullptr) == (n.lib != 0), n.lib ? "not-loaded" : "bad-loaded", "loading '" << (n.text ? n.text : "null") << "' gave " << (h ? "a handle" : "null") << " " << Xsmp::GetLastError());
      if (h) { open.push_back({h, n.lib}); pendingError = 2; } else if (n.text) pendingError = 1;
    } else {
      H &x = open[static_cast<std::size_t>((op - names - 1) / 7)]; int s = (op - names - 1) % 7;
      if (s == 6) { MC_OP("CloseLibrary " << x.lib); mc::context("CloseLibrary"); Xsmp::CloseLibrary(x.h); open.erase(open.begin() + (&x - open.data())); pendingError = 2; }
      else {
        MC_OP("GetSymbol " << x.lib << " " << (SYMS[s] ? SYMS[s] : "null")); mc::context("GetSymbol");
        void *p = Xsmp::GetSymbol(x.h, SYMS[s]);
        MC_CHECK((p != nullptr) == (SYMS[s] && s < 3 && hasSym(x.lib, s)), "symbol", "symbol " << (SYMS[s] ? SYMS[s] : "null") << " of library " << x.lib << (p ? " found" : " not found"));
        if (s == 0) MC_CHECK(*Xsmp::GetSymbol<int *>(x.h, "c40_value") == 100 + x.lib, "symbol", "c40_value of library " << x.lib << " is another library's");
        if (s == 1) MC_CHECK(Xsmp::GetSymbol<int (*)(int)>(x.h, "c40_function")(5) == 5 + x.lib, "symbol", "c40_function of library " << x.lib << " is another library's");
        if (SYMS[s]) pendingError = p ? 0 : 1;
      }
    }
    for (int l = 1; l <= 4; ++l) {
      int n = 0; for (auto &o : open) n += o.lib == l;
      int live = constructed[l] - destroyed[l];
      MC_CHECK(live == (n > 0), "balance", "library " << l << " has " << n << " open handles but is " << (live ? "still loaded" : "unloaded"));
    }
    MC_CHECK(constructed[5] == 0 && constructed[6] == 0, "bad-loaded", "a library with an unresolved symbol was loaded");
  }
  for (auto &o : open) Xsmp::CloseLibrary(o.h);
  mc::outcome(open.size());
}
