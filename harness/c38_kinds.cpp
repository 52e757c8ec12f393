// C38: message kinds: a stable, distinct identifier per name, also through Store and Restore.
#include "logworld.h"
#include "memstore.h"
#include <map>
using namespace lg;
using L = Smp::Services::ILogger; using K = Smp::Services::LogMessageKind;
MC_SCENARIO(kinds) {
  Scratch dir; dir.write("XsmpLogger.properties", "log.rootLogger=a\nlog.appender.a=ConsoleAppender\nlog.appender.a.layout=PatternLayout\nlog.appender.a.layout.conversionPattern=%k|%m;\n"); std::stringbuf o, e; Capture c(&o, &e); std::string want;
  static const char *const N[] = {"Information", "Error", "mine", "yours", "", "error", "mine2"}; std::map<std::string, K> known{{"Information", 0}, {"Event", 1}, {"Warning", 2}, {"Error", 3}, {"Debug", 4}}, saved; std::string data; bool stored = false, unsure = false;
  { auto sim = std::make_unique<Xsmp::Simulator>("sim", ""); Log log; auto fresh = [&] { addService<FixedTime>(*sim, "TimeKeeper"); log.make(sim.get()); }; fresh();
    MC_CHECK(L::LMK_Information == 0 && L::LMK_Event == 1 && L::LMK_Warning == 2 && L::LMK_Error == 3 && L::LMK_Debug == 4, "predefined", "predefined kinds");
    for (int i = 0; i < mc::param("depth", 5); ++i) {
      int op = mc::choose(12); if (op == 11) break;
      if (op < 7) { K k = log->QueryLogMessageKind(N[op]); MC_OP("QueryLogMessageKind(\"" << N[op] << "\") -> " << k); auto it = known.find(N[op]); if (it != known.end()) MC_CHECK(it->second == k, "stable", "kind \"" << N[op] << "\" has id " << k << ", before " << it->second); else { for (auto &x : known) MC_CHECK(x.second != k, "distinct", "kinds \"" << N[op] << "\" and \"" << x.first << "\" have the same id " << k); known[N[op]] = k; } }
      else if (op == 7) { K k = known.rbegin()->second; std::string msg = "m" + std::to_string(i); log->Log(sim.get(), msg.c_str(), k); MC_OP("Log " << msg << " as kind " << k); want += known.rbegin()->first + "|" + msg + ";"; }
      else if (op == 8) { log->Log(sim.get(), "u", 999); MC_OP("Log u as kind 999"); want += "\x01|u;"; }
      else if (op == 9) { MC_OP("Store"); MemWriter w; log->Store(&w); data = w.data; saved = known; stored = true; }
      else if (stored && mc::choose(3) == 2) { // the storage ends early: the restoration fails and changes nothing
        std::string part = data.substr(0, data.size() * static_cast<size_t>(mc::choose(4)) / 4 + static_cast<size_t>(mc::choose(2))); if (part.size() == data.size()) part.pop_back(); MC_OP("Restore from the first " << part.size() << " of " << data.size() << " bytes"); MemReader r(part); bool raised = false; try { log->Restore(&r); } catch (const Smp::Exception &) { raised = true; } MC_CHECK(raised, "truncated", "Restore from a truncated storage does not raise"); }
      else if (stored) { bool other = mc::flip(); MC_OP("Restore" << (other ? " into another logger" : "")); if (other) { log.reset(); sim = std::make_unique<Xsmp::Simulator>("sim", ""); fresh(); } MemReader r(data); log->Restore(&r); MC_CHECK(r.pos == data.size(), "bytes", "Restore leaves part of what Store has written"); known = saved; }
    } log.reset(); }
  MC_CHECK(glob(want.c_str(), o.str().c_str()), "text", "written: '" << show(o.str()) << "' instead of '" << show(want) << "' (\\x1: anything)"); mc::outcome(mc::hashStr(o.str()));
}
