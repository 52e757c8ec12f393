// C38: several threads log; every message reaches the console once, whole and in the order of its thread.
#include "logworld.h"
#include "rt.h"
#include <Xsmp/Services/XsmpTimeKeeper.h>
#include <atomic>
#include <map>
#include <thread>
using namespace lg;
using L = Smp::Services::ILogger;
namespace {
struct Out : std::streambuf { // another thread may come in between any two pieces
  std::string text; int_type overflow(int_type ch) override { { rt::Quiet q; text += static_cast<char>(ch); } rt::point("console"); return ch; } std::streamsize xsputn(const char *s, std::streamsize n) override { { rt::Quiet q; text.append(s, static_cast<size_t>(n)); } rt::point("console"); return n; }
};
struct World { std::unique_ptr<Xsmp::Simulator> sim{new Xsmp::Simulator("sim", "")}; Log log; explicit World(bool time) { if (time) addService<FixedTime>(*sim, "TimeKeeper"); log.make(sim.get()); } };
void judge(const std::string &got, int threads, const std::vector<std::vector<std::string>> &sent) {
  std::vector<size_t> next(static_cast<size_t>(threads), 0); std::string line; std::string trail;
  for (char ch : got) { if (ch != ';') { line += ch; continue; } bool ok = false; for (size_t t = 0; t < sent.size() && !ok; ++t) if (next[t] < sent[t].size() && sent[t][next[t]] == line) { ok = true; ++next[t]; trail += std::to_string(t); } MC_CHECK(ok, "intact", "the console receives '" << show(line) << "' in '" << show(got) << "'"); line.clear(); }
  MC_CHECK(line.empty(), "intact", "the console ends with '" << line << "'"); for (size_t t = 0; t < sent.size(); ++t) MC_CHECK(next[t] == sent[t].size(), "lost", "thread " << t << " logged " << sent[t].size() << " messages, " << next[t] << " are written: '" << show(got) << "'"); mc::outcome(mc::hashStr(trail)); mc::visit(mc::hashStr(trail));
}
}
MC_SCENARIO(producers) {
  int T = mc::param("threads", 2), n = mc::param("messages", 1); std::unique_ptr<Scratch> dir; std::unique_ptr<World> w; Out o; std::stringbuf e; std::unique_ptr<Capture> c; std::vector<std::vector<std::string>> sent(static_cast<size_t>(T)); std::vector<std::map<std::string, int>> ids(static_cast<size_t>(T));
  { rt::Quiet q; dir = std::make_unique<Scratch>(); bool simple = mc::param("simple", 0); dir->write("XsmpLogger.properties", std::string("log.rootLogger=a\nlog.appender.a=ConsoleAppender\nlog.appender.a.layout=PatternLayout\nlog.appender.a.layout.conversionPattern=%k:%m\\;\n")); (void)simple; c = std::make_unique<Capture>(&o, &e); }
  bool two = mc::param("loggers", 1) == 2; { rt::Quiet q; w = std::make_unique<World>(true); } std::unique_ptr<World> w2; if (two) { rt::Quiet q; w2 = std::make_unique<World>(true); }
  std::vector<std::thread> th; for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
    World &mine = two && t == 1 ? *w2 : *w;
    for (int i = 0; i < n; ++i) { Smp::Services::LogMessageKind k = L::LMK_Error; std::string name = "Error"; if (mc::param("kinds", 0)) { name = i == 0 ? "new" : "other" + std::to_string(t); k = mine.log->QueryLogMessageKind(name.c_str()); ids[static_cast<size_t>(t)][name] = k; }
      std::string msg = "t" + std::to_string(t) + "-" + std::to_string(i), line = name + ":" + msg; sent[static_cast<size_t>(t)].push_back(line); MC_OP("log " << msg); mine.log->Log(mine.sim.get(), msg.c_str(), k); } });
  for (auto &x : th) x.join(); MC_OP("the loggers are destroyed"); w.reset(); w2.reset(); rt::Quiet q; judge(o.text, T, sent);
  if (!two) { std::map<std::string, int> all; std::map<int, std::string> back; for (auto &m : ids) for (auto &x : m) { auto r = all.try_emplace(x.first, x.second); MC_CHECK(r.first->second == x.second, "stable", "kind \"" << x.first << "\" has the ids " << x.second << " and " << r.first->second); auto b = back.try_emplace(x.second, x.first); MC_CHECK(b.first->second == x.first, "distinct", "kinds \"" << x.first << "\" and \"" << b.first->second << "\" have the same id"); } }
  c.reset(); dir.reset();
}
// logged by the thread that destroys the logger; the writer thread is anywhere
MC_SCENARIO(shutdown) {
  std::unique_ptr<Scratch> dir; std::unique_ptr<World> w; Out o; std::stringbuf e; std::unique_ptr<Capture> c; { rt::Quiet q; dir = std::make_unique<Scratch>(); dir->write("XsmpLogger.properties", "log.rootLogger=a\nlog.appender.a=ConsoleAppender\nlog.appender.a.layout=PatternLayout\nlog.appender.a.layout.conversionPattern=%m\\;\n"); c = std::make_unique<Capture>(&o, &e); w = std::make_unique<World>(true); }
  int n = mc::choose(mc::param("messages", 1) + 2); std::vector<std::vector<std::string>> sent(1); for (int i = 0; i < n; ++i) { sent[0].push_back(std::to_string(i)); w->log->Log(w->sim.get(), sent[0].back().c_str(), L::LMK_Error); if (mc::flip()) rt::sleep(1); }
  w.reset(); rt::Quiet q; judge(o.text, 1, sent); c.reset(); dir.reset();
}
// the real services log and are asked for the time by the logger
MC_SCENARIO(services) {
  std::unique_ptr<Scratch> dir; Out o; std::stringbuf e; std::unique_ptr<Capture> c; std::unique_ptr<Xsmp::Simulator> sim; Xsmp::Services::XsmpLogger *log; Xsmp::Services::XsmpEventManager *em; Xsmp::Services::XsmpTimeKeeper *tk; EpModel *m; std::unique_ptr<Xsmp::EntryPoint> ep; std::atomic<int> calls{0};
  { rt::Quiet q; dir = std::make_unique<Scratch>(); dir->write("XsmpLogger.properties", "log.rootLogger=a\nlog.appender.a=ConsoleAppender\nlog.appender.a.levels=Error\nlog.appender.a.layout=PatternLayout\nlog.appender.a.layout.conversionPattern=%k:%m\\;\n"); c = std::make_unique<Capture>(&o, &e); sim = std::make_unique<Xsmp::Simulator>("sim", ""); tk = addService<Xsmp::Services::XsmpTimeKeeper>(*sim, "TimeKeeper"); em = addService<Xsmp::Services::XsmpEventManager>(*sim, "EM"); m = new EpModel("m", "", sim.get(), sim.get()); sim->AddModel(m); ep = std::make_unique<Xsmp::EntryPoint>("ep", "", m, [&] { ++calls; log->Log(m, "called", L::LMK_Debug); log->Log(m, "inside", L::LMK_Error); }); }
  { rt::Quiet q; log = addService<Xsmp::Services::XsmpLogger>(*sim, "Logger"); em->Subscribe(Smp::Services::IEventManager::SMP_EpochTimeChangedId, ep.get()); }
  int what = mc::choose(4); std::vector<std::vector<std::string>> sent{{"Error:mine"}, {}};
  std::thread a([&] { MC_OP("log"); log->Log(m, "mine", L::LMK_Error); }); std::thread b([&] { switch (what) { case 0: MC_OP("SetEpochTime"); tk->SetEpochTime(1000); break; case 1: { MC_OP("Emit"); em->Emit(Smp::Services::IEventManager::SMP_EpochTimeChangedId, true); break; } case 2: { MC_OP("QueryEventId"); em->QueryEventId("x"); break; } default: MC_OP("SetMissionTime"); tk->SetMissionTime(5); } });
  a.join(); b.join(); for (int i = 0; i < calls; ++i) sent[1].push_back("Error:inside"); rt::settle(); sim.reset(); rt::Quiet q; judge(o.text, 2, sent); MC_CHECK(what > 1 || calls == 1, "called", "the entry point is called " << calls << " times"); ep.reset(); c.reset(); dir.reset();
}
