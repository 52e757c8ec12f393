// C41: after Store, anything else and Restore the scheduler does what it would have done at the store.
#include "sched_world.h"
using namespace sched;
namespace {
struct Saved { std::string sch, tk; State s; D epochOff, missionOff, now; std::vector<Id> ids; };
Saved store(World &w) {
  mc::context("store"); MC_OP("Store at " << w.clock()); Saved v; MemWriter a, b; bool first = mc::param("orders", 0) && mc::flip(); if (first) w.tk->Store(&b); w.sch->Store(&a); if (!first) w.tk->Store(&b); v.sch = a.data; v.tk = b.data; v.s = w.s; v.epochOff = w.epochOff; v.missionOff = w.missionOff; v.now = w.clock(); v.ids = w.ids;
  w.query(); return v;
}
void restore(World &w, const Saved &v) {
  mc::context("restore"); bool first = mc::flip(); MC_OP("Restore " << (first ? "(time keeper first)" : "(scheduler first)")); MemReader a(v.sch), b(v.tk); if (first) w.tk->Restore(&b); w.sch->Restore(&a); if (!first) w.tk->Restore(&b);
  MC_CHECK(a.pos == v.sch.size() && b.pos == v.tk.size(), "bytes", "Restore leaves part of what Store has written"); w.s = v.s; w.epochOff = v.epochOff; w.missionOff = v.missionOff; w.now = v.now; w.ids = v.ids; w.budget = 0; MC_CHECK(w.clock() == v.now, "time", "after Restore the simulation time is " << w.clock() << " instead of " << v.now); w.query();
}
void disturb(World &w, int n) {
  for (int i = 0; i < n; ++i) switch (mc::choose(4)) { case 0: w.mutation(); break; case 1: w.post1(); break; case 2: w.budget = mc::param("disturbinside", 0); w.run(mc::choose(2) + 1); w.budget = 0; break; default: w.shift(); break; }
}
// in the simulation that was stored, or in another one that is composed alike
void history(bool fresh) {
  auto wp = std::make_unique<World>(mc::param("hooks", 0) != 0); auto prepare = [&] { wp->opset = mc::param("opset", 0); }; prepare(); int n = mc::param("posts", 2); mc::context("post"); for (int i = 0; i < n; ++i) wp->post1(); if (mc::param("zulu", 0)) wp->post_(Zulu, 0, 1, 0, 0);
  wp->mutate = true; for (int i = 0; i < mc::param("before", 0); ++i) wp->mutation();
  if (mc::param("run", 1)) { mc::context("run"); wp->budget = mc::param("inside", 0); int d = mc::choose(mc::param("durations", 3)); if (d) wp->run(d); wp->budget = 0; } // stop in the middle of an instant with inside > 0
  Saved v = store(*wp);
  if (fresh) { wp.reset(); wp = std::make_unique<World>(mc::param("hooks", 0) != 0); prepare(); wp->mutate = true; for (int i = mc::choose(3); i > 0; --i) wp->post_(Sim, 0, 1, 0, 0); if (mc::flip()) wp->run(1); wp->trail = "fresh "; }
  else { mc::context("continue"); disturb(*wp, mc::param("disturb", 1)); }
  restore(*wp, v); if (mc::param("again", 0)) { disturb(*wp, 1); restore(*wp, v); }
  mc::context("run after restore"); wp->trail += "|"; if (fresh) wp->post_(Sim, 0, 1, 0, 0); for (int i = 0; i < mc::param("after", 0); ++i) wp->mutation(); wp->budget = mc::param("later", 0); wp->run(2); wp->run(2); mc::outcome(mc::hashStr(wp->trail));
}
}
MC_SCENARIO(continued) { history(false); }
MC_SCENARIO(fresh) { history(true); }
