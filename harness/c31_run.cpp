// C31: what is posted is executed, in order, at its time.
#include "sched_world.h"
using namespace sched;
MC_SCENARIO(posts) { // posts in Standby, run; events post others and hold
  World w(mc::param("hooks", 0) != 0); w.opset = mc::param("opset", 0); int n = mc::param("posts", 2), runs = mc::param("runs", 2); mc::context("post");
  for (int r = 0; r < runs; ++r) { if (r == 0 || mc::param("between", 0)) for (int i = 0; i < (r == 0 ? n : 1); ++i) w.post1(); mc::context("run"); w.budget = r == 0 ? mc::param("inside", 1) : mc::param("later", 0); const D d[] = {2, 0, 1, 4}; w.run(d[mc::choose(mc::param("durations", 3))]); mc::outcome(mc::hashStr(w.trail)); }
}
MC_SCENARIO(shifts) { // epoch and mission time change while events are pending
  World w(mc::param("hooks", 0) != 0); w.opset = mc::param("shiftset", 3); w.shifts = true; int n = mc::param("posts", 2); mc::context("post"); for (int i = 0; i < n; ++i) w.post1();
  for (int i = 0; i < mc::param("before", 1); ++i) { mc::context("change of time"); if (mc::flip()) w.shift(); } w.budget = mc::param("inside", 1); mc::context("run"); w.run(2); w.run(3); mc::outcome(mc::hashStr(w.trail));
}
