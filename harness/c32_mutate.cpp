// C32: changes of an event apply to that event only, from then on, whenever they are made.
#include "sched_world.h"
using namespace sched;
MC_SCENARIO(changes) {
  World w(mc::param("hooks", 0) != 0); w.opset = mc::param("opset", 0); w.mutate = true; int n = mc::param("posts", 2); mc::context("post"); for (int i = 0; i < n; ++i) w.post1(); if (mc::param("zulu", 0)) w.post_(Zulu, 0, 1, 0, 0);
  for (int i = 0; i < mc::param("before", 1); ++i) { mc::context("change in standby"); w.mutation(); } w.budget = mc::param("inside", 0); mc::context("run"); w.run(2);
  for (int i = 0; i < mc::param("between", 0); ++i) { mc::context("change in standby"); w.mutation(); } w.budget = mc::param("later", 0); mc::context("run again"); w.run(2); mc::outcome(mc::hashStr(w.trail));
}
