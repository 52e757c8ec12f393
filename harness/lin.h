// Is a concurrent history explained by some order of its calls that respects real time?
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace lin {
struct Span { long from = 0, to = 0; }; // a call takes effect somewhere within
// apply(state, i): performs call i on the state and says whether its recorded result fits
template <class State> bool explain(const State &s, const std::vector<Span> &c, const std::function<bool(State &, size_t)> &apply, unsigned done = 0) {
  if (done == (1u << c.size()) - 1) return true;
  for (size_t i = 0; i < c.size(); ++i) if (!(done >> i & 1)) {
    bool first = true; for (size_t j = 0; j < c.size(); ++j) if (!(done >> j & 1) && j != i && c[j].to < c[i].from) first = false;
    if (!first) continue;
    State t = s; if (apply(t, i) && explain<State>(t, c, apply, done | 1u << i)) return true;
  }
  return false;
}
}
