// C38: every pattern over an alphabet of directives and fragments, valid or not; every configuration built from fragments.
#include "logworld.h"
#include <regex>
using namespace lg;
using L = Smp::Services::ILogger;
namespace {
struct World {
  Xsmp::Simulator sim{"sim", ""}; Log log; EpModel *m, *sub; // not registered: the simulator logs nothing itself
  World() { addService<FixedTime>(sim, "TimeKeeper"); log.make(&sim); m = new EpModel("m", "", &sim, &sim); sim.AddModel(m); sub = new EpModel("other", "", &sim, &sim); sim.AddModel(sub); }
};
}
MC_SCENARIO(pattern) {
  static const char *const T[] = {"%", "d", "{", "}", "%T", "%m", "%S", "\\", "m", "{%F}", "n", "%E", "%k", "%M", "%p", "%t", "%n", "%%", "%q", "{%F %T}", "{%T}", "{%Q%q}", "%d{%Y-%j}", "\\n", "\\a\\b\\f\\r\\v\\t\\?\\\"", "\\x", " ", "\\\\", "\\'", "{%Z}", "x"};
  static const int N = sizeof T / sizeof *T; int len = mc::param("len", 3), limit = std::min(N, mc::param("tokens", N)); std::string pattern; for (int i = 0; i < len; ++i) { int k = mc::choose(limit + 1); if (k == limit) break; pattern += T[k]; }
  MC_OP("conversionPattern '" << pattern << "'"); while (!pattern.empty() && pattern.back() == ' ') pattern.pop_back(); while (!pattern.empty() && pattern[0] == ' ') pattern.erase(0, 1); // a properties line is trimmed
  Scratch dir; bool file = mc::param("file", 0) && mc::flip(); dir.write("XsmpLogger.properties", std::string("log.rootLogger=a\nlog.appender.a=") + (file ? "FileAppender\nlog.appender.a.File=out.log\n" : "ConsoleAppender\n") + "log.appender.a.layout=PatternLayout\nlog.appender.a.layout.conversionPattern=" + pattern + "\n");
  std::stringbuf o, e; Capture c(&o, &e); Rec r{"/m", "Error", "x%d{y}\\n"}; { World w; for (int i = 0; i < 3; ++i) w.log->Log(w.m, r.msg.c_str(), L::LMK_Error); }
  std::string got = file ? dir.read("out.log") : o.str(), x = expected(pattern, r); MC_OP(" writes '" << show(got) << "'");
  MC_CHECK(got.size() % 3 == 0 && got.substr(0, got.size() / 3) == got.substr(got.size() / 3, got.size() / 3) && got.substr(0, got.size() / 3) == got.substr(got.size() / 3 * 2), "complete", "three equal messages are written as '" << show(got) << "'");
  MC_CHECK(glob(x.c_str(), got.substr(0, got.size() / 3).c_str()), "pattern", "pattern '" << show(pattern) << "' writes '" << show(got.substr(0, got.size() / 3)) << "' instead of '" << show(x) << "' (\\x1: anything)"); mc::outcome(mc::hashStr(x));
}
namespace {
const char *pickOf(std::initializer_list<const char *> l) { int k = mc::choose(static_cast<int>(l.size())); return *(l.begin() + k); }
bool has(const char *v) { return v[0] != '-'; }
struct App { const char *cls, *layout, *pattern, *levels, *path, *file; };
std::string trimmed(std::string s) { while (!s.empty() && isspace(static_cast<unsigned char>(s.back()))) s.pop_back(); while (!s.empty() && isspace(static_cast<unsigned char>(s[0]))) s.erase(0, 1); return s; }
std::vector<std::string> names(const std::string &s) { std::vector<std::string> r; std::stringstream i(s); for (std::string t; std::getline(i, t, ',');) if (!trimmed(t).empty()) r.push_back(trimmed(t)); return r; }
bool in(const std::vector<std::string> &v, const std::string &s) { for (auto &x : v) if (x == s) return true; return false; }
}
MC_SCENARIO(configuration) { // "-": no such line
  int group = mc::choose(4); bool none = group == 3 && mc::flip(); const char *root = none ? "-" : group == 0 ? pickOf({"a,b", "b,a", "a", " a , b ", "a,,b", "a,b,", "missing", "", "a,missing,b", "-"}) : "a,b"; App a{"ConsoleAppender", "-", "-", "-", "-", "a.log"}, b{"FileAppender", "SimpleLayout", "-", "-", "-", "b.log"}; App *apps[] = {&a, &b};
  static const char *const SHORT = "%k %m%n";
  if (group == 0) { a.cls = pickOf({"ConsoleAppender", "FileAppender", "Bogus", "-", ""}); b.cls = pickOf({"FileAppender", "ConsoleAppender", "Bogus", "-"}); a.layout = pickOf({"SimpleLayout", "PatternLayout", "-"}); a.pattern = pickOf({SHORT, "-"}); }
  if (group == 1) { App &x = mc::flip() ? b : a; x.layout = pickOf({"PatternLayout", "SimpleLayout", "-", "Bogus", "", "simplelayout"}); x.pattern = pickOf({SHORT, "-", "%S %p %k %m\\n", "", "%S{%F}%m%n"}); x.file = pickOf({"b.log", "-", "nodir/x.log", "with space.log"}); x.cls = pickOf({"FileAppender", "ConsoleAppender"}); }
  if (group == 2) { a.layout = "PatternLayout"; a.pattern = SHORT; b.layout = "PatternLayout"; b.pattern = SHORT; for (App *x : apps) { x->levels = pickOf({"-", "Error", "Error,Warning", " Error , Debug ", "Bogus", "mine,", "Information,Event,Warning,Error,Debug,mine"}); x->path = pickOf({"-", ".*", "/m", "/other", "m", "\\\\/m", "[", "/.*|<null>", "(a*)*"}); } }
  // how it is written down
  int style = mc::choose(6); std::string text; auto line = [&](const std::string &k, const char *v) { if (!has(v)) return; text += style == 1 ? "  " + k + " = " + v + "  " : style == 2 ? "# " + k + "=nothing\n\n" + k + "=" + v : style == 3 ? k + "=" + v + "\r" : style == 4 ? "no delimiter\n=\n=x\n" + k + "=" + v : k + "=" + v; text += "\n"; };
  std::string body; if (style == 5) text += "log.appender=x\nlog=y\nlog.appender.a.layout.conversionPattern.x=z\nother.rootLogger=b\n"; 
  if (!none) { line("log.rootLogger", root); const char *n[] = {"a", "b"}; for (int i = 0; i < 2; ++i) { std::string p = std::string("log.appender.") + n[i]; App &x = *apps[i]; line(p, x.cls); line(p + ".layout", x.layout); line(p + ".layout.conversionPattern", x.pattern); line(p + ".levels", x.levels); line(p + ".path", x.path); line(p + ".File", x.file); } }
  bool noFile = none && mc::flip(); Scratch dir; if (!noFile) dir.write("XsmpLogger.properties", text); MC_OP((noFile ? "no properties file" : "XsmpLogger.properties:\n" + text));
  std::vector<Rec> recs; std::stringbuf o, e; Capture c(&o, &e); {
    World w; auto log = [&](const Smp::IObject *s, const char *path, Smp::Services::LogMessageKind k, const char *kind, const char *msg) { w.log->Log(s, msg, k); recs.push_back({path, kind, msg}); };
    auto mine = w.log->QueryLogMessageKind("mine"); log(w.m, "/m", L::LMK_Information, "Information", "one"); log(w.sub, "/other", L::LMK_Error, "Error", "two"); log(w.m, "/m", mine, "mine", "three"); log(w.m, "/m", L::LMK_Event, "Event", ""); log(w.sub, "/other", L::LMK_Warning, "Warning", "five"); log(w.m, "/m", L::LMK_Debug, "Debug", "six"); log(w.m, "/m", L::LMK_Error, "Error", "seven"); log(&w.sim, "/", L::LMK_Error, "Error", "eight");
  }
  static const char *const DEFAULT = "%d{%F %T}%t%S%t%p%t%k%t%m%n";
  auto layout = [&](const App &x, const Rec &r) -> std::string { std::string l = x.layout; if (!has(x.layout) || l == "PatternLayout") return expected(has(x.pattern) ? trimmed(x.pattern) : DEFAULT, r); if (l == "SimpleLayout") return simpleLayout(r); return "\x01"; };
  auto admits = [&](const App &x, const Rec &r) { auto lv = names(has(x.levels) ? x.levels : ""); if (!lv.empty() && !in(lv, r.kind)) return false; if (!has(x.path)) return true; try { return std::regex_match(r.sender, std::regex(unescaped(x.path), std::regex::ECMAScript)); } catch (const std::regex_error &) { return true; } };
  std::string console, files[2]; std::string rootName = root;
  if (none || !has(root)) { App d{"ConsoleAppender", "-", "-", "-", "-", "-"}; for (auto &r : recs) console += layout(d, r); }
  else for (auto &r : recs) for (auto &n : names(root)) { int i = n == "a" ? 0 : n == "b" ? 1 : -1; if (i < 0) continue; App &x = *apps[i]; if (!admits(x, r)) continue; if (std::string(x.cls) == "ConsoleAppender") console += layout(x, r); else if (std::string(x.cls) == "FileAppender") files[i] += layout(x, r); }
  MC_OP("console: " << show(o.str())); MC_CHECK(glob(console.c_str(), o.str().c_str()), "console", "the console receives '" << show(o.str()) << "' instead of '" << show(console) << "' (\\x1: anything)");
  std::string where[2]; for (int i = 0; i < 2; ++i) where[i] = has(apps[i]->file) ? trimmed(apps[i]->file) : "simulator.log"; bool same = where[0] == where[1] && std::string(a.cls) == "FileAppender" && std::string(b.cls) == "FileAppender"; // two outputs into one file: not specified
  if (!same) for (int i = 0; i < 2; ++i) { if (where[i] == where[1 - i] && files[i].empty()) continue; if (where[i].find('/') != std::string::npos) continue; std::string got = dir.read(where[i]); MC_OP(where[i] << ": " << show(got)); MC_CHECK(glob(files[i].c_str(), got.c_str()), "file", "file " << where[i] << " holds '" << show(got) << "' instead of '" << show(files[i]) << "' (\\x1: anything)"); }
  dir.files.push_back("simulator.log"); for (int i = 0; i < 2; ++i) dir.files.push_back(where[i]); mc::outcome(mc::hashStr(console + "|" + files[0] + "|" + files[1]));
}
