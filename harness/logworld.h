// The logger in a scratch directory, what it writes to the console and to files.
#pragma once
#include "mc.h"
#include "simenv.h"
#include <Smp/Services/ITimeKeeper.h>
#include <Xsmp/DateTime.h>
#include <Xsmp/Duration.h>
#include <Xsmp/Services/XsmpLogger.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
namespace lg {
struct FixedTime : public Xsmp::Service, public virtual Smp::Services::ITimeKeeper {
  using Xsmp::Service::Service; static constexpr Smp::Duration SIM = 5025000000123, MISSION = -61000000001; static constexpr Smp::DateTime EPOCH = 86400000000000, ZULU = 123456789012345678;
  Smp::Duration GetSimulationTime() const override { return SIM; } Smp::DateTime GetEpochTime() const override { return EPOCH; } Smp::DateTime GetMissionStartTime() const override { return EPOCH - MISSION; } Smp::Duration GetMissionTime() const override { return MISSION; } Smp::DateTime GetZuluTime() const override { return ZULU; }
  void SetSimulationTime(Smp::Duration) override {} void SetEpochTime(Smp::DateTime) override {} void SetMissionStartTime(Smp::DateTime) override {} void SetMissionTime(Smp::Duration) override {}
};
struct Log { // not registered: the simulator itself logs nothing
  std::unique_ptr<Smp::IService> owner; Xsmp::Services::XsmpLogger *p = nullptr; void make(Xsmp::Simulator *sim) { p = new Xsmp::Services::XsmpLogger("Logger", "", sim, sim); owner.reset(p); } Xsmp::Services::XsmpLogger *operator->() const { return p; } void reset() { owner.reset(); }
};
/// Current directory of this execution; holds XsmpLogger.properties
struct Scratch {
  std::string dir; std::vector<std::string> files;
  Scratch() { const char *base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp"; dir = std::string(base) + "/xsmp-c38-" + std::to_string(getpid()); mkdir(dir.c_str(), 0700); if (chdir(dir.c_str()) != 0) mc::error("no scratch directory " + dir); }
  ~Scratch() { for (auto &f : files) unlink((dir + "/" + f).c_str()); if (chdir("/") != 0) std::abort(); rmdir(dir.c_str()); }
  void write(const std::string &name, const std::string &text) { std::ofstream(name, std::ios::binary) << text; files.push_back(name); }
  std::string read(const std::string &name) { files.push_back(name); std::ifstream f(name, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
};
struct Capture { // std::cout and std::cerr
  std::streambuf *out, *err, *o, *e; explicit Capture(std::streambuf *a, std::streambuf *b) : o(std::cout.rdbuf(a)), e(std::cerr.rdbuf(b)) {} ~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); }
};
inline std::string show(const std::string &s) { std::string r; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (static_cast<unsigned char>(c) < 32) r += "\\x" + std::to_string(static_cast<int>(c)); else r += c; } return r; }
// What a layout prints, from its documentation. '\x01' stands for text that is not specified.
struct Rec { std::string sender, kind, msg; };
inline std::string unescaped(const std::string &s) { std::string r; static const std::string from = "abfnrtv", to = "\a\b\f\n\r\t\v"; for (size_t i = 0; i < s.size(); ++i) { if (s[i] != '\\') { r += s[i]; continue; } if (++i == s.size()) break; auto k = from.find(s[i]); r += k == std::string::npos ? s[i] : to[k]; } return r; }
template <class T> std::string stamp(const T &t, const std::string &fmt) { std::ostringstream o; t.to_stream(o, fmt.c_str()); return o ? o.str() : "\x01"; }
inline std::string expected(const std::string &pattern, const Rec &r) {
  std::string p = unescaped(pattern), s; size_t i = 0;
  while (i < p.size()) {
    if (p[i] != '%') { s += p[i++]; continue; }
    if (++i == p.size()) return s + "\x01"; char d = p[i++];
    switch (d) { case 'p': s += r.sender; break; case 'k': s += r.kind; break; case 'm': s += r.msg; break; case 'n': s += '\n'; break; case 't': s += '\t'; break; case '%': s += '%'; break;
    case 'd': case 'S': case 'E': case 'M': {
      std::string fmt; if (i < p.size() && p[i] == '{') { auto e = p.find('}', i); if (e == std::string::npos) return s + "\x01"; fmt = p.substr(i + 1, e - i - 1); i = e + 1; }
      if (fmt.empty()) { s += std::to_string(d == 'd' ? FixedTime::ZULU : d == 'S' ? FixedTime::SIM : d == 'E' ? FixedTime::EPOCH : FixedTime::MISSION); break; }
      s += d == 'd' ? stamp(Xsmp::DateTime(FixedTime::ZULU), fmt) : d == 'E' ? stamp(Xsmp::DateTime(FixedTime::EPOCH), fmt) : d == 'S' ? stamp(Xsmp::Duration(FixedTime::SIM), fmt) : stamp(Xsmp::Duration(FixedTime::MISSION), fmt); break; }
    default: s += '\x01'; } // no such directive
  }
  return s;
}
inline std::string simpleLayout(const Rec &r) { return stamp(Xsmp::Duration(FixedTime::SIM), "%T") + "\t" + r.sender + "\t" + r.kind + "\t" + r.msg + "\n"; }
inline bool glob(const char *p, const char *s) { for (; *p; ++p, ++s) { if (*p == '\x01') { while (p[1] == '\x01') ++p; for (const char *t = s;; ++t) { if (glob(p + 1, t)) return true; if (!*t) return false; } } if (*p != *s) return false; } return *s == 0; }
}
