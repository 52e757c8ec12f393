// C20: the storage file gives back exactly the blocks written to it, and reports when it cannot.
#include "mc.h"
#include <Smp/CannotRestore.h>
#include <Smp/CannotStore.h>
#include <Smp/Exception.h>
#include <Xsmp/StorageReader.h>
#include <Xsmp/StorageWriter.h>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <memory>
#include <unistd.h>
namespace fs = std::filesystem;
namespace {
struct Scratch { std::string dir; fs::path old; Scratch() { char t[] = "/tmp/c20filesXXXXXX"; dir = mkdtemp(t); old = fs::current_path(); fs::current_path(dir); } ~Scratch() { fs::current_path(old); std::error_code e; if (dir.rfind("/tmp/c20files", 0) == 0) fs::remove_all(dir, e); } };
const size_t SIZES[] = {0, 1, 3, 8, 300, 9000, 70000};
unsigned char byteAt(size_t i) { return static_cast<unsigned char>((i * 131 + 7) >> 1); }
struct Form { const char *path; bool absolute; const char *what; bool ok; };
const Form FORMS[] = {{"d", false, "relative", true}, {"d/e/f", false, "nested", true}, {"d/", false, "trailing slash", true}, {"", false, "empty", true}, {nullptr, false, "null", true}, {"abs", true, "absolute", true}, {"plain", false, "below a file", false}, {"plain/x", false, "far below a file", false}};
}
MC_SCENARIO(storage) {
  Scratch sc; { std::ofstream("plain") << "x"; }
  const Form &f = FORMS[mc::choose(8)]; std::string abs = sc.dir + "/" + (f.path ? f.path : ""); const char *path = f.absolute ? abs.c_str() : f.path; int pre = f.ok ? mc::choose(3) : 0; // nothing, a directory, a longer file
  mc::context(f.what);
  if (pre) { fs::create_directories(f.path && *f.path ? f.path : "."); if (pre == 2) std::ofstream(fs::path(f.path ? f.path : "") / "state.bin") << std::string(200000, 'q'); }
  const int n = f.ok ? 1 + mc::choose(static_cast<int>(mc::param("blocks", 3))) : 1; std::vector<size_t> sz; size_t total = 0; for (int i = 0; i < n; ++i) { sz.push_back(SIZES[mc::choose(7)]); total += sz.back(); }
  std::string all(total, 0); for (size_t i = 0; i < total; ++i) all[i] = static_cast<char>(byteAt(i));
  MC_OP("write " << n << " blocks, " << total << " bytes, path " << f.what << ", before: " << pre);
  try {
    Xsmp::StorageWriter w(path, "state.bin"); MC_CHECK(f.ok, "unwritable", "a storage " << f.what << " is opened");
    MC_CHECK(std::string(w.GetStateVectorFileName()) == "state.bin" && std::string(w.GetStateVectorFilePath()) == (path ? path : ""), "names", "file name " << w.GetStateVectorFileName() << " path " << w.GetStateVectorFilePath());
    size_t at = 0; for (auto s : sz) { std::string b = all.substr(at, s); w.Store(b.data(), s); at += s; }
  } catch (const Smp::CannotStore &) { MC_CHECK(!f.ok, "refused:" + std::string(f.what), "a storage " << f.what << " is refused"); }
  catch (const std::exception &e) { mc::fail("foreign:" + std::string(f.what), std::string("a storage ") + f.what + " raises an exception that is not CannotStore: " + e.what()); }
  if (!f.ok) { try { Xsmp::StorageReader r(path, "state.bin"); mc::fail("unreadable", "a missing storage is opened"); } catch (const Smp::CannotRestore &) {} return; }
  int mode = mc::choose(4); fs::path file = fs::path(path ? path : "") / "state.bin"; size_t keep = total;
  if (mode == 1 && total) { const size_t c[] = {0, 1, total / 2, total - 1}; keep = c[mc::choose(4)]; fs::resize_file(file, keep); } else if (mode == 2) { MC_OP("other file"); try { Xsmp::StorageReader r(path, "other.bin"); mc::fail("missing", "a missing file is opened"); } catch (const Smp::CannotRestore &) {} return; } else if (mode == 3) { keep = total; } else if (mode) return;
  std::string onDisk; { std::ifstream i(file, std::ios::binary); onDisk.assign(std::istreambuf_iterator<char>(i), {}); } MC_CHECK(onDisk == all.substr(0, keep), "bytes", "the file has " << onDisk.size() << " bytes, or others than written; expected " << keep);
  Xsmp::StorageReader r(path, "state.bin"); size_t at = 0; MC_OP("read back from " << keep << " bytes"); MC_CHECK(std::string(r.GetStateVectorFileName()) == "state.bin" && std::string(r.GetStateVectorFilePath()) == (path ? path : ""), "names", "reader names");
  for (auto s : sz) {
    std::string b(s + 2, 'g'); bool t = false; try { r.Restore(b.data() + 1, s); } catch (const Smp::CannotRestore &) { t = true; }
    MC_CHECK(b[0] == 'g' && b[s + 1] == 'g', "guard", "Restore wrote outside the block"); MC_CHECK(t == (at + s > keep), "truncated", "block of " << s << " at " << at << " of " << keep << (t ? ": refused" : ": not reported"));
    if (t) return; MC_CHECK(b.substr(1, s) == all.substr(at, s), "content", "block of " << s << " at " << at << " differs"); at += s;
  }
  if (mode == 3) { char c[4] = {'g', 'g', 'g', 'g'}; for (int k = 0; k < 2; ++k) { bool t = false; try { r.Restore(c + 1, 1); } catch (const Smp::CannotRestore &) { t = true; } MC_CHECK(t && c[0] == 'g' && c[2] == 'g', "past the end", "a read past the end is not reported"); } }
}
