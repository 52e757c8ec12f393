// Storage streams kept in memory, which can run out or fail at a chosen point.
#pragma once
#include <Smp/Exception.h>
#include <Smp/IStorageReader.h>
#include <Smp/IStorageWriter.h>
#include <Xsmp/Exception.h>
#include <cstring>
#include <string>
#include <vector>
struct MemWriter : Smp::IStorageWriter {
  std::string data; std::size_t limit = ~std::size_t(0); std::vector<std::size_t> cuts;
  void Store(void *a, Smp::UInt64 n) override { if (data.size() + n > limit) { data.append(static_cast<char *>(a), limit - data.size()); Xsmp::Exception::throwException(nullptr, "StorageFull", "", "out of space"); } if (n) data.append(static_cast<char *>(a), n); cuts.push_back(data.size()); }
  Smp::String8 GetStateVectorFileName() const override { return "mem"; }
  Smp::String8 GetStateVectorFilePath() const override { return "mem.d"; }
};
struct MemReader : Smp::IStorageReader {
  const std::string &data; std::size_t pos = 0; bool fails = true; long reads = 0;
  explicit MemReader(const std::string &d) : data(d) {}
  // at the end of the data: raises, or (fails=false) gives what is left like a short read would, and leaves the rest
  void Restore(void *a, Smp::UInt64 n) override {
    ++reads; if (n > data.size() - pos) { if (data.size() > pos) std::memcpy(a, data.data() + pos, data.size() - pos); pos = data.size(); if (fails) Xsmp::Exception::throwException(nullptr, "StorageEnd", "", "end of storage"); return; }
    if (n) std::memcpy(a, data.data() + pos, n); pos += n;
  }
  Smp::String8 GetStateVectorFileName() const override { return "mem"; }
  Smp::String8 GetStateVectorFilePath() const override { return "mem.d"; }
};
