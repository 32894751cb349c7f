// Shared pieces of the schedule-fuzzing harnesses.
#pragma once
#include "vsched.h"
#include <atomic>
#include <functional>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <vector>
#include <string>
#include <map>
#include <deque>
#include <algorithm>
#include <cstdio>
#include <cstdarg>

// run the functions on one thread each, join all
inline void vs_threads(std::vector<std::function<void()>> fs) {
  std::vector<std::thread> t;
  t.reserve(fs.size());
  for (auto& f : fs) t.emplace_back([&f] { f(); });
  for (auto& x : t) x.join();
}
// bookkeeping value whose accesses are not race-checked (the runtime runs one thread at a time)
template <class T>
struct ghost {
  T v{};
  ghost() = default;
  explicit ghost(T x) : v(x) {}
  T get() const { vs::Ghost g; return v; }
  void set(T x) { vs::Ghost g; v = x; }
  T add(T x) { vs::Ghost g; v = v + x; return v; }
};
inline std::string sfmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string sfmt(const char* f, ...) {
  char b[512]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
