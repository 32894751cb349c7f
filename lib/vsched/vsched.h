// vsched - schedule fuzzing runtime (see vsched.cpp). Included by instrumented harnesses.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace vs {
  // Generator of scenario parameters: an integer choice sequence that is recorded, replayed, shrunk.
  struct Gen {
    uint64_t s = 0;                    // PRNG state
    std::vector<uint32_t> rec;         // choices made
    const std::vector<uint32_t>* replay = nullptr;
    size_t pos = 0;
    uint32_t below(uint32_t n);        // 0..n-1, 0 is the simplest
    int range(int lo, int hi) { return lo + (int) below((uint32_t) (hi - lo + 1)); }
    bool chance(int pct) { return below(100) >= (uint32_t) (100 - pct); }
    template <class T> T pick(std::initializer_list<T> l) { return l.begin()[below((uint32_t) l.size())]; }
  };

  // What a scenario generator returns.
  struct Case {
    std::function<void()> body;        // executed as logical thread 0 under the scheduler
    std::string desc;                  // printable description of the parameters
  };

  struct Scenario {
    const char* name;
    Case (*make)(Gen&);
    int weight = 1;
  };

  // Called from inside an execution (instrumented code).
  [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
  void label(const char* l);           // classify this execution (counted in the evidence)
  uint32_t choose(uint32_t n);         // in-execution choice, part of the schedule; 0 = default
  uint64_t now_ns();                   // virtual time
  uint32_t time_jumps();               // timeouts that fired although some thread could run; 0: time passed only while every thread was blocked
  size_t live_allocs();                // arena blocks currently allocated
  size_t stack_used();                 // bytes between the thread's stack top and the current frame
  void point();                        // explicit scheduling point
  void nontrivial(bool);               // overrides the non-triviality of this case
  bool active();
  int tid();
  void set_no_leak_check();
  // Ghost state: plain accesses inside the guard are not checked for data races.
  struct Ghost { Ghost(); ~Ghost(); Ghost(const Ghost&) = delete; };
  void idle(int n);                    // let others run (n scheduling points with forced yields)

  int run_main(int argc, char** argv, const std::vector<Scenario>& sc);
}
#define VS_ASSERT(c, ...) do { if (!(c)) ::vs::fail("assertion failed: " #c " " __VA_ARGS__); } while (0)
