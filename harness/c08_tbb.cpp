// C08 on the TBB pool (real threads, real schedules): every index once, all before the completion, on all shapes near the thread count.
#include "vs_common.hpp"
#include <stdexec/execution.hpp>
#include <exec/tbb/tbb_thread_pool.hpp>
namespace ex = stdexec;
namespace {
vs::Case make(vs::Gen& g) {
  int conc = g.range(1, 6), kind = (int) g.below(3), pol = (int) g.below(2), sty = (int) g.below(3); long shape = g.chance(50) ? g.range(0, 13) : g.range(0, 120); int thr = g.chance(25) && shape ? (int) g.below((uint32_t) shape) : -1, thr2 = thr >= 0 && g.chance(50) ? (int) g.below((uint32_t) shape) : -1; int pre = g.chance(10) ? g.range(1, 2) : 0; int ntask = g.range(0, 6);
  vs::Case c; static const char* kn[] = {"bulk", "bulk_chunked", "bulk_unchunked"}; c.desc = sfmt("TBB %s(%s) concurrency=%d shape=%ld type=%d throw-at=%d,%d predecessor=%d extra tasks=%d", kn[kind], pol ? "seq" : "par", conc, shape, sty, thr, thr2, pre, ntask);
  c.body = [=] {
    vs::nontrivial(shape > 1 && conc > 1 && !pre);
    static std::map<int, std::unique_ptr<exec::tbb::tbb_thread_pool>> pools; auto& pp = pools[conc]; if (!pp) pp = std::make_unique<exec::tbb::tbb_thread_pool>(conc); auto sch = pp->get_scheduler();
    std::vector<std::atomic<int>> hit((size_t) shape + 1); std::atomic<int> active{0}, finished{0}, thrown{0}, extra{0}; std::atomic<bool> bad{false};
    struct E { int k; };
    auto run = [&](auto shp) {
      using S = decltype(shp);
      auto visit = [&](long k) { if (k < 0 || k >= shape) vs::fail("index %ld outside [0, %ld)", k, shape); hit[(size_t) k]++; if (k == thr || k == thr2) { thrown++; throw E{(int) k}; } };
      auto one = [&, visit](S k, int& v) { if (finished) vs::fail("called after the completion"); if (v != 5) vs::fail("value not passed"); if (active++ && pol) vs::fail("calls under the sequenced policy overlap"); struct L { std::atomic<int>& a; ~L() { a--; } } l{active}; visit((long) k); };
      auto chunk = [&, visit](S b, S e, int& v) { if (finished) vs::fail("called after the completion"); if (v != 5) vs::fail("value not passed"); if (!(b < e)) vs::fail("empty chunk"); if (active++ && pol) vs::fail("calls under the sequenced policy overlap"); struct L { std::atomic<int>& a; ~L() { a--; } } l{active}; for (S k = b; k < e; k++) visit((long) k); };
      auto go = [&](auto pl) {
        struct PreOp { int k; }; 
        auto p = ex::let_value(ex::schedule(sch), [=] { return ex::then(ex::just(), [=] { if (pre) throw PreOp{pre}; return 5; }); });
        auto q = ex::continues_on(std::move(p), sch);
        auto tail = [&](auto s) {
          int ch = -1, val = -1, err = -1;
          try { auto r = ex::sync_wait(std::move(s)); finished = 1; ch = 0; val = std::get<0>(*r); } catch (E& e) { finished = 1; ch = 1; err = e.k; } catch (PreOp&) { finished = 1; ch = 2; }
          if (pre) { if (ch != 2) vs::fail("the predecessor's error is not passed on"); for (auto& h : hit) if (h) vs::fail("called after an error"); return; }
          if (thrown) { if (ch != 1 || (err != thr && err != thr2)) vs::fail("exception not delivered (channel %d, %d)", ch, err); }
          else { if (ch != 0 || val != 5) vs::fail("bulk did not complete with its value"); for (long k = 0; k < shape; k++) if (hit[(size_t) k] != 1) vs::fail("index %ld visited %d times", k, hit[(size_t) k].load()); if (thr >= 0) vs::fail("exception lost"); }
        };
        if (kind == 0) tail(ex::bulk(std::move(q), pl, shp, one)); else if (kind == 1) tail(ex::bulk_chunked(std::move(q), pl, shp, chunk)); else tail(ex::bulk_unchunked(std::move(q), pl, shp, one));
      };
      if (pol) go(ex::seq); else go(ex::par);
    };
    if (sty == 0) run((int) shape); else if (sty == 1) run((unsigned char) shape); else run((size_t) shape);
    for (int i = 0; i < ntask; i++) { auto r = ex::sync_wait(ex::then(ex::schedule(sch), [&] { extra++; return std::this_thread::get_id(); })); if (!r || std::get<0>(*r) == std::this_thread::get_id()) vs::fail("a task scheduled on the pool ran on the waiting thread"); }
    if (extra != ntask) vs::fail("scheduled task lost or repeated");
  };
  return c;
}
}
int main(int argc, char** argv) { return vs::run_main(argc, argv, {{"tbb", make, 1}}); }
