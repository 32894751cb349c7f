// C08 under schedules: bulk on static_thread_pool, on a pool derived from thread_pool_base, and through task_scheduler.
#define C12_NO_MAIN
#include "c12_pool.cpp"
#include <exec/thread_pool_base.hpp>
namespace {
struct WPool : exec::thread_pool_base<WPool> {
  struct T final : VTask { exec::_pool_::task_base* t; uint32_t tid; void run() noexcept override { auto* tt = t; auto i = tid; delete this; tt->execute_(tt, i); } };
  std::vector<std::unique_ptr<Worker>> ws; std::atomic<uint32_t> next{0};
  explicit WPool(int n) { for (int i = 0; i < n; i++) ws.push_back(std::make_unique<Worker>()); }
  auto available_parallelism() const -> uint32_t { return (uint32_t) ws.size(); }
  static constexpr auto forward_progress_guarantee() { return ex::forward_progress_guarantee::parallel; }
  void enqueue(exec::_pool_::task_base* t, uint32_t tid = 0) noexcept { auto* x = new T; x->t = t; x->tid = tid; ws[next.fetch_add(1) % ws.size()]->post(x); }
};
vs::Case make_b(vs::Gen& g) {
  struct P { int pool, threads, shape, kind, pol, thr, thr2; bool destroy, two; size_t nb, bs; } p;
  p.pool = (int) g.below(4); p.threads = g.range(1, 3); p.shape = (int) g.below(9); p.kind = (int) g.below(3); p.pol = (int) g.below(3); p.thr = g.chance(30) && p.shape ? (int) g.below((uint32_t) p.shape) : -1; p.thr2 = p.thr >= 0 && g.chance(50) ? (int) g.below((uint32_t) p.shape) : -1; p.destroy = g.chance(50); p.two = g.chance(25); p.nb = 1u << g.below(2); p.bs = 1u << g.below(2);
  static const char* kn[] = {"bulk_chunked", "bulk_unchunked", "bulk"}; static const char* pn[] = {"static_thread_pool", "thread_pool_base pool", "task_scheduler(static_thread_pool)", "task_scheduler(thread_pool_base pool)"}; static const char* po[] = {"par", "seq", "par_unseq"};
  vs::Case c; c.desc = sfmt("%s(%s) on %s threads=%d shape=%d throw-at=%d,%d%s%s", kn[p.kind], po[p.pol], pn[p.pool], p.threads, p.shape, p.thr, p.thr2, p.destroy ? " destroy-in-completion" : "", p.two ? " two at once" : "");
  c.body = [p] {
    std::optional<Pool> sp; std::optional<WPool> wp; if (p.pool & 1) wp.emplace(p.threads); else sp.emplace((uint32_t) p.threads, exec::bwos_params{p.nb, p.bs});
    struct Run { Result R; std::vector<int> hit; ghost<int> active, done, thrown; }; std::vector<std::unique_ptr<Run>> runs; int nrun = p.two ? 2 : 1; ex::inplace_stop_source src;
    for (int i = 0; i < nrun; i++) { runs.push_back(std::make_unique<Run>()); runs.back()->hit.assign((size_t) p.shape, 0); }
    std::vector<std::function<void()>> fs;
    for (int i = 0; i < nrun; i++) fs.push_back([&, i] {
      Run* r = runs[(size_t) i].get();
      auto visit = [r, p](int k) { if (k < 0 || k >= p.shape) vs::fail("index %d outside [0, %d)", k, p.shape); if (r->hit[(size_t) k]++) vs::fail("index %d visited twice", k); if (k == p.thr || k == p.thr2) { r->thrown.set(1); throw VErr{k}; } };
      auto enter = [r, p](int v) { VS_ASSERT(!r->done.get(), "the function is called after the operation completed"); VS_ASSERT(v == 5, "the predecessor's value is not passed to the function"); if (r->active.add(1) > 1 && p.pol == 1) vs::fail("calls under the sequenced policy overlap"); vs::point(); };
      struct Leave { Run* r; ~Leave() { r->active.add(-1); } };
      auto one = [=](int k, int& v) { enter(v); Leave l{r}; visit(k); };
      auto chunk = [=](int b, int e, int& v) { enter(v); Leave l{r}; VS_ASSERT(b < e, "empty or reversed chunk"); for (int k = b; k < e; k++) visit(k); };
      auto fin = [&](auto s) {
        auto* box = make_op(std::move(s), Rcv<>{&r->R, src.get_token()});
        r->R.on_done = [r, p] { r->done.set(1); VS_ASSERT(r->active.get() == 0, "completed while a call is still running"); if (!r->thrown.get()) for (int k = 0; k < p.shape; k++) VS_ASSERT(r->hit[(size_t) k] == 1, "an index was not visited before the completion"); };
        if (p.destroy) r->R.after = [box] { delete box; };
        ex::start(box->op); r->R.wait(); if (!p.destroy) delete box;
      };
      auto pol = [&](auto sch, auto pl) { auto pre = ex::then(ex::schedule(sch), []() noexcept { return 5; }); if (p.kind == 0) fin(ex::bulk_chunked(std::move(pre), pl, p.shape, chunk)); else if (p.kind == 1) fin(ex::bulk_unchunked(std::move(pre), pl, p.shape, one)); else fin(ex::bulk(std::move(pre), pl, p.shape, one)); };
      auto on = [&](auto sch) { if (p.pol == 0) pol(sch, ex::par); else if (p.pol == 1) pol(sch, ex::seq); else pol(sch, ex::par_unseq); };
      if (p.pool == 0) on(sp->get_scheduler()); else if (p.pool == 1) on(wp->get_scheduler()); else if (p.pool == 2) on(ex::task_scheduler{sp->get_scheduler()}); else on(ex::task_scheduler{wp->get_scheduler()});
      if (!r->thrown.get()) { VS_ASSERT(r->R.chan.get() == CH_VALUE); VS_ASSERT(r->R.vals.size() == 1 && r->R.vals[0] == 5, "bulk does not forward the predecessor's values"); VS_ASSERT(p.thr < 0); }
      else { VS_ASSERT(r->R.chan.get() == CH_ERROR, "an exception was thrown but bulk did not complete with set_error"); VS_ASSERT(r->R.err.get() == p.thr || r->R.err.get() == p.thr2, "wrong exception"); }
    });
    vs_threads(std::move(fs));
  };
  return c;
}
}
int main(int argc, char** argv) { return exec::nodemask::any(), vs::run_main(argc, argv, {{"bulk", make_b, 3}, {"poolbulk", make_bulk, 1}}); }
