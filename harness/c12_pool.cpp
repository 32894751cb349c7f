// C12: static_thread_pool - every task exactly once, on a pool thread (the given one when pinned), stop, no task left behind, clean shutdown.
#include "vs_senders.hpp"
#include <exec/static_thread_pool.hpp>
#include <exec/sequence/ignore_all_values.hpp>
#include <exec/sequence/transform_each.hpp>
#include <ranges>
namespace {
using Pool = exec::static_thread_pool; using Sch = Pool::scheduler;
struct World;
struct Spec { int pin; int stop; bool destroy, own_sched, cons, strict = false; std::vector<int> kids; int bulk = -1; };
struct Task; struct TRcv { using receiver_concept = ex::receiver_t; Task* t; void set_value() noexcept; void set_stopped() noexcept; REnv<> get_env() const noexcept; };
using Op = ex::connect_result_t<decltype(ex::schedule(std::declval<Sch>())), TRcv>;
struct World {
  std::unique_ptr<Pool> pool; std::vector<Spec> spec; std::vector<std::unique_ptr<Task>> tasks; int nclients, left; ghost<int> done; std::mutex m; std::condition_variable cv; ghost<int> pool_tid[8];
  exec::nodemask all;
};
struct Task {
  World* w; int id; Spec s; ex::inplace_stop_source src; int data = 0; ghost<int> n, begun; std::optional<Op> op;
  struct Conv { Task* t; Sch s; operator Op() { return ex::connect(ex::schedule(s), TRcv{t}); } };
  void start(Sch given) {
    Sch sch = s.pin >= 0 ? w->pool->get_scheduler_on_thread((size_t) s.pin) : s.cons ? w->pool->get_constrained_scheduler(&w->all) : s.own_sched ? w->pool->get_scheduler() : given;
    op.emplace(Conv{this, sch}); data = 7 + id; if (s.stop == 1) { begun.set(1); src.request_stop(); }
    ex::start(*op);
  }
  void complete(int ch) {
    VS_ASSERT(n.add(1) == 1, "task executed twice"); VS_ASSERT(data == 7 + id, "data written before start is not visible to the task");
    VS_ASSERT(vs::tid() > 0 && vs::tid() <= (int) w->pool->available_parallelism(), "task ran on a thread that is not a pool thread");
    // pool threads are created in index order, so logical thread k+1 is pool thread k
    if (s.pin >= 0 && s.strict && vs::tid() != s.pin + 1) vs::fail("task scheduled through get_scheduler_on_thread was stolen by another pool thread");
    if (s.stop == 0) VS_ASSERT(ch == CH_VALUE, "set_stopped although stop was never requested");
    if (s.stop == 1) VS_ASSERT(ch == CH_STOPPED, "set_value although stop was requested before start");
    if (s.stop == 2 && ch == CH_STOPPED) VS_ASSERT(begun.get(), "set_stopped before stop was requested");
    auto kids = s.kids; World* W = w; Sch sch = W->pool->get_scheduler(); if (s.destroy) op.reset();
    for (int k : kids) W->tasks[(size_t) k]->start(sch);
    std::unique_lock l(W->m); if (--W->left == 0) W->cv.notify_all();
  }
};
void TRcv::set_value() noexcept { t->complete(CH_VALUE); } void TRcv::set_stopped() noexcept { t->complete(CH_STOPPED); } REnv<> TRcv::get_env() const noexcept { return {t->src.get_token()}; }
vs::Case make(vs::Gen& g) {
  struct P { int threads, clients; size_t nb, bs; std::vector<Spec> s; std::vector<std::vector<int>> roots; bool req_stop, pre_sleep; } p;
  p.threads = g.range(1, 3); p.clients = g.range(1, 2); p.nb = 1u << g.below(3); p.bs = 1u << g.below(3); p.req_stop = g.chance(30); p.pre_sleep = g.chance(40);
  bool strict = g.below(400) == 399; int n = g.range(1, 7); p.roots.resize(p.clients);
  std::string d;
  for (int i = 0; i < n; i++) {
    Spec s; s.pin = g.chance(25) ? (int) g.below(p.threads) : -1; s.stop = g.chance(25) ? g.range(1, 2) : 0; s.destroy = g.chance(40); s.own_sched = g.chance(40); s.cons = g.chance(15); s.strict = strict;
    int parent = i > 0 && g.chance(60) ? (int) g.below(i) : -1; int cl = (int) g.below(p.clients);
    if (parent >= 0) p.s[(size_t) parent].kids.push_back(i); else p.roots[(size_t) cl].push_back(i);
    d += sfmt(" %d(%s%d%s%s%s%s)", i, parent >= 0 ? "child of " : "client ", parent >= 0 ? parent : cl, s.pin >= 0 ? sfmt(" pin%d", s.pin).c_str() : "", s.stop == 1 ? " stopped" : s.stop == 2 ? " stop-concurrent" : "", s.destroy ? " !" : "", s.cons ? " mask" : "");
    p.s.push_back(s);
  }
  vs::Case c; c.desc = sfmt("threads=%d clients=%d blocks=%zux%zu%s%s:", p.threads, p.clients, p.nb, p.bs, p.req_stop ? " request_stop" : "", p.pre_sleep ? " idle-first" : "") + d;
  c.body = [p] {
    World w; w.pool = std::make_unique<Pool>((uint32_t) p.threads, exec::bwos_params{p.nb, p.bs}); w.left = (int) p.s.size(); w.all = exec::nodemask::any();
    for (size_t i = 0; i < p.s.size(); i++) { w.tasks.push_back(std::make_unique<Task>()); auto& t = *w.tasks.back(); t.w = &w; t.id = (int) i; t.s = p.s[i]; }
    std::vector<std::function<void()>> fs; Sch main_sch = w.pool->get_scheduler();
    if (p.pre_sleep) vs::idle(40);
    for (int c = 0; c < p.clients; c++) fs.push_back([&, c] { for (int r : p.roots[(size_t) c]) w.tasks[(size_t) r]->start(main_sch); });
    bool conc = false; for (auto& s : p.s) conc |= s.stop == 2;
    if (conc) fs.push_back([&] { for (auto& t : w.tasks) if (t->s.stop == 2) { t->begun.set(1); t->src.request_stop(); } });
    fs.push_back([&] { std::unique_lock l(w.m); while (w.left) w.cv.wait(l); });
    vs_threads(std::move(fs));
    if (p.req_stop) w.pool->request_stop();
    w.pool.reset();
    for (auto& t : w.tasks) VS_ASSERT(t->n.get() == 1);
  };
  return c;
}
// All workers but one are blocked inside tasks, so nothing can be stolen: of the tasks pinned to each thread exactly
// the one pinned to the free worker runs, on that worker; the others run once the blockers are released.
vs::Case make_pin(vs::Gen& g) {
  int threads = g.range(1, 3); int rounds = g.range(1, 2); size_t bs = 1u << g.below(2); bool rev = g.chance(50); 
  vs::Case c; c.desc = sfmt("threads=%d rounds=%d block-size=%zu%s", threads, rounds, bs, rev ? " reversed" : "");
  c.body = [=] {
    Pool pool((uint32_t) threads, exec::bwos_params{2, bs}); auto sch = pool.get_scheduler();
    std::mutex m; std::condition_variable cv; int blocked = 0; bool release = false; std::vector<int> busy((size_t) threads, 0), ran((size_t) threads, 0); int left = 0, nran = 0; bool released = false;
    struct FR { using receiver_concept = ex::receiver_t; std::function<void()>* f; void set_value() noexcept { (*f)(); } void set_stopped() noexcept { vs::fail("stopped"); } ex::env<> get_env() const noexcept { return {}; } };
    using FOp = ex::connect_result_t<decltype(ex::schedule(sch)), FR>;
    struct Conv { Sch s; FR r; operator FOp() { return ex::connect(ex::schedule(s), r); } };
    std::vector<std::function<void()>> fn; std::vector<std::unique_ptr<std::optional<FOp>>> ops; fn.reserve(20);
    auto go = [&](Sch s, std::function<void()> f) { fn.push_back(std::move(f)); ops.push_back(std::make_unique<std::optional<FOp>>()); ops.back()->emplace(Conv{s, FR{&fn.back()}}); { std::unique_lock l(m); left++; } ex::start(**ops.back()); };
    for (int b = 0; b + 1 < threads; b++) go(sch, [&] { std::unique_lock l(m); busy[(size_t) vs::tid() - 1] = 1; blocked++; cv.notify_all(); while (!release) cv.wait(l); left--; cv.notify_all(); });
    { std::unique_lock l(m); while (blocked != threads - 1) cv.wait(l); }
    int freew = 0; for (int i = 0; i < threads; i++) if (!busy[(size_t) i]) freew = i;
    for (int r = 0; r < rounds; r++) for (int i = 0; i < threads; i++) { int k = rev ? threads - 1 - i : i; go(pool.get_scheduler_on_thread((size_t) k), [&, k] { std::unique_lock l(m); if (!released) VS_ASSERT(k == freew && vs::tid() == k + 1, "a task pinned to a busy pool thread ran elsewhere although nothing could be stolen"); ran[(size_t) k]++; nran++; left--; cv.notify_all(); }); }
    { std::unique_lock l(m); while (ran[(size_t) freew] != rounds) cv.wait(l); }
    if (threads > 1) vs::idle(30);
    { std::unique_lock l(m); released = true; release = true; cv.notify_all(); while (left) cv.wait(l); for (int i = 0; i < threads; i++) VS_ASSERT(ran[(size_t) i] == rounds, "a pinned task did not run exactly once"); }
  };
  return c;
}
// bulk and schedule_all (iterate) on the pool
vs::Case make_bulk(vs::Gen& g) {
  struct P { int threads, shape, kind, thr, where; size_t nb, bs; bool destroy, conc; } p;
  p.threads = g.range(1, 3); p.shape = (int) g.below(8); p.kind = (int) g.below(4); p.thr = g.chance(30) && p.shape ? (int) g.below(p.shape) : -1; p.where = (int) g.below(2); p.nb = 1u << g.below(2); p.bs = 1u << g.below(2); p.destroy = g.chance(50); p.conc = g.chance(30);
  vs::Case c; static const char* kn[] = {"bulk_chunked(par)", "bulk_unchunked(par)", "bulk(par)", "bulk(seq)"};
  c.desc = sfmt("%s threads=%d shape=%d throw-at=%d from=%s%s%s", kn[p.kind], p.threads, p.shape, p.thr, p.where ? "pool" : "outside", p.destroy ? " destroy-in-completion" : "", p.conc ? " two at once" : "");
  c.body = [p] {
    Pool pool((uint32_t) p.threads, exec::bwos_params{p.nb, p.bs}); auto sch = pool.get_scheduler();
    int nrun = p.conc ? 2 : 1; struct Run { Result R; std::vector<int> hit; ghost<int> calls, outside; }; std::vector<std::unique_ptr<Run>> runs; ex::inplace_stop_source src;
    for (int i = 0; i < nrun; i++) { runs.push_back(std::make_unique<Run>()); runs.back()->hit.assign((size_t) p.shape, 0); }
    std::vector<std::function<void()>> fs;
    for (int i = 0; i < nrun; i++) fs.push_back([&, i] {
      Run* r = runs[(size_t) i].get();
      auto one = [r, p](int k, int& v) { VS_ASSERT(v == 5, "the predecessor's value is not passed to bulk's function"); if (k < 0 || k >= p.shape) { vs::fail("bulk called outside [0, shape)"); } r->hit[(size_t) k]++; if (k == p.thr) throw VErr{k}; };
      auto chunk = [one, p](int b, int e, int& v) { VS_ASSERT(b < e || p.shape == 0, "empty or reversed chunk"); for (int k = b; k < e; k++) one(k, v); };
      auto fin = [&](auto s) {
        auto* box = make_op(std::move(s), Rcv<>{&r->R, src.get_token()});
        if (p.destroy) r->R.after = [box] { delete box; };
        ex::start(box->op); r->R.wait(); if (!p.destroy) delete box;
      };
      auto pre = [&] { return ex::then(ex::schedule(sch), [] { return 5; }); };
      if (p.kind == 0) fin(ex::bulk_chunked(pre(), ex::par, p.shape, chunk));
      else if (p.kind == 1) fin(ex::bulk_unchunked(pre(), ex::par, p.shape, one));
      else if (p.kind == 2) fin(ex::bulk(pre(), ex::par, p.shape, one));
      else fin(ex::bulk(pre(), ex::seq, p.shape, one));
      if (p.thr < 0) { VS_ASSERT(r->R.chan.get() == CH_VALUE); VS_ASSERT(r->R.vals.size() == 1 && r->R.vals[0] == 5, "bulk does not forward the predecessor's values"); for (int k = 0; k < p.shape; k++) VS_ASSERT(r->hit[(size_t) k] == 1, "an index was not visited exactly once"); }
      else { VS_ASSERT(r->R.chan.get() == CH_ERROR, "an exception was thrown but bulk did not complete with set_error"); VS_ASSERT(r->R.err.get() == p.thr, "wrong exception"); for (int k = 0; k < p.shape; k++) VS_ASSERT(r->hit[(size_t) k] <= 1, "an index was visited twice"); }
    });
    vs_threads(std::move(fs));
  };
  return c;
}
// schedule_all: one task per element of a range, fed into a sequence
// An item sender that, when told to drop its child, completes inline without ever starting it.
template <class R> struct DropRcv { using receiver_concept = ex::receiver_t; R* r; template <class... A> void set_value(A&&...) noexcept { ex::set_value(std::move(*r)); } template <class E> void set_error(E&&) noexcept { ex::set_stopped(std::move(*r)); } void set_stopped() noexcept { ex::set_stopped(std::move(*r)); } auto get_env() const noexcept { return ex::get_env(*r); } };
template <class S, class R> struct DropOp { R r; bool drop; ex::connect_result_t<S, DropRcv<R>> child; DropOp(S s, R rr, bool d) : r(std::move(rr)), drop(d), child(ex::connect(std::move(s), DropRcv<R>{&r})) {} DropOp(DropOp&&) = delete; void start() & noexcept { if (drop) ex::set_value(std::move(r)); else ex::start(child); } };
template <class S> struct DropSnd { using sender_concept = ex::sender_t; S s; bool drop; template <class, class...> static consteval auto get_completion_signatures() { return ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>(); } template <class R> auto connect(R r) && { return DropOp<S, R>(std::move(s), std::move(r), drop); } };
template <class F> struct DropCl : ex::sender_adaptor_closure<DropCl<F>> { F next; explicit DropCl(F f) : next(std::move(f)) {} template <class S> auto operator()(S s) { return DropSnd<S>{std::move(s), next()}; } };
vs::Case make_drop(vs::Gen& g) {
  struct P { int threads, n; size_t nb, bs; bool destroy; std::vector<int> drop; } p;
  p.threads = g.range(1, 3); p.n = g.range(1, 7); p.nb = 1u << g.below(2); p.bs = 1u << g.below(2); p.destroy = g.chance(70); unsigned pct = g.chance(30) ? 100 : 50;
  for (int i = 0; i < p.n; i++) p.drop.push_back(g.chance(pct));
  vs::Case c; c.desc = sfmt("schedule_all threads=%d n=%d blocks=%zux%zu%s items (d = completes without starting the element's sender):", p.threads, p.n, p.nb, p.bs, p.destroy ? " destroy-in-completion" : ""); for (int x : p.drop) c.desc += x ? " d" : " v";
  c.body = [p] {
    Pool pool((uint32_t) p.threads, exec::bwos_params{p.nb, p.bs});
    std::unique_ptr<int[]> hit(new int[(size_t) p.n + 1]()); Result R; ex::inplace_stop_source src; ghost<int> after; int made = 0;
    auto item = [&, h = hit.get()](int k) { VS_ASSERT(!after.get(), "an item ran after the sequence completed"); VS_ASSERT(k >= 0 && k < p.n && !p.drop[(size_t) k], "a dropped item ran"); h[k]++; };
    auto next = [&]() -> bool { int k = made++; return k < p.n ? p.drop[(size_t) k] != 0 : false; };
    auto seq = exec::schedule_all(pool, std::views::iota(0, p.n)) | exec::transform_each(ex::then([item](int k) noexcept { item(k); })) | exec::transform_each(DropCl(next)) | exec::ignore_all_values();
    auto* box = make_op(std::move(seq), Rcv<>{&R, src.get_token()});
    R.on_done = [&] { after.set(1); VS_ASSERT(made == p.n, "set_next was not called once per element"); for (int k = 0; k < p.n; k++) VS_ASSERT(hit[(size_t) k] == (p.drop[(size_t) k] ? 0 : 1), "the sequence completed before an element was processed"); hit.reset(); };
    if (p.destroy) R.after = [box] { delete box; };
    ex::start(box->op); R.wait(); if (!p.destroy) delete box;
    VS_ASSERT(R.chan.get() == CH_VALUE, "schedule_all did not complete with set_value");
  };
  return c;
}
vs::Case make_all(vs::Gen& g) {
  struct P { int threads, n, err, where; size_t nb, bs; bool destroy; std::vector<int> ech; } p;
  p.threads = g.range(1, 3); p.n = (int) g.below(9); p.nb = 1u << g.below(2); p.bs = 1u << g.below(2); p.where = (int) g.below(2); p.destroy = g.chance(50); p.err = g.chance(40);
  for (int i = 0; i < p.n; i++) p.ech.push_back(p.err && g.chance(30) ? g.range(1, 2) : 0);
  vs::Case c; c.desc = sfmt("schedule_all threads=%d n=%d blocks=%zux%zu from=%s%s items:", p.threads, p.n, p.nb, p.bs, p.where ? "pool" : "outside", p.destroy ? " destroy-in-completion" : ""); for (int x : p.ech) c.desc += sfmt(" %s", x == 0 ? "v" : x == 1 ? "e" : "s");
  c.body = [p] {
    Pool pool((uint32_t) p.threads, exec::bwos_params{p.nb, p.bs}); auto sch = pool.get_scheduler();
    std::unique_ptr<int[]> hit(new int[(size_t) p.n + 1]()); Result R; ex::inplace_stop_source src; ghost<int> after; int bad = 0; for (int x : p.ech) bad += x != 0;
    auto item = [&, h = hit.get()](int k) { VS_ASSERT(!after.get(), "an item ran after the sequence completed"); VS_ASSERT(k >= 0 && k < p.n, "item out of range"); VS_ASSERT(vs::tid() > 0 && vs::tid() <= p.threads, "an item ran outside the pool"); h[k]++; };
    auto seq = exec::schedule_all(pool, std::views::iota(0, p.n)) | exec::transform_each(ex::then([item](int k) noexcept { item(k); })) | exec::ignore_all_values();
    auto go = [&](auto s) {
      auto* box = make_op(std::move(s), Rcv<>{&R, src.get_token()});
      R.on_done = [&] { after.set(1); for (int k = 0; k < p.n; k++) VS_ASSERT(hit[(size_t) k] == 1, "an element was not delivered exactly once before the completion"); hit.reset(); };
      if (p.destroy) R.after = [box] { delete box; };
      ex::start(box->op); R.wait(); if (!p.destroy) delete box;
    };
    if (p.where) go(ex::let_value(ex::schedule(sch), [seq]() mutable { return std::move(seq); })); else go(std::move(seq));
    VS_ASSERT(R.chan.get() == CH_VALUE, "schedule_all did not complete with set_value");
  };
  return c;
}
}
#ifndef C12_NO_MAIN
int main(int argc, char** argv) { return exec::nodemask::any(), vs::run_main(argc, argv, {{"pool", make, 4}, {"pin", make_pin, 1}, {"bulk", make_bulk, 1}, {"all", make_all, 1}, {"drop", make_drop, 1}}); }
#endif
