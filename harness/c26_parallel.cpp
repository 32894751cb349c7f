// C26: parallel_scheduler - every item runs exactly once through the default or a generated backend; backends are kept and released.
#include "vs_senders.hpp"
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
#include <stdexec/__detail/__parallel_scheduler_default_impl.hpp>
namespace scr = ex::parallel_scheduler_replacement;
static unsigned g_hw = 2;
unsigned std::thread::hardware_concurrency() noexcept { return g_hw; }
namespace {
struct ForeignTok {                                  // a stop token of a type the library does not know
  ex::inplace_stop_token t; bool stop_requested() const noexcept { return t.stop_requested(); } bool stop_possible() const noexcept { return t.stop_possible(); } bool operator==(const ForeignTok&) const = default;
  template <class F> struct callback_type { ex::inplace_stop_callback<F> c; template <class G> callback_type(ForeignTok k, G&& g) : c(k.t, (G&&) g) {} };
};
using BP = std::shared_ptr<scr::parallel_scheduler_backend>;
scr::__parallel_scheduler_backend_factory_t g_default;
BP null_factory() { return {}; }
struct Tok { int v; ghost<int>* live; Tok(int v, ghost<int>* l) : v(v), live(l) { live->add(1); } Tok(Tok&& o) noexcept : v(std::exchange(o.v, -1)), live(o.live) { live->add(1); } ~Tok() { live->add(-1); } };
enum { NOSTOP, BEFORE, CONC }; enum { K_SCHED, K_BULK, K_CHUNKED, K_UNCHUNKED };
struct Item { int kind; bool par; int shape; int pre; ChildSpec c; int stop; bool start, destroy, dies; int tok; int plan; int ways; };
std::string show(const Item& i) {
  static const char* k[] = {"schedule", "bulk", "bulk_chunked", "bulk_unchunked"}; static const char* t[] = {"inplace", "foreign-token", "never"};
  std::string s = k[i.kind]; if (i.kind) s += sfmt("(%s,%d)", i.par ? "par" : "seq", i.shape); s += i.pre ? " after " + show(i.c) : "";
  s += sfmt("%s %s%s%s", i.stop == BEFORE ? " stopped" : i.stop == CONC ? " stop-concurrent" : "", t[i.tok], i.start ? "" : " connect-only", i.destroy ? " !" : ""); if (i.dies) s += " source-dies"; return s;
}
// ---- generated backend ----
enum { B_INLINE, B_WORKER }; enum { E_VALUE, E_ERROR, E_STOPPED, E_WAIT };
struct Backend;
struct GenTask final : VTask { std::function<void()> f; void run() noexcept override { auto g = std::move(f); delete this; g(); } };
struct Waiter {                                      // completes with set_stopped when the receiver's token is triggered
  struct F { Waiter* w; void operator()() noexcept { w->part(2); } };
  scr::receiver_proxy& r; std::optional<ex::inplace_stop_callback<F>> cb; std::atomic<int> phase{0};
  Waiter(scr::receiver_proxy& r) : r(r) {}
  void part(int b) { if (phase.fetch_or(b, std::memory_order_acq_rel) != 0) { cb.reset(); auto& q = r; delete this; q.set_stopped(); } }
  void go() { auto t = r.try_query<ex::inplace_stop_token>(ex::get_stop_token); VS_ASSERT(t.has_value()); cb.emplace(*t, F{this}); part(1); }
};
struct Backend final : scr::parallel_scheduler_backend {
  Worker w[2]; std::vector<std::pair<int, int>> plan; ghost<int> next, uses; int id = 0; ghost<int>* dead; bool honour; bool all_inplace = false; int expect = -1;
  std::vector<int> cuts;
  Backend(std::vector<std::pair<int, int>> plan, std::vector<int> cuts, bool honour, ghost<int>* dead) : plan(plan), dead(dead), honour(honour), cuts(cuts) {}
  ~Backend() { w[0].close(); w[1].close(); dead->add(1); }
  static void post(Worker& w, std::function<void()> f) { auto* t = new GenTask; t->f = std::move(f); w.post(t); }
  static void check(std::span<std::byte> s, size_t min, size_t al) { VS_ASSERT(s.size() >= min && !(reinterpret_cast<uintptr_t>(s.data()) & (al - 1)), "the storage handed to the backend is too small or misaligned"); for (auto& b : s) b = std::byte{0xab}; }
  void finish(scr::receiver_proxy& r, int how, std::span<std::byte> s) {
    if (how == E_WAIT) { (new Waiter(r))->go(); return; }
    for (auto& b : s) VS_ASSERT(b == std::byte{0xab}, "the backend's storage was overwritten by the frontend");
    auto t = r.try_query<ex::inplace_stop_token>(ex::get_stop_token); VS_ASSERT(t.has_value() || !all_inplace, "the receiver does not answer the stop token query");
    if (how == E_VALUE && honour && t && t->stop_requested()) how = E_STOPPED;
    if (how == E_VALUE) r.set_value(); else if (how == E_STOPPED) r.set_stopped(); else r.set_error(std::make_exception_ptr(VErr{4242}));
  }
  std::pair<int, int> take() { int k = next.add(1) - 1; uses.add(1); return plan[(size_t) k % plan.size()]; }
  void schedule(scr::receiver_proxy& r, std::span<std::byte> s) noexcept override {
    check(s, 72, 8); auto [where, how] = take(); auto self = this;
    if (where == B_INLINE) finish(r, how, s); else post(w[where - 1], [self, &r, how = how, s] { self->finish(r, how, s); });
  }
  void bulk(size_t n, scr::bulk_item_receiver_proxy& r, std::span<std::byte> s, bool chunked) {
    check(s, 152, 8); auto [where, how] = take(); if (how == E_WAIT) how = E_VALUE;
    if (expect >= 0) VS_ASSERT((int) n == expect, "the backend was handed a wrong number of items");
    if (how == E_ERROR || (how == E_STOPPED)) { auto self = this; int h = how; if (where == B_INLINE) finish(r, h, s); else post(w[where - 1], [self, &r, h, s] { self->finish(r, h, s); }); return; }
    // split into chunks; run them on up to two workers; the last one completes
    std::vector<std::pair<size_t, size_t>> ch; size_t b = 0, k = 0;
    while (b < n) { size_t len = chunked ? std::min(n - b, (size_t) cuts[k++ % cuts.size()]) : 1; ch.push_back({b, b + len}); b += len; }
    if (chunked && ch.empty() && cuts[0] & 1) ch.push_back({0, 0});
    if (where == B_INLINE) { for (auto& c : ch) r.execute(c.first, c.second); finish(r, E_VALUE, s); return; }
    if (ch.empty()) { auto self = this; post(w[where - 1], [self, &r, s] { self->finish(r, E_VALUE, s); }); return; }
    auto left = std::make_shared<std::atomic<int>>((int) ch.size()); auto self = this; Worker* ws[2] = {&w[0], &w[1]}; int wh = where;
    for (size_t i = 0; i < ch.size(); i++) { auto c = ch[i]; post(*ws[((size_t) wh + i * (size_t) cuts[i % cuts.size()]) & 1], [self, &r, c, left, s] { r.execute(c.first, c.second); if (left->fetch_sub(1, std::memory_order_acq_rel) == 1) self->finish(r, E_VALUE, s); }); }
  }
  void schedule_bulk_chunked(size_t n, scr::bulk_item_receiver_proxy& r, std::span<std::byte> s) noexcept override { bulk(n, r, s, true); }
  void schedule_bulk_unchunked(size_t n, scr::bulk_item_receiver_proxy& r, std::span<std::byte> s) noexcept override { bulk(n, r, s, false); }
};
std::function<BP()>& gen_factory() { static std::function<BP()> f; return f; }
BP call_factory() { return gen_factory()(); }
struct P { bool custom; int hw, clients; std::vector<Item> it; std::vector<std::pair<int, int>> plan; std::vector<int> cuts; bool honour; };
std::string show(const P& p) {
  std::string s = p.custom ? "generated backend" : sfmt("default backend x%d", p.hw);
  if (p.custom) { s += p.honour ? " (honours stop)" : ""; s += " plan"; for (auto& x : p.plan) s += sfmt(" %s-%s", x.first == 0 ? "inline" : "worker", x.second == 0 ? "value" : x.second == 1 ? "error" : x.second == 2 ? "stopped" : "wait-for-stop"); s += " chunks"; for (int c : p.cuts) s += sfmt(" %d", c); }
  s += sfmt(" clients=%d:", p.clients); for (auto& i : p.it) s += " [" + show(i) + "]"; return s;
}
struct One {
  Result R; ghost<int> live, ran; Ledger L; std::unique_ptr<ex::inplace_stop_source> src = std::make_unique<ex::inplace_stop_source>(); std::vector<int> hit; ghost<int> calls, main_tid{-1}; ghost<int> runtid{-1};
};
void run(const P& p) {
  auto dead = std::make_unique<ghost<int>>(); BP keep;
  { vs::Ghost g; g_hw = (unsigned) p.hw; }
  if (p.custom) { gen_factory() = [&] { return std::make_shared<Backend>(p.plan, p.cuts, p.honour, dead.get()); }; scr::set_parallel_scheduler_backend(call_factory); }
  else scr::set_parallel_scheduler_backend(g_default);
  keep = scr::query_parallel_scheduler_backend();
  auto* gen = p.custom ? static_cast<Backend*>(keep.get()) : nullptr;
  if (gen) { if (p.it.size() == 1 && p.it[0].kind) gen->expect = p.it[0].par ? p.it[0].shape : 1; gen->all_inplace = true; for (auto& i : p.it) if (i.tok) gen->all_inplace = false; }
  auto w = std::make_unique<Worker>(); size_t n = p.it.size(); std::vector<std::unique_ptr<One>> o; for (auto& i : p.it) { o.push_back(std::make_unique<One>()); o.back()->hit.assign((size_t) i.shape + 1, 0); }
  auto one = [&](size_t i) {
    const Item& it = p.it[i]; One* q = o[i].get(); int me = vs::tid();
    auto sch = ex::get_parallel_scheduler(); VS_ASSERT(sch == ex::get_parallel_scheduler(), "schedulers sharing a backend compare unequal");
    if (it.stop == BEFORE) { q->src->request_stop(); }
    q->R.on_done = [q, &it] { if (it.dies) q->src.reset(); };
    auto go = [&](auto s0, auto tok) {
      using S = decltype(s0);
      auto* box = make_op(std::move(s0), Rcv<decltype(tok)>{&q->R, tok}); (void) sizeof(S);
      if (!it.start) { delete box; return; }
      if (it.destroy) q->R.after = [box] { delete box; };
      ex::start(box->op); q->R.wait(); if (!it.destroy) delete box;
    };
    auto with = [&](auto s) { if (it.tok == 0) go(std::move(s), q->src->get_token()); else if (it.tok == 1) go(std::move(s), ForeignTok{q->src->get_token()}); else go(std::move(s), ex::never_stop_token{}); };
    if (it.kind == K_SCHED) { with(ex::schedule(sch) | ex::then([q] { q->ran.add(1); q->runtid.set(vs::tid()); return 1; })); return; }
    auto fn1 = [q, &it](int k, Tok& t) { VS_ASSERT(t.v == 7, "the predecessor's value is not passed to bulk's function"); VS_ASSERT(k >= 0 && k < it.shape, "index out of range"); VS_ASSERT(q->R.count.get() == 0, "an item ran after the completion"); q->hit[(size_t) k]++; };
    auto fn = [fn1, q](int k, Tok& t) noexcept { q->calls.add(1); q->runtid.set(vs::tid()); fn1(k, t); };
    auto fc = [fn1, q](int b, int e, Tok& t) noexcept { q->calls.add(1); VS_ASSERT(b <= e, "reversed chunk"); for (int k = b; k < e; k++) fn1(k, t); };
    auto bulk = [&](auto pre) {
      auto fin = ex::then([q, &it](Tok t) noexcept { VS_ASSERT(t.v == 7, "the predecessor's value is not forwarded"); for (int k = 0; k < it.shape; k++) VS_ASSERT(q->hit[(size_t) k] == 1, "an index was not visited exactly once before the completion"); return 1; });
      auto mk = [&](auto pol) { switch (it.kind) { case K_BULK: with(ex::bulk(std::move(pre), pol, it.shape, fn) | fin); break; case K_CHUNKED: with(ex::bulk_chunked(std::move(pre), pol, it.shape, fc) | fin); break; default: with(ex::bulk_unchunked(std::move(pre), pol, it.shape, fn) | fin); } };
      if (it.par) mk(ex::par); else mk(ex::seq);
    };
    auto mkt = [q](auto...) noexcept { return Tok(7, &q->live); };
    if (it.pre) bulk(ex::continues_on(Child{it.c, &q->L, w.get()} | ex::then(mkt), sch)); else bulk(ex::schedule(sch) | ex::then(mkt));
  };
  std::vector<std::function<void()>> fs;
  for (int c = 0; c < p.clients; c++) fs.push_back([&, c] { for (size_t i = 0; i < n; i++) if ((int) (i % (size_t) p.clients) == c) one(i); });
  for (size_t i = 0; i < n; i++) if (p.it[i].stop == CONC) fs.push_back([&, i] { o[i]->src->request_stop(); });
  vs_threads(std::move(fs));
  w->close(); scr::set_parallel_scheduler_backend(null_factory);
  for (int k = 0; k < 60 && keep.use_count() != 1; k++) vs::idle(8);
  VS_ASSERT(keep.use_count() == 1, "a reference to the backend was leaked");
  (void) gen; if (p.custom) VS_ASSERT(dead->get() == 0, "the backend was destroyed while it was in use");
  keep.reset(); if (p.custom) { VS_ASSERT(dead->get() == 1, "the backend is not released"); gen_factory() = nullptr; }
  bool all_value = true, some_err = false; for (auto& x : p.plan) { all_value &= x.second == E_VALUE; some_err |= x.second == E_ERROR; }
  for (size_t i = 0; i < n; i++) {
    const Item& it = p.it[i]; One& q = *o[i];
    VS_ASSERT(q.live.get() == 0, "a value was leaked or destroyed twice"); VS_ASSERT(q.L.connected.get() == q.L.destroyed.get(), "the predecessor's operation state was leaked");
    if (!it.start) { VS_ASSERT(q.R.count.get() == 0 && q.ran.get() == 0 && q.L.started.get() == 0); continue; }
    VS_ASSERT(q.R.count.get() == 1); int ch = q.R.chan.get(); bool may_stop = (it.stop != NOSTOP && it.tok != 2);
    if (ch == CH_VALUE) { VS_ASSERT(q.R.vals.size() == 1 && q.R.vals[0] == 1); if (it.kind == K_SCHED) VS_ASSERT(q.ran.get() == 1); if (!p.custom && q.runtid.get() >= 0) VS_ASSERT(q.runtid.get() > 0 && q.runtid.get() <= p.hw, "the work did not run on a worker of the backend"); if (it.pre) VS_ASSERT(q.L.chan.get() == CH_VALUE); }
    else { VS_ASSERT(q.ran.get() == 0); }
    if (it.kind == K_SCHED && it.stop == BEFORE && it.tok != 2) { VS_ASSERT(ch == CH_STOPPED, "stop was requested before the start but the operation did not complete with set_stopped"); }
    if (ch == CH_STOPPED) VS_ASSERT(may_stop || (it.pre && q.L.chan.get() == CH_STOPPED) || (p.custom && !all_value), "spurious set_stopped");
    if (ch == CH_ERROR) { int e = q.R.err.get(); if (e == 4242) VS_ASSERT(p.custom && some_err); else VS_ASSERT(it.pre && q.L.chan.get() == CH_ERROR && e == it.c.val, "wrong error"); }
    if (it.pre && q.L.completed.get() && q.L.chan.get() == CH_ERROR && !may_stop && !(p.custom && !all_value)) VS_ASSERT(ch == CH_ERROR, "the predecessor's error was lost");
    if (p.custom && !all_value && p.plan.size() == 1 && it.kind == K_SCHED && !may_stop) VS_ASSERT(ch == (p.plan[0].second == E_ERROR ? CH_ERROR : CH_STOPPED), "the backend's completion was changed");
  }
}
vs::Case make(vs::Gen& g, bool custom) {
  P p; p.custom = custom; p.hw = g.range(1, 3); p.clients = g.range(1, 2); int n = g.range(1, 3); p.honour = g.chance(50);
  int np = g.range(1, 3); for (int i = 0; i < np; i++) p.plan.push_back({custom ? (int) g.below(3) : 0, !custom || g.chance(65) ? E_VALUE : g.range(1, 2)});
  int nc = g.range(1, 3); for (int i = 0; i < nc; i++) p.cuts.push_back(g.range(1, 4));
  for (int i = 0; i < n; i++) {
    Item it; it.kind = (int) g.below(4); it.par = g.chance(75); it.shape = it.kind ? (int) g.below(9) : 0; it.pre = it.kind && g.chance(40); it.c = gen_child(g, 30 + i, false); it.stop = g.chance(40) ? g.range(1, 2) : 0; it.start = !g.chance(12); it.destroy = g.chance(50); int k = (int) g.below(8); it.tok = k < 5 ? 0 : k < 7 ? 1 : 2;
    it.dies = it.stop != CONC && g.chance(30);
    p.it.push_back(it);
  }
  bool wait = custom && g.chance(50); for (auto& i : p.it) if (i.stop == NOSTOP || i.tok == 2) wait = false;
  if (wait) p.plan[(size_t) g.below((uint32_t) np)].second = E_WAIT;
  vs::Case c; c.desc = show(p); c.body = [p] { run(p); }; return c;
}
vs::Case make_default(vs::Gen& g) { return make(g, false); }
vs::Case make_custom(vs::Gen& g) { return make(g, true); }
// The default backend driven directly, with storage of any size and alignment that dies with the completion.
struct Proxy final : scr::bulk_item_receiver_proxy {
  Result* r; std::vector<ghost<int>>* hit; std::unique_ptr<std::byte[]> mem; size_t at, len, total; int* data = nullptr;
  static constexpr size_t RZ = 32;
  void end(int ch) { for (size_t i = 0; i < total; i++) if (i < at || i >= at + len) VS_ASSERT(mem[i] == std::byte{0xcd}, "the backend wrote outside the storage it was given"); mem.reset(); Result* q = r; q->finish(ch); }
  void set_value() noexcept override { end(CH_VALUE); }
  void set_error(std::exception_ptr) noexcept override { end(CH_ERROR); }
  void set_stopped() noexcept override { end(CH_STOPPED); }
  void execute(size_t b, size_t e) noexcept override { for (size_t i = b; i < e; i++) { VS_ASSERT(i < hit->size(), "index out of range"); (*hit)[i].add(1); data[i] += 1; } }
  void __query_env(ex::__type_index, ex::__type_index, void*) const noexcept override {}
};
vs::Case make_direct(vs::Gen& g) {
  struct I { int kind, n; size_t off, len; }; std::vector<I> it; unsigned hw = (unsigned) g.range(1, 3);
  int k = g.range(1, 3); for (int i = 0; i < k; i++) { I x; x.kind = (int) g.below(3); x.n = g.range(0, 9); x.off = g.below(16); x.len = g.chance(20) ? g.below(16) : g.chance(50) ? 8 * g.below(40) : g.below(320); it.push_back(x); }
  vs::Case c; c.desc = sfmt("default backend (%u workers) driven directly:", hw); for (auto& x : it) c.desc += sfmt(" %s(%d) storage %zu at +%zu", x.kind == 0 ? "schedule" : x.kind == 1 ? "chunked" : "unchunked", x.kind ? x.n : 0, x.len, x.off);
  c.body = [it, hw] {
    g_hw = hw; BP b = g_default(); std::deque<Result> R(it.size()); std::deque<std::vector<ghost<int>>> hit; std::deque<Proxy> P; std::deque<std::unique_ptr<int[]>> data;
    for (size_t i = 0; i < it.size(); i++) {
      auto& x = it[i]; hit.emplace_back((size_t) x.n); data.emplace_back(new int[(size_t) x.n + 1]()); auto& p = P.emplace_back(); p.r = &R[i]; p.hit = &hit[i]; p.data = data[i].get();
      p.at = Proxy::RZ + x.off; p.len = x.len; p.total = p.at + x.len + 512; p.mem.reset(new std::byte[p.total]); for (size_t k = 0; k < p.total; k++) p.mem[k] = std::byte{0xcd};
      auto* dp = data[i].get(); R[i].on_done = [dp, n = x.kind ? x.n : 0] { for (int k = 0; k < n; k++) VS_ASSERT(dp[k] == 1, "an index was not visited exactly once before the completion"); };
      std::span<std::byte> s(p.mem.get() + p.at, x.len);
      if (x.kind == 0) b->schedule(p, s); else if (x.kind == 1) b->schedule_bulk_chunked((size_t) x.n, p, s); else b->schedule_bulk_unchunked((size_t) x.n, p, s);
    }
    for (size_t i = 0; i < it.size(); i++) { R[i].wait(); VS_ASSERT(R[i].count.get() == 1 && R[i].chan.get() == CH_VALUE, "the backend did not complete the operation with set_value"); }
    b.reset(); vs::label("direct");
  };
  return c;
}
// Creation, replacement and identity of backends.
vs::Case make_instance(vs::Gen& g) {
  int threads = g.range(1, 3), gets = g.range(1, 2); bool replace = g.chance(40); bool drop = g.chance(50);
  vs::Case c; c.desc = sfmt("first use by %d threads x%d%s%s", threads, gets, replace ? ", backend replaced concurrently" : "", drop ? ", references dropped early" : "");
  c.body = [=] {
    auto dead = std::make_unique<ghost<int>>(); auto made = std::make_unique<ghost<int>>();
    auto mk = [&] { auto b = std::make_shared<Backend>(std::vector<std::pair<int, int>>{{B_INLINE, E_VALUE}}, std::vector<int>{1}, false, dead.get()); b->id = made->add(1); return b; };
    gen_factory() = [&] { return BP{}; }; scr::set_parallel_scheduler_backend(call_factory); gen_factory() = [&] { return BP(mk()); };
    std::vector<std::vector<ex::parallel_scheduler>> got((size_t) threads); std::vector<std::vector<int>> ids((size_t) threads);
    auto used = [&](ex::parallel_scheduler& s) { // which backend instance serves this scheduler?
      Result r; auto* box = make_op(ex::schedule(s), Rcv<ex::never_stop_token>{&r, {}}); ex::start(box->op); r.wait(); delete box; VS_ASSERT(r.chan.get() == CH_VALUE); };
    std::vector<std::function<void()>> fs;
    for (int t = 0; t < threads; t++) fs.push_back([&, t] { for (int k = 0; k < gets; k++) { auto s = ex::get_parallel_scheduler(); used(s); got[(size_t) t].push_back(s); if (drop && k) got[(size_t) t].erase(got[(size_t) t].begin()); } });
    BP second; if (replace) fs.push_back([&] { scr::set_parallel_scheduler_backend([]() -> BP { return call_factory(); }); });
    vs_threads(std::move(fs));
    auto cur = scr::query_parallel_scheduler_backend(); auto cs = ex::get_parallel_scheduler(); VS_ASSERT(cs == ex::get_parallel_scheduler());
    if (!replace) for (auto& v : got) for (auto& s : v) VS_ASSERT(s == cs, "first uses on different threads obtained different backends");
    // equality <=> same backend: probe through the use counters
    auto* cb = static_cast<Backend*>(cur.get());
    for (auto& v : got) for (auto& s : v) { int before = cb->uses.get(); auto cp = s; used(cp); bool same = cb->uses.get() != before; VS_ASSERT(same == (s == cs), "schedulers compare equal although their backends differ, or the other way around"); }
    cb = nullptr; scr::set_parallel_scheduler_backend(null_factory);
    { auto cs2 = std::move(cs); cur.reset(); used(cs2); }
    got.clear();
    VS_ASSERT(dead->get() == made->get(), "a backend was leaked"); gen_factory() = nullptr;
  };
  return c;
}
}
int main(int argc, char** argv) { g_default = scr::set_parallel_scheduler_backend(null_factory); return exec::nodemask::any(), vs::run_main(argc, argv, {{"default", make_default, 3}, {"custom", make_custom, 3}, {"instance", make_instance, 1}, {"direct", make_direct, 1}}); }
