#include "c21.hpp"
static vs::Case make_loops(vs::Gen& g) {
  Cfg c{}; c.loop = g.range(0, 7); c.body = g.range(0, 16); c.n = g.chance(30) ? g.range(0, 4) : g.range(100, 900); c.m = g.range(1, 9); if ((c.loop == 3 && nc_of(c.body) & 1) || (c.loop == 4 && nc_of(c.body) & 2)) c.body = 0; bool nested = (c.body == 6 || c.body == 12) && c.loop < 5; 
  if (c.loop >= 5) { c.body = 0; } int total = nested ? c.n * c.m : c.n; c.act = g.pick({(int) GO, (int) GO, (int) ERR, (int) STOP, (int) THROW}); c.end = c.act == GO ? -1 : total ? g.range(0, total - 1) : 0; c.extAt = c.loop < 3 && g.chance(25) && total ? g.range(0, total - 1) : -1; c.conv = g.chance(10) && c.loop == 1 && c.act == GO && total; 
  if (c.loop == 2 && c.act == GO && c.extAt < 0) { c.act = STOP; c.end = total ? total - 1 : 0; }
  if (c.loop < 2 && c.body == 0 && g.chance(10) && total > 1) { c.act = CONNTHROW; c.end = g.range(1, total - 1); c.conv = false; }
  if (c.loop == 1 && c.n == 0) c.n = 1, total = nested ? c.m : 1;
  if (c.conv) c.end = total - 1; // the conversion of the last iteration's value throws
  std::string d = sfmt("%s n=%d body=%s m=%d act=%d end=%d ext=%d%s", LN[c.loop], c.n, c.loop >= 5 ? "-" : BN[c.body], c.m, c.act, c.end, c.extAt, c.conv ? " throwing-bool" : "");
  return {[c, total, nested] { St s; s.total = total; s.end = c.end; s.act = c.act; s.extAt = c.extAt; s.throwConv = c.conv; s.warm = nested ? std::max(64, 24 * c.m) : 64; st = &s;
    int n = c.n;
    if (c.loop <= 4) (c.loop == 0 ? run_loop<0> : c.loop == 1 ? run_loop<1> : c.loop == 2 ? run_loop<2> : c.loop == 3 ? run_loop<3> : run_loop<4>)(c);
    else if (c.loop == 5) { std::vector<int> v((size_t) n); for (int i = 0; i < n; i++) v[(size_t) i] = i; run(exec::iterate(std::views::all(v)) | exec::transform_each(ex::then([](int& x) { if (x != st->idx) vs::fail("item %d is delivered at position %d", x, st->idx); thr(body()); })) | exec::ignore_all_values()); }
    else if (c.loop == 6) run(eloopt(n)); else run(sloopt(n));
    // the oracle
    int want = VAL_, code = 0, cnt = total; bool viaTask = c.loop >= 6 || c.body == 7 || c.body == 8, thenBody = c.loop == 5 || c.body == 1 || c.body == 16; bool coro = c.loop == 3 || c.loop == 4;
    int inf = c.loop == 2 ? 1 << 30 : total;
    auto ends = [&](int i) { if (c.act == CONNTHROW) { return false; } return c.act != GO && c.end == i; };
    for (int i = 0; i < inf; i++) { if (c.act == CONNTHROW && i == c.end) { want = EPTR; code = 3000 + i; cnt = i; break; }
      if (ends(i)) { cnt = i + 1; int a = c.act; if (thenBody && a != GO) a = THROW; if (viaTask && a == ERR) a = THROW; 
        if (a == ERR) { want = coro ? EPTR : EINT; code = coro ? -1 : 1000 + i; } else if (a == THROW) { want = EPTR; code = 2000 + i; } else want = STOPPED; break; }
      if (c.conv && i == c.end) { want = EPTR; code = 4000; cnt = i + 1; break; }
      if (c.extAt == i) { bool last = i + 1 >= inf; if (!last) { want = STOPPED; cnt = i + 1; break; } } }
    // a body that checks for stop itself (a hop) also completes with stopped when it is the last iteration; only after the request
    if (s.idx != cnt) { vs::fail("%d iterations are run, the loop's definition says %d", s.idx, cnt); }
    bool lateStop = c.extAt >= 0 && c.extAt + 1 == cnt && s.res == STOPPED;
    if (!lateStop && (s.res != want || (want != VAL_ && want != STOPPED && s.code != code))) vs::fail("the loop completes with (%d, %d), its definition says (%d, %d)", s.res, s.code, want, code);
    vs::label(LN[c.loop]); if (c.loop < 5) vs::label(BN[c.body]); vs::nontrivial(s.idx > s.warm); st = nullptr; }, d}; }
// ---- the trampoline scheduler directly ----
namespace {
struct Item { int id; std::vector<int> kids; int depth, sz; };
struct Tr { std::vector<Item> items; std::vector<int> runs; int active = 0, maxActive = 0, outcome = 0; ex::inplace_stop_source ss; bool stopped = false; int stopAt = -1; std::vector<int> order; size_t base = 0, peak = 0; struct OpBase { virtual ~OpBase() = default; virtual void go() = 0; }; std::vector<std::unique_ptr<OpBase>> ops; bool stoppable = false; };
Tr* tr;
void spawn(int id);
template <bool S> struct TRcv { using receiver_concept = ex::receiver_tag; int id;
  void done(bool stop) { auto& t = *tr; if (t.runs[(size_t) id]++) vs::fail("item %d is completed twice", id); bool req = S && t.ss.stop_requested(); if (stop != req) vs::fail("item %d completes with %s although stop was %srequested", id, stop ? "set_stopped" : "set_value", req ? "" : "not "); t.order.push_back(id); t.active++; t.maxActive = std::max(t.maxActive, t.active); t.peak = std::max(t.peak, vs::stack_used()); if (t.stopAt == id) t.ss.request_stop(); for (int k : t.items[(size_t) id].kids) spawn(k); t.active--; }
  void set_value() noexcept { done(false); } void set_stopped() noexcept { done(true); }
  struct Env { auto query(ex::get_stop_token_t) const noexcept { if constexpr (S) return tr->ss.get_token(); else return ex::never_stop_token{}; } }; Env get_env() const noexcept { return {}; } };
template <bool S> struct TOp : Tr::OpBase { ex::connect_result_t<ex::schedule_result_t<exec::trampoline_scheduler>, TRcv<S>> op; explicit TOp(exec::trampoline_scheduler s, int id) : op(ex::connect(ex::schedule(s), TRcv<S>{id})) {} void go() override { ex::start(op); } };
void spawn(int id) { auto& it = tr->items[(size_t) id]; exec::trampoline_scheduler s = it.sz < 0 ? exec::trampoline_scheduler((size_t) it.depth) : exec::trampoline_scheduler((size_t) it.depth, (size_t) it.sz); std::unique_ptr<Tr::OpBase> o; if (tr->stoppable) o = std::make_unique<TOp<true>>(s, id); else o = std::make_unique<TOp<false>>(s, id); auto* p = o.get(); tr->ops.push_back(std::move(o)); p->go(); }
}
static vs::Case make_tree(vs::Gen& g) {
  auto t = std::make_shared<std::vector<Item>>(); int n = g.chance(30) ? g.range(1, 8) : g.range(20, 900); int shape = g.range(0, 3); int D = g.chance(40) ? g.range(200, 2000) : g.range(1, 20), Z = g.chance(30) ? g.pick({0, 512, 4096, 100000}) : -1; bool sameP = g.chance(60); bool stoppable = g.chance(50); int stopAt = stoppable && g.chance(40) ? g.range(0, n - 1) : -1;
  for (int i = 0; i < n; i++) { t->push_back({i, {}, sameP ? D : g.range(1, 20), sameP ? Z : g.chance(50) ? -1 : g.pick({0, 512, 4096, 100000})}); if (i) { int p = shape == 0 ? i - 1 : shape == 1 ? 0 : shape == 2 ? (i - 1) / 2 : g.range(std::max(0, i - 5), i - 1); (*t)[(size_t) p].kids.push_back(i); } }
  int roots = g.range(1, 2); std::string d = sfmt("tree n=%d shape=%d depth=%d size=%d same=%d stop=%d@%d rounds=%d", n, shape, (*t)[0].depth, (*t)[0].sz, sameP, stoppable, stopAt, roots);
  return {[t, stopAt, stoppable, roots, shape] { for (int r = 0; r < roots; r++) { Tr x; x.items = *t; x.runs.resize(t->size()); x.stopAt = stopAt; x.stoppable = stoppable; tr = &x; x.base = vs::stack_used(); spawn(0);
      for (size_t i = 0; i < x.runs.size(); i++) if (x.runs[i] != 1) vs::fail("item %zu was run %d times when the outermost start returned", i, x.runs[i]);
      auto& o = x.items[0]; if (x.maxActive > std::max(1, o.depth)) vs::fail("%d items are active at the same time, the maximum recursion depth is %d", x.maxActive, o.depth);
      // a frame may use up the limit and then one more level of user code
      if (size_t lim = (size_t) (o.sz < 0 ? 4096 : o.sz) + 16384; x.peak - x.base > lim) vs::fail("%zu bytes of stack are used, the recursion limit is %d", x.peak - x.base, o.sz < 0 ? 4096 : o.sz);
      if (shape == 0) for (size_t i = 0; i < x.order.size(); i++) if (x.order[i] != (int) i) vs::fail("item %d is run at position %zu", x.order[i], i);
      if (x.maxActive > 1) vs::label("inlined"); tr = nullptr; }
    vs::nontrivial(t->size() > 20); }, d}; }
int main(int c, char** v) { return vs::run_main(c, v, {{"loops", make_loops, 2}, {"tree", make_tree, 1}}); }
