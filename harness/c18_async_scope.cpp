// C18: exec::async_scope - nested work runs once with its result passed on, emptiness is signalled exactly, futures deliver once.
#include "vs_senders.hpp"
#include <exec/async_scope.hpp>
namespace {
enum { NOSTOP, BEFORE, CONC }; enum { START, CONNECT_ONLY, DROP }; enum { NEST, SPAWN, FUTURE };
struct Item { int kind; ChildSpec c; int what, stop; bool destroy, dies, own_thread, late; };
struct P { std::vector<Item> it; int scope_stop; int waiters; bool die; bool when; };
std::string show(const P& p) {
  static const char* k[] = {"nest", "spawn", "future"};
  std::string s = sfmt("request_stop=%s waiters=%d%s%s:", p.scope_stop == 0 ? "no" : p.scope_stop == 1 ? "before" : "concurrent", p.waiters, p.when ? " when_empty" : "", p.die ? " destroyed-by-last-waiter" : "");
  for (auto& i : p.it) { s += sfmt(" [%s %s", k[i.kind], show(i.c).c_str()); if (i.kind != SPAWN) s += sfmt(" %s%s%s%s%s%s", i.what == START ? "start" : i.what == CONNECT_ONLY ? "connect-only" : "drop", i.stop == BEFORE ? " stopped" : i.stop == CONC ? " stop-concurrent" : "", i.destroy ? " !" : "", i.dies ? " source-dies" : "", i.own_thread ? "" : " main-thread", i.late ? " late" : ""); s += "]"; }
  return s;
}
void run(const P& p) {
  auto scope = std::make_unique<exec::async_scope>(); auto w = std::make_unique<Worker>(); size_t n = p.it.size();
  std::vector<Ledger> L(n); std::vector<std::unique_ptr<Result>> R; std::vector<std::unique_ptr<ex::inplace_stop_source>> src; ghost<int> stop_begun; std::vector<std::unique_ptr<int>> data;
  for (size_t i = 0; i < n; i++) { R.push_back(std::make_unique<Result>()); src.push_back(std::make_unique<ex::inplace_stop_source>()); data.push_back(std::make_unique<int>(0)); }
  if (p.scope_stop == 1) { stop_begun.set(1); scope->request_stop(); }
  std::vector<std::atomic<int>> begun(n);   // released after the start of item i, so that its start happens before whoever reads it
  auto one = [&](size_t i) {
    const Item& it = p.it[i]; Result* r = R[i].get(); auto* sp = &src[i];
    auto child = [&] { return Child{it.c, &L[i], w.get()} | ex::then([d = data[i].get()](int x) noexcept { *d = x; return x; }); };
    if (it.kind == SPAWN) {
      scope->spawn(child() | ex::then([](int) noexcept {}) | ex::upon_error([](VErr) noexcept {}));
      VS_ASSERT(L[i].started.get() == 1, "spawn did not start the work"); begun[i].store(1, std::memory_order_release); return;
    }
    if (it.stop == BEFORE) src[i]->request_stop();
    r->on_done = [sp, dies = it.dies] { if (dies) sp->reset(); };
    auto drive = [&](auto s0) {
      auto s = std::make_unique<decltype(s0)>(std::move(s0));
      if (it.late) vs::idle(6);
      if (it.what == DROP) { s.reset(); return; }
      auto* box = make_op(std::move(*s), Rcv<>{r, (*sp)->get_token()}); s.reset();
      if (it.what == CONNECT_ONLY) { if (it.late) vs::idle(3); delete box; return; }
      if (it.destroy) r->after = [box] { delete box; };
      ex::start(box->op); begun[i].store(1, std::memory_order_release); r->wait(); if (!it.destroy) delete box;
    };
    if (it.kind == NEST) { auto s = scope->nest(child()); VS_ASSERT(L[i].started.get() == 0); drive(std::move(s)); }
    else { auto s = scope->spawn_future(child()); VS_ASSERT(L[i].started.get() == 1, "spawn_future did not start the work"); drive(std::move(s)); }
  };
  auto empty = [&](auto done) {                // wait for emptiness; everything started before must have ended
    std::vector<int> before(n); for (size_t i = 0; i < n; i++) before[i] = begun[i].load(std::memory_order_acquire) && !L[i].completed.get();
    Result r; r.on_done = [&] { for (size_t i = 0; i < n; i++) if (before[i]) { VS_ASSERT(L[i].completed.get() == L[i].started.get(), "on_empty completed although a nested operation is outstanding"); if (L[i].chan.get() == CH_VALUE && p.it[i].kind == SPAWN) VS_ASSERT(*data[i] == p.it[i].c.val); } done(); };
    ex::inplace_stop_source ns;
    if (p.when) { auto* box = make_op(scope->when_empty(ex::just(5)), Rcv<>{&r, ns.get_token()}); ex::start(box->op); r.wait(); VS_ASSERT(r.vals.size() == 1 && r.vals[0] == 5); delete box; }
    else { auto* box = make_op(scope->on_empty(), Rcv<>{&r, ns.get_token()}); ex::start(box->op); r.wait(); delete box; }
    VS_ASSERT(r.count.get() == 1 && r.chan.get() == CH_VALUE);
  };
  std::vector<std::function<void()>> fs; std::vector<size_t> here;
  for (size_t i = 0; i < n; i++) {
    if (p.it[i].own_thread) fs.push_back([&, i] { one(i); }); else here.push_back(i);
    if (p.it[i].kind != SPAWN && p.it[i].stop == CONC) fs.push_back([&, i] { src[i]->request_stop(); });
  }
  if (p.scope_stop == 2) fs.push_back([&] { stop_begun.set(1); scope->request_stop(); });
  if (!here.empty()) fs.push_back([&] { for (size_t i : here) one(i); });
  for (int k = 0; k < p.waiters; k++) fs.push_back([&] { empty([] {}); });
  vs_threads(std::move(fs));
  // final emptiness: the scope dies in the completion of the last waiter
  if (p.die) empty([&] { scope.reset(); }); else { empty([] {}); scope.reset(); }
  w->close();
  for (size_t i = 0; i < n; i++) {
    const Item& it = p.it[i]; VS_ASSERT(L[i].connected.get() == L[i].destroyed.get()); VS_ASSERT(L[i].completed.get() == L[i].started.get());
    if (it.kind == SPAWN) { VS_ASSERT(L[i].started.get() == 1); continue; }
    if (it.kind == FUTURE) VS_ASSERT(L[i].started.get() == 1, "spawned work did not run"); else VS_ASSERT(L[i].started.get() == (it.what == START ? 1 : 0));
    if (it.what != START) { VS_ASSERT(R[i]->count.get() == 0); continue; }
    Result& r = *R[i]; VS_ASSERT(r.count.get() == 1); int ch = r.chan.get();
    if (it.kind == FUTURE && it.stop != NOSTOP && ch == CH_STOPPED) { vs::label("future stopped"); continue; }
    VS_ASSERT(ch == L[i].chan.get(), "result changed"); if (ch == CH_VALUE) VS_ASSERT(r.vals.size() == 1 && r.vals[0] == it.c.val, "wrong value"); if (ch == CH_ERROR) VS_ASSERT(r.err.get() == it.c.val, "wrong error");
    if (L[i].saw_stop.get() && it.kind == NEST && it.stop == NOSTOP) VS_ASSERT(stop_begun.get(), "work was asked to stop although nobody requested it");
  }
  if (p.scope_stop == 1) for (size_t i = 0; i < n; i++) if (L[i].started.get()) VS_ASSERT(L[i].stop_at_start.get() == 1, "nested work does not see the scope's stop request");
}
vs::Case make(vs::Gen& g) {
  P p; int n = g.range(1, 2); p.scope_stop = g.chance(40) ? g.range(1, 2) : 0; p.waiters = g.chance(50) ? g.range(1, 2) : 0; p.die = g.chance(50); p.when = g.chance(30);
  for (int i = 0; i < n; i++) {
    Item it; int k = (int) g.below(6); it.kind = k < 2 ? NEST : k < 3 ? SPAWN : FUTURE; k = (int) g.below(10); it.what = k < 6 ? START : k < 8 ? CONNECT_ONLY : DROP; it.stop = it.kind != SPAWN && g.chance(50) ? g.range(1, 2) : 0; it.destroy = g.chance(50); it.dies = it.stop != CONC && g.chance(30); it.own_thread = g.chance(60); it.late = g.chance(30);
    it.c = gen_child(g, 40 + i, p.scope_stop != 0);
    p.it.push_back(it);
  }
  vs::Case c; c.desc = show(p); c.body = [p] { run(p); };
  return c;
}
}
int main(int argc, char** argv) { return vs::run_main(argc, argv, {{"scope", make}}); }
