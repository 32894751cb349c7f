// C25: start_now, create and execute, with children completing on other threads.
#include "vs_senders.hpp"
#include <exec/async_scope.hpp>
#include <exec/start_now.hpp>
#include <exec/create.hpp>
#include <exec/execute.hpp>
#include <exec/start_detached.hpp>
namespace {
struct Q { constexpr auto query(ex::forwarding_query_t) const noexcept { return true; } template <class E> requires requires(const E& e, const Q& q) { e.query(q); } int operator()(const E& e) const noexcept { return e.query(*this); } };
// ---- start_now: starts every child at once; async_wait completes once when all of them have ended ----
vs::Case make_now(vs::Gen& g) {
  struct P { std::vector<ChildSpec> c; int stop, env; bool scope_stop, wait_thread, destroy, late; } p;
  int n = g.range(1, 3); p.stop = (int) g.below(3); p.scope_stop = g.chance(30); p.env = (int) g.below(2); p.wait_thread = g.chance(50); p.destroy = g.chance(60); p.late = g.chance(40);
  bool stops = p.scope_stop;   // nest gives its operations the scope's token, so only the scope's request is sure to reach them
  for (int i = 0; i < n; i++) p.c.push_back(gen_child(g, 60 + i, stops));
  vs::Case cs; cs.desc = sfmt("start_now%s stop=%s%s wait-%s%s%s:", p.env ? "(env)" : "", p.stop == 0 ? "no" : p.stop == 1 ? "at-once" : "concurrent", p.scope_stop ? " scope-stop" : "", p.wait_thread ? "thread" : "here", p.late ? "-late" : "", p.destroy ? " destroyed-in-completion" : "");
  for (auto& c : p.c) cs.desc += " " + show(c);
  cs.body = [p, n] {
    exec::async_scope scope; Worker w; std::vector<Ledger> L(4); Result R; ghost<int> stop_any, seen{-1}; std::unique_ptr<int[]> data(new int[4]());
    auto child = [&](int i) { return Child{p.c[(size_t) i], &L[(size_t) i], &w} | ex::then([d = data.get(), i](int v) noexcept { d[i] = v; }) | ex::upon_error([d = data.get(), i](VErr e) noexcept { d[i] = e.code; }); };
    auto go = [&](auto make) {
      using S = decltype(make());
      struct Box { S s; Box(decltype(make)& m) : s(m()) {} };
      auto* st = new Box(make);
      for (int i = 0; i < n; i++) VS_ASSERT(L[(size_t) i].started.get() == 1, "start_now returned without having started a child");
      if (p.stop == 1) { stop_any.set(1); bool first = st->s.request_stop(); VS_ASSERT(first, "the first request_stop returned false"); VS_ASSERT(st->s.get_token().stop_requested(), "the token does not see the request"); }
      auto wait = [&] {
        if (p.late) vs::idle(5);
        ex::inplace_stop_source ns; auto* box = make_op(st->s.async_wait(), Rcv<>{&R, ns.get_token()});
        R.on_done = [&, n] { for (int i = 0; i < n; i++) { auto& l = L[(size_t) i]; VS_ASSERT(l.completed.get() == 1, "async_wait completed although a child is still running"); int want = l.chan.get() == CH_STOPPED ? 0 : 60 + i; VS_ASSERT(data[(size_t) i] == want, "a child's work is not visible to the completion of async_wait"); } data.reset(); };
        if (p.destroy) R.after = [st, box] { delete box; delete st; };
        ex::start(box->op); R.wait(); if (!p.destroy) { delete box; delete st; }
      };
      std::vector<std::function<void()>> fs; bool own = false;
      // the storage may be gone once async_wait completes, so a concurrent request is made only while it is kept
      if (p.stop == 2 && !p.destroy) { own = true; }
      if (p.scope_stop) fs.push_back([&] { stop_any.set(1); scope.request_stop(); });
      if (own) {
        // keep the storage until both the waiter and the requester are done
        auto wait2 = [&] {
          if (p.late) vs::idle(5);
          ex::inplace_stop_source ns; auto* box = make_op(st->s.async_wait(), Rcv<>{&R, ns.get_token()});
          R.on_done = [&, n] { for (int i = 0; i < n; i++) VS_ASSERT(L[(size_t) i].completed.get() == 1, "async_wait completed although a child is still running"); };
          ex::start(box->op); R.wait(); delete box;
        };
        fs.push_back([&] { stop_any.set(1); st->s.request_stop(); }); fs.push_back(wait2); vs_threads(std::move(fs)); delete st;
      } else {
        if (p.stop == 2) { stop_any.set(1); st->s.request_stop(); }
        if (p.wait_thread || !fs.empty()) { fs.push_back(wait); vs_threads(std::move(fs)); } else wait();
      }
    };
    auto probe = [&] { return ex::read_env(Q{}) | ex::then([&](int v) noexcept { seen.set(v); }); };
    if (p.env) {
      auto env = ex::prop{Q{}, 4242};
      if (n == 1) go([&] { return exec::start_now(env, scope, child(0), probe()); });
      else if (n == 2) go([&] { return exec::start_now(env, scope, child(0), probe(), child(1)); });
      else go([&] { return exec::start_now(env, scope, child(0), child(1), child(2), probe()); });
      VS_ASSERT(seen.get() == 4242, "a child does not see the environment given to start_now");
    } else {
      if (n == 1) go([&] { return exec::start_now(scope, child(0)); });
      else if (n == 2) go([&] { return exec::start_now(scope, child(0), child(1)); });
      else go([&] { return exec::start_now(scope, child(0), child(1), child(2)); });
    }
    VS_ASSERT(R.count.get() == 1 && R.chan.get() == CH_VALUE, "async_wait did not complete with set_value exactly once");
    { Result e; ex::inplace_stop_source ns; auto* box = make_op(scope.on_empty(), Rcv<>{&e, ns.get_token()}); ex::start(box->op); e.wait(); delete box; }
    w.close();
    for (int i = 0; i < n; i++) { auto& l = L[(size_t) i]; VS_ASSERT(l.started.get() == 1 && l.completed.get() == 1 && l.live.get() == 0, "a child was not run exactly once"); if (!stop_any.get()) VS_ASSERT(!l.saw_stop.get() && !l.stop_at_start.get(), "a child saw a stop request that nobody made"); }
    vs::label(p.stop || p.scope_stop ? "stopped" : "not stopped");
  };
  return cs;
}
// ---- create: the function runs once per start with the receiver and the arguments; what it returns lives as long as the operation ----
struct Guard { ghost<int>* live; ghost<int>* made; Guard(ghost<int>* l, ghost<int>* m) : live(l), made(m) { live->add(1); made->add(1); } Guard(Guard&&) = delete; ~Guard() { live->add(-1); } };
template <class Ctx> struct Post final : VTask { Ctx* c; int chan = 0, val = 0; void run() noexcept override { auto* x = c; if (chan == 0) ex::set_value(std::move(x->receiver), int(val)); else if (chan == 1) ex::set_error(std::move(x->receiver), VErr{val}); else ex::set_stopped(std::move(x->receiver)); } };
vs::Case make_create(vs::Gen& g) {
  struct P { int mode, chan, val, times; bool ret, destroy, lvalue; } p;
  p.mode = (int) g.below(2); p.chan = (int) g.below(3); p.val = g.range(1, 99); p.ret = g.chance(50); p.destroy = !p.ret && g.chance(60); p.lvalue = g.chance(40); p.times = p.lvalue ? g.range(1, 2) : 1;
  vs::Case cs; cs.desc = sfmt("create %s chan=%d%s%s%s x%d", p.mode ? "worker" : "inline", p.chan, p.ret ? " returns-guard" : "", p.destroy ? " destroyed-in-completion" : "", p.lvalue ? " lvalue" : "", p.times);
  cs.body = [p] {
    Worker w; ghost<int> calls, live, made; std::deque<std::shared_ptr<void>> tasks; ex::inplace_stop_source ns;
    auto body = [&](auto& ctx) noexcept {
      calls.add(1); auto& [a, s] = ctx.args; VS_ASSERT(a == p.val && s == "a string that is long enough to be on the heap", "create passed other arguments");
      using C = std::remove_reference_t<decltype(ctx)>; auto t = std::make_shared<Post<C>>(); t->c = &ctx; t->chan = p.chan; t->val = a; tasks.push_back(t);
      if (p.mode) w.post(t.get()); else t->run();
    };
    auto run = [&](auto make) {
      auto s = make();
      for (int k = 0; k < p.times; k++) {
        Result R; auto* box = [&] { if (p.lvalue) return make_op(s, Rcv<>{&R, ns.get_token()}); else return make_op(std::move(s), Rcv<>{&R, ns.get_token()}); }();
        VS_ASSERT(calls.get() == k, "the function ran before start");
        if (p.destroy) R.after = [box] { delete box; };
        ex::start(box->op); R.wait();
        VS_ASSERT(calls.get() == k + 1, "the function did not run exactly once per start");
        if (p.ret) VS_ASSERT(live.get() == 1 && made.get() == k + 1, "what the function returned is not alive while the operation is");
        if (!p.destroy) delete box;
        VS_ASSERT(live.get() == 0, "what the function returned outlived the operation");
        VS_ASSERT(R.count.get() == 1 && R.chan.get() == p.chan, "wrong completion"); if (p.chan == 0) VS_ASSERT(R.vals.size() == 1 && R.vals[0] == p.val); if (p.chan == 1) VS_ASSERT(R.err.get() == p.val);
      }
    };
    std::string str = "a string that is long enough to be on the heap"; using Sigs = ex::completion_signatures<ex::set_value_t(int), ex::set_error_t(VErr), ex::set_stopped_t()>;
    if (p.ret) run([&] { return exec::create<Sigs>([&](auto& ctx) noexcept { body(ctx); return Guard(&live, &made); }, p.val, str); });
    else run([&] { return exec::create<ex::set_value_t(int), ex::set_error_t(VErr), ex::set_stopped_t()>([&](auto& ctx) noexcept { body(ctx); }, p.val, str); });
    VS_ASSERT(str.size() > 20); w.close(); vs::label(p.mode ? "worker" : "inline");
  };
  return cs;
}
// ---- execute: the function runs exactly once, on the scheduler's thread ----
vs::Case make_execute(vs::Gen& g) {
  int n = g.range(1, 4), thr = g.range(1, 2);
  vs::Case cs; cs.desc = sfmt("execute %d functions from %d threads on a run_loop", n, thr);
  cs.body = [n, thr] {
    ex::run_loop loop; auto sch = loop.get_scheduler(); ghost<int> rt{-1}; std::unique_ptr<int[]> ran(new int[(size_t) n]()); auto own = std::make_shared<int>(0);
    std::thread t([&] { rt.set(vs::tid()); loop.run(); });
    std::vector<std::function<void()>> fs;
    for (int k = 0; k < thr; k++) fs.push_back([&, k] { for (int i = k; i < n; i += thr) exec::__execute(sch, [&, i, own] { VS_ASSERT(vs::tid() == rt.get(), "the function ran outside the scheduler"); ran[(size_t) i]++; }); });
    vs_threads(std::move(fs)); loop.finish(); t.join();
    for (int i = 0; i < n; i++) VS_ASSERT(ran[(size_t) i] == 1, "a function did not run exactly once");
    VS_ASSERT(own.use_count() == 1, "the function object was leaked"); vs::label("executed");
  };
  return cs;
}
}
int main(int argc, char** argv) { return vs::run_main(argc, argv, {{"start_now", make_now, 3}, {"create", make_create, 2}, {"execute", make_execute, 1}}); }
