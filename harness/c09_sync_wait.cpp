// C09: sync_wait blocks until completion, returns exactly what was delivered, runs delegated work meanwhile.
#include "vs_senders.hpp"
namespace {
struct Boom { int v; };
// child that completes on a worker in one of several ways, optionally after running work on the waiting thread
struct Spec { int where; int how; int hops; int val; bool touch; int late; };
// where: 0 inline 1 worker 2 on the waiting thread's run_loop (scheduled by a worker) ; how: 0 value 1 stopped 2 eptr 3 error_code 4 Boom
struct Ctl { Spec s; Worker* w; int caller; ghost<int> hops_run, started, completed; int payload = 0; };
template <class R> struct CtlOp final : VTask {
  using operation_state_concept = ex::operation_state_t;
  Ctl* c; R r; int magic = 77;
  using Sch = std::decay_t<decltype(ex::get_scheduler(ex::get_env(std::declval<R&>())))>;
  struct HopR { using receiver_concept = ex::receiver_t; CtlOp* o; int left;
    void set_value() noexcept { VS_ASSERT(vs::tid() == o->c->caller, "work scheduled through sync_wait's scheduler ran on another thread"); o->c->hops_run.add(1); o->hop_done(left); }
    void set_stopped() noexcept { vs::fail("run_loop work stopped"); } };
  using HopOp = ex::connect_result_t<decltype(ex::schedule(std::declval<Sch>())), HopR>;
  struct Conv { CtlOp* o; int left; operator HopOp() { return ex::connect(ex::schedule(o->sched()), HopR{o, left}); } };
  auto sched() { if (c->s.late & 1) return ex::get_delegation_scheduler(ex::get_env(r)); return ex::get_scheduler(ex::get_env(r)); }
  std::optional<HopOp> hop[3];
  CtlOp(Ctl* c, R r) : c(c), r(std::move(r)) {} CtlOp(CtlOp&&) = delete; ~CtlOp() { VS_ASSERT(c->completed.get() == c->started.get(), "sync_wait destroyed the operation before it completed"); VS_ASSERT(magic == 77); magic = 0; }
  void start() & noexcept { c->started.add(1); if (c->s.where == 0 && !c->s.hops) fin(); else if (c->s.where == 2 && (c->s.late & 2)) next(); else if (c->s.where == 0) next(); else c->w->post(this); }
  void run() noexcept override { next(); }
  void next() { if (c->s.where == 1) { if (!c->s.hops) { fin(); return; } } int n = c->s.where == 2 ? std::max(1, c->s.hops) : c->s.hops; hop[n - 1].emplace(Conv{this, n - 1}); ex::start(*hop[n - 1]); }
  void hop_done(int left) { if (left) { hop[left - 1].emplace(Conv{this, left - 1}); ex::start(*hop[left - 1]); } else fin2(); }
  struct T2 final : VTask { CtlOp* o; void run() noexcept override { o->fin(); } } t2;
  void fin2() { if (c->s.where == 1) { t2.o = this; c->w->post(&t2); } else fin(); }
  void fin() {
    c->completed.add(1); c->payload = 99; int v = c->s.val;
    switch (c->s.how) {
      case 0: ex::set_value(std::move(r), int(v), v + 1); break;
      case 1: ex::set_stopped(std::move(r)); break;
      case 2: ex::set_error(std::move(r), std::make_exception_ptr(Boom{v})); break;
      case 3: ex::set_error(std::move(r), std::make_error_code((std::errc) (v + 1))); break;
      case 4: ex::set_error(std::move(r), Boom{v}); break;
    }
  }
};
struct CtlSender {
  using sender_concept = ex::sender_t;
  using completion_signatures = ex::completion_signatures<ex::set_value_t(int, int), ex::set_error_t(std::exception_ptr), ex::set_error_t(std::error_code), ex::set_error_t(Boom), ex::set_stopped_t()>;
  Ctl* c; template <class R> auto connect(R r) const { return CtlOp<R>(c, std::move(r)); }
};
__attribute__((noinline)) void scribble() { volatile char b[3000]; for (size_t i = 0; i < sizeof b; i += 8) *(volatile uint64_t*) (b + i - (uintptr_t) (b + i) % 8 + 8 * (i + 16 < sizeof b)) = 0x5a5a5a5a; }
__attribute__((noinline)) void one(Ctl& c, int kind) {
  int how = c.s.how, v = c.s.val; int got = -1;
  try {
    if (kind == 0) { auto r = ex::sync_wait(CtlSender{&c}); if (r) { got = 0; VS_ASSERT(std::get<0>(*r) == v && std::get<1>(*r) == v + 1, "wrong values returned"); } else got = 1; }
    else if (kind == 1) { auto r = ex::sync_wait_with_variant(CtlSender{&c}); if (r) { got = 0; auto& t = std::get<0>(*r); VS_ASSERT(std::get<0>(t) == v && std::get<1>(t) == v + 1, "wrong values returned"); } else got = 1; }
    else { auto r = ex::sync_wait(ex::then(CtlSender{&c}, [&](int a, int b) { VS_ASSERT(a == v && b == v + 1); return a; })); if (r) { got = 0; VS_ASSERT(std::get<0>(*r) == v); } else got = 1; }
  } catch (std::system_error& e) { got = 3; VS_ASSERT(e.code() == std::make_error_code((std::errc) (v + 1)), "wrong error code"); }
  catch (Boom& b) { got = how == 4 ? 4 : 2; VS_ASSERT(b.v == v, "wrong exception"); }
  VS_ASSERT(c.completed.get() == 1, "sync_wait returned before the operation completed");
  VS_ASSERT(got == how, "sync_wait reported another channel than the one delivered");
  VS_ASSERT(c.payload == 99, "writes before the completion are not visible after sync_wait");
  if (c.s.hops || c.s.where == 2) VS_ASSERT(c.hops_run.get() == (c.s.where == 2 ? std::max(1, c.s.hops) : c.s.hops), "delegated work did not run");
}
vs::Case make(vs::Gen& g) {
  int callers = g.range(1, 2), rounds = g.range(1, 2), workers = g.range(1, 2); std::vector<std::vector<std::pair<Spec, int>>> s(callers);
  vs::Case c; c.desc = sfmt("callers=%d workers=%d:", callers, workers);
  static const char* wh[] = {"inline", "worker", "waiting-loop"}; static const char* hw[] = {"value", "stopped", "exception_ptr", "error_code", "Boom"};
  for (int i = 0; i < callers; i++) for (int k = 0; k < rounds; k++) {
    Spec x; x.where = g.chance(10) ? 0 : g.range(1, 2); x.how = (int) g.below(5); x.hops = (int) g.below(3); x.val = (int) g.below(50); x.late = (int) g.below(4); x.touch = false; int kind = (int) g.below(3);
    s[i].push_back({x, kind}); c.desc += sfmt(" [%s %s hops=%d via%d kind=%d]", wh[x.where], hw[x.how], x.hops, x.late, kind);
  }
  c.body = [=] {
    std::vector<std::unique_ptr<Worker>> ws; for (int i = 0; i < workers; i++) ws.push_back(std::make_unique<Worker>());
    std::vector<std::function<void()>> fs;
    for (int i = 0; i < callers; i++) fs.push_back([&, i] { for (auto& [x, kind] : s[i]) { auto ctl = std::make_unique<Ctl>(); ctl->s = x; ctl->w = ws[i % workers].get(); ctl->caller = vs::tid(); one(*ctl, kind); scribble(); } });
    vs_threads(std::move(fs));
    for (auto& w : ws) w->close();
  };
  return c;
}
}
int main(int argc, char** argv) { return vs::run_main(argc, argv, {{"sync_wait", make, 1}}); }
