// C15: split and ensure_started - the work runs once, every observer gets its result, cancellation is per observer.
#include "vs_senders.hpp"
#include <exec/split.hpp>
#include <exec/ensure_started.hpp>
namespace {
enum { NOSTOP, BEFORE, CONC }; enum { START, CONNECT_ONLY, DROP };
struct Obs { int what, stop; bool destroy, late, own_thread, dies; };
struct P { bool ens; ChildSpec c; std::vector<Obs> o; bool keep; };
std::string show(const P& p) {
  std::string s = sfmt("%s child=%s%s:", p.ens ? "ensure_started" : "split", show(p.c).c_str(), p.keep ? " handle-kept" : "");
  for (auto& o : p.o) s += sfmt(" (%s%s%s%s%s%s)", o.what == START ? "start" : o.what == CONNECT_ONLY ? "connect-only" : "drop", o.stop == BEFORE ? " stopped" : o.stop == CONC ? " stop-concurrent" : "", o.destroy ? " !" : "", o.late ? " after-completion" : "", o.own_thread ? "" : " main-thread", o.dies ? " source-dies" : "");
  return s;
}
vs::Case make(vs::Gen& g) {
  P p; p.ens = g.chance(40); int n = p.ens ? 1 : g.range(1, 3); p.keep = !p.ens && g.chance(30);
  for (int i = 0; i < n; i++) { Obs o; o.what = (int) g.below(10); o.what = o.what < 8 ? START : o.what == 8 ? CONNECT_ONLY : DROP; o.stop = g.chance(45) ? g.range(1, 2) : 0; o.destroy = g.chance(50); o.late = g.chance(15); o.own_thread = g.chance(70) || o.late; o.dies = o.stop != CONC && g.chance(30); p.o.push_back(o); }
  bool wait_ok = n == 1 && !p.keep && (p.o[0].what != START || p.o[0].stop); if (!p.ens && p.o[0].what != START) wait_ok = wait_ok && true;
  p.c = gen_child(g, 33, wait_ok); if (p.c.mode == M_WAITSTOP) for (auto& o : p.o) o.late = false;
  // an observer that waits for the completion needs somebody else to start the work
  if (!p.ens) { bool starter = false; for (auto& o : p.o) starter |= o.what == START && o.stop == NOSTOP && !o.late; if (!starter) for (auto& o : p.o) o.late = false; }
  vs::Case c; c.desc = show(p);
  c.body = [p] {
    Ledger L; auto w = std::make_unique<Worker>(); size_t n = p.o.size();
    std::vector<std::unique_ptr<Result>> R; std::vector<std::unique_ptr<ex::inplace_stop_source>> src; for (auto& o : p.o) { R.push_back(std::make_unique<Result>()); src.push_back(std::make_unique<ex::inplace_stop_source>()); (void) o; }
    std::mutex m; std::condition_variable cv; bool child_done = false; ghost<int> stop_begun[4];
    auto work = ex::then(Child{p.c, &L, w.get()}, [&](int x) { return x; });
    auto signal = [&] { std::unique_lock l(m); child_done = true; cv.notify_all(); };
    auto drive = [&](auto h0) {
      using H = decltype(h0); auto h = std::make_unique<H>(std::move(h0));
      if (p.ens) VS_ASSERT(L.started.get() == 1, "ensure_started did not start the work immediately"); else VS_ASSERT(L.started.get() == 0, "split started the work before an observer was started");
      std::vector<std::function<void()>> fs, here;
      for (size_t i = 0; i < n; i++) {
        const Obs& o = p.o[i]; Result* r = R[i].get(); auto* sp = &src[i];
        if (o.stop == BEFORE) { stop_begun[i].set(1); (*sp)->request_stop(); }
        std::shared_ptr<H> mine;
        if constexpr (requires { H(*h); }) mine = std::make_shared<H>(*h); else mine = std::make_shared<H>(std::move(*h));
        r->on_done = [&, sp, dies = o.dies] { if (dies) sp->reset(); };
        auto f = [&, i, r, sp, mine]() mutable {
          const Obs& o = p.o[i];
          if (o.late && o.what == START) { std::unique_lock l(m); while (!child_done) cv.wait(l); }
          if (o.what == DROP) { mine.reset(); return; }
          auto* box = make_op(std::move(*mine), Rcv<>{r, (*sp)->get_token()}); mine.reset();
          if (o.what == CONNECT_ONLY) { delete box; return; }
          if (o.destroy) r->after = [box] { delete box; };
          ex::start(box->op); r->wait(); if (!o.destroy) delete box;
        };
        (o.own_thread ? fs : here).push_back(f);
        if (o.stop == CONC && o.what == START) fs.push_back([&, i, sp] { stop_begun[i].set(1); (*sp)->request_stop(); });
      }
      if (!p.keep) h.reset();
      fs.push_back([&] { for (auto& f : here) f(); });
      vs_threads(std::move(fs));
      h.reset();
    };
    // the worker signals the completion of the child to the late observers
    if (p.ens) { drive(exec::ensure_started(ex::then(std::move(work), [&](int x) { signal(); return x; }) | ex::upon_error([&](auto e) -> int { signal(); if constexpr (std::is_same_v<decltype(e), VErr>) throw e; else std::rethrow_exception(e); }) | ex::let_stopped([&] { signal(); return ex::just_stopped(); }))); }
    else drive(exec::split(ex::then(std::move(work), [&](int x) { signal(); return x; }) | ex::upon_error([&](auto e) -> int { signal(); if constexpr (std::is_same_v<decltype(e), VErr>) throw e; else std::rethrow_exception(e); }) | ex::let_stopped([&] { signal(); return ex::just_stopped(); })));
    w->close();
    VS_ASSERT(L.connected.get() == 1 && L.destroyed.get() == 1, "the work was not connected and destroyed exactly once");
    bool must_start = p.ens; for (auto& o : p.o) must_start |= o.what == START && o.stop == NOSTOP;
    if (must_start) VS_ASSERT(L.started.get() == 1, "the work was not started"); VS_ASSERT(L.completed.get() == L.started.get());
    int cch = L.chan.get(); bool someone = false;
    for (size_t i = 0; i < n; i++) if (p.o[i].what == START) {
      Result& r = *R[i]; VS_ASSERT(r.count.get() == 1); int ch = r.chan.get(); if (p.o[i].stop == NOSTOP) someone = true;
      if (ch == CH_STOPPED && p.o[i].stop != NOSTOP) { vs::label("cancelled"); continue; }
      if (p.o[i].stop == BEFORE && !p.ens && !L.started.get()) vs::fail("completed although the work never ran");
      VS_ASSERT(ch == cch, "an observer did not complete with the work's own completion");
      if (ch == CH_VALUE) VS_ASSERT(r.vals.size() == 1 && r.vals[0] == 33, "wrong value"); if (ch == CH_ERROR) VS_ASSERT(r.err.get() == 33, "wrong error");
    }
    if (someone) VS_ASSERT(!L.saw_stop.get(), "cancelling one observer stopped the work although another observer waits for it");
    if (p.ens && L.saw_stop.get()) vs::label("work stopped");
  };
  return c;
}
}
int main(int argc, char** argv) { return vs::run_main(argc, argv, {{"shared", make}}); }
