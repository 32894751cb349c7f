// C20: timed_thread_scheduler - each timer completes exactly once, never early, in deadline order, cancels promptly;
// and the intrusive heap underneath, against a sorted reference.
#include "vs_senders.hpp"
#include <exec/timed_thread_scheduler.hpp>
#include <exec/timed_scheduler.hpp>
#include <set>
namespace {
using Ctx = exec::timed_thread_context; using Sch = exec::timed_thread_scheduler; using TP = Sch::time_point;
constexpr uint64_t MS = 1000000ull, FAR = 3600000; // one hour, in ms
uint64_t ns(TP t) { return (uint64_t) std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); }
enum { AT, AFTER, SCHED }; enum { NOSTOP, BEFORE, CONC };
struct Spec { int kind, ms, stop, delay; bool destroy; int child; };
struct World; struct Timer;
struct TRcv { using receiver_concept = ex::receiver_t; Timer* t; void set_value() noexcept; void set_stopped() noexcept; REnv<> get_env() const noexcept; };
struct OpBase { virtual ~OpBase() = default; virtual void start() = 0; };
template <class S> struct OpI final : OpBase { ex::connect_result_t<S, TRcv> op; OpI(S s, TRcv r) : op(ex::connect(std::move(s), r)) {} void start() override { ex::start(op); } };
struct World {
  std::unique_ptr<Ctx> ctx; std::vector<std::unique_ptr<Timer>> t; std::mutex m; std::condition_variable cv; int left = 0; ghost<int> order, down;
};
struct Timer {
  World* w; int id; Spec s; ex::inplace_stop_source src; std::unique_ptr<OpBase> op; uint64_t data = 0; bool fin = false;
  ghost<int> n, chan{-1}, stop_begun, pos{-1}, by{-1}; ghost<uint64_t> deadline, at, started_at, stop_at; ghost<int> started;
  void start() {
    auto sch = w->ctx->get_scheduler(); auto d = std::chrono::milliseconds(s.ms);
    if (s.kind == AT) { TP tp = Sch::now() + d; deadline.set(ns(tp)); auto snd = exec::schedule_at(sch, tp); op = std::make_unique<OpI<decltype(snd)>>(std::move(snd), TRcv{this}); }
    else if (s.kind == AFTER) { deadline.set(vs::now_ns() + (uint64_t) s.ms * MS); auto snd = exec::schedule_after(sch, std::chrono::duration_cast<Sch::duration>(d)); op = std::make_unique<OpI<decltype(snd)>>(std::move(snd), TRcv{this}); }
    else { deadline.set(0); auto snd = ex::schedule(sch); op = std::make_unique<OpI<decltype(snd)>>(std::move(snd), TRcv{this}); }
    data = 77 + (uint64_t) id; if (s.stop == BEFORE) { stop_begun.set(1); src.request_stop(); stop_at.set(vs::now_ns()); }
    started_at.set(vs::now_ns()); by.set(vs::tid()); started.set(1);
    op->start();
  }
  void stop() { stop_begun.set(1); src.request_stop(); stop_at.set(vs::now_ns()); }
  void complete(int ch) {
    VS_ASSERT(n.add(1) == 1, "timer completed twice"); VS_ASSERT(started.get()); VS_ASSERT(data == 77 + (uint64_t) id, "data written before start is not visible in the completion");
    at.set(vs::now_ns()); chan.set(ch); pos.set(w->order.add(1));
    if (ch == CH_VALUE) { VS_ASSERT(at.get() >= deadline.get(), "timer fired early"); VS_ASSERT(s.stop != BEFORE, "set_value although stop was requested before start"); VS_ASSERT(vs::tid() == 1, "timer did not fire on the timer thread"); }
    else VS_ASSERT(stop_begun.get() || w->down.get(), "set_stopped although nobody requested stop");
    World* W = w; int c = s.child; if (s.destroy) op.reset();
    if (c >= 0 && !W->down.get()) W->t[(size_t) c]->start();
    std::unique_lock l(W->m); fin = true; W->left--; if (c >= 0 && !W->t[(size_t) c]->started.get()) W->left--; W->cv.notify_all();
  }
};
void TRcv::set_value() noexcept { t->complete(CH_VALUE); } void TRcv::set_stopped() noexcept { t->complete(CH_STOPPED); } REnv<> TRcv::get_env() const noexcept { return {t->src.get_token()}; }
vs::Case make(vs::Gen& g) {
  struct P { int clients; bool shutdown, race; std::vector<Spec> s; std::vector<std::vector<std::pair<int, int>>> roots; } p; // roots: (timer, sleep before in ms)
  p.clients = g.range(1, 3); p.shutdown = g.chance(35); p.race = g.chance(50); int n = g.range(1, 6); p.roots.resize((size_t) p.clients);
  vs::Case c; c.desc = sfmt("clients=%d%s:", p.clients, p.shutdown ? p.race ? " destroy-context-early-while-stopping" : " destroy-context-early" : p.race ? " destroy-context-at-last-completion" : "");
  for (int i = 0; i < n; i++) {
    Spec s; s.kind = g.pick({AT, AFTER, SCHED}); static const int D[] = {0, 1, 2, 2, 3, 5, -3, 5000, (int) FAR}; s.ms = s.kind == SCHED ? 0 : D[g.below(9)];
    s.stop = g.chance(45) ? g.range(1, 2) : 0; if (s.ms == (int) FAR && !p.shutdown && !s.stop) s.stop = CONC; s.delay = s.stop == CONC ? (g.chance(60) ? 0 : g.range(1, 4)) : 0; s.destroy = g.chance(50); s.child = -1;
    int parent = i > 0 && g.chance(25) ? (int) g.below((uint32_t) i) : -1; if (parent >= 0 && p.s[(size_t) parent].child >= 0) parent = -1;
    int cl = (int) g.below((uint32_t) p.clients), sl = g.chance(30) ? g.range(1, 3) : 0;
    if (parent >= 0) p.s[(size_t) parent].child = i; else p.roots[(size_t) cl].push_back({i, sl});
    c.desc += sfmt(" %d(%s%s%s%s%s%s)", i, parent >= 0 ? sfmt("after %d", parent).c_str() : sfmt("client %d", cl).c_str(), s.kind == AT ? " at" : s.kind == AFTER ? " after" : " now", s.kind == SCHED ? "" : sfmt(" %dms", s.ms).c_str(), s.stop == BEFORE ? " stopped" : s.stop == CONC ? sfmt(" stop-concurrent+%dms", s.delay).c_str() : "", s.destroy ? " !" : "", parent < 0 && sl ? sfmt(" sleep %d", sl).c_str() : "");
    p.s.push_back(s);
  }
  c.body = [p] {
    World w; w.ctx = std::make_unique<Ctx>(); w.left = (int) p.s.size();
    for (size_t i = 0; i < p.s.size(); i++) { w.t.push_back(std::make_unique<Timer>()); auto& t = *w.t.back(); t.w = &w; t.id = (int) i; t.s = p.s[i]; }
    std::vector<std::function<void()>> fs, stoppers; int nch = 0;
    for (auto& r : p.roots) fs.push_back([&w, &r] { for (auto& [i, sl] : r) { if (sl) std::this_thread::sleep_for(std::chrono::milliseconds(sl)); w.t[(size_t) i]->start(); } });
    for (auto& t : w.t) { if (t->s.child >= 0) nch++; if (t->s.stop == CONC) (p.shutdown && p.race ? stoppers : fs).push_back([&t] { if (t->s.delay) std::this_thread::sleep_for(std::chrono::milliseconds(t->s.delay)); t->stop(); }); }
    // everything has completed: the context may go even if a start() or request_stop() is still returning
    if (!p.shutdown) fs.push_back([&] { std::unique_lock l(w.m); while (w.left) w.cv.wait(l); l.unlock(); if (p.race) { w.down.set(1); w.ctx.reset(); } });
    vs_threads(std::move(fs));
    if (p.shutdown && nch) { std::unique_lock l(w.m); while (w.left) { bool pend = false; for (auto& t : w.t) if (t->started.get() && !t->fin && t->s.child >= 0) pend = true; if (!pend) break; w.cv.wait(l); } } // do not destroy the context while a completion may start another timer
    w.down.set(1);
    stoppers.push_back([&] { w.ctx.reset(); }); vs_threads(std::move(stoppers));
    uint32_t jumps = vs::time_jumps();
    for (auto& tp : w.t) {
      Timer& t = *tp; if (!t.started.get()) continue;
      if (t.n.get() == 0) vs::fail("timer %d neither fired nor was stopped, and its context is gone", t.id);
      if (jumps) continue;
      // no timeout fired while some thread could run: promptness is exact
      uint64_t slack = MS / 2, start = t.started_at.get();
      if (t.chan.get() == CH_VALUE) { uint64_t due = std::max(t.deadline.get(), start); if (t.at.get() > due + slack) vs::fail("timer %d fired %.1f ms late", t.id, (double) (t.at.get() - due) / MS); }
      if (t.stop_at.get() && !p.shutdown) { uint64_t req = std::max(t.stop_at.get(), start); if (t.at.get() > req + slack) vs::fail("timer %d completed %.1f ms after stop was requested", t.id, (double) (t.at.get() - req) / MS); }
      // started earlier by the same thread with a deadline that is not later: fires first
      for (auto& up : w.t) { Timer& u = *up; if (&u != &t && u.started.get() && u.chan.get() == CH_VALUE && t.chan.get() == CH_VALUE && u.by.get() == t.by.get() && t.started_at.get() < u.started_at.get() && t.deadline.get() + (t.s.kind == AFTER ? 1000 : 0) <= u.deadline.get() && t.pos.get() > u.pos.get()) vs::fail("timer %d (deadline not later, started first) fired after timer %d", t.id, u.id);
        if (&u != &t && u.started.get() && u.chan.get() == CH_VALUE && t.chan.get() == CH_VALUE && t.deadline.get() + 1000 < u.deadline.get() && t.started_at.get() + MS / 2 < u.deadline.get() && t.pos.get() > u.pos.get()) vs::fail("timer %d with an earlier deadline fired after timer %d", t.id, u.id); }
    }
    int st = 0; for (auto& t : w.t) st += t->chan.get() == CH_STOPPED; if (st) vs::label("stopped"); if (p.shutdown) vs::label("early shutdown");
  };
  return c;
}
// the intrusive heap against a sorted reference
struct Node { int key = 0; int seq = 0; Node* prev = nullptr; Node* left = nullptr; Node* right = nullptr; bool in = false; };
using Heap = exec::intrusive_heap<Node, int, &Node::key, &Node::prev, &Node::left, &Node::right>;
vs::Case make_heap(vs::Gen& g) {
  int n = g.range(1, 60), range = g.pick({3, 10, 1000}); std::vector<std::pair<int, int>> ops; // (kind, arg)
  for (int i = 0; i < n; i++) { int k = (int) g.below(10); ops.push_back({k < 5 ? 0 : k < 7 ? 1 : 2, (int) g.below(k < 5 ? (uint32_t) range : 64)}); }
  vs::Case c; c.desc = "heap:"; for (auto& [k, a] : ops) c.desc += k == 0 ? sfmt(" +%d", a) : k == 1 ? " pop" : sfmt(" erase#%d", a);
  c.body = [ops] {
    vs::nontrivial(ops.size() >= 4);
    Heap h; std::vector<std::unique_ptr<Node>> all; std::multiset<int> ref;
    auto check = [&] { Node* f = h.front(); if (ref.empty()) VS_ASSERT(f == nullptr, "empty heap has a front"); else VS_ASSERT(f && f->in && f->key == *ref.begin(), "front is not a minimum element"); };
    for (auto& [k, a] : ops) {
      if (k == 0) { all.push_back(std::make_unique<Node>()); Node* x = all.back().get(); x->key = a; h.insert(x); x->in = true; ref.insert(a); }
      else if (k == 1) { if (Node* f = h.front()) { h.pop_front(); VS_ASSERT(f->in); f->in = false; ref.erase(ref.find(f->key)); if (!h.erase(f)) {} else vs::fail("erase of a popped element reports that it was in the heap"); } }
      else if (!all.empty()) { Node* x = all[(size_t) a % all.size()].get(); bool r = h.erase(x); VS_ASSERT(r == x->in, "erase reports wrongly whether the element was in the heap"); if (r) { x->in = false; ref.erase(ref.find(x->key)); if (a & 1) { VS_ASSERT(!h.erase(x), "erased twice"); } if (a & 2) { h.insert(x); x->in = true; ref.insert(x->key); } } }
      check();
    }
    int last = -1; size_t cnt = 0, want = ref.size(); while (Node* f = h.front()) { VS_ASSERT(f->in && f->key >= last, "elements do not come out in order"); last = f->key; f->in = false; h.pop_front(); cnt++; VS_ASSERT(cnt <= want); } VS_ASSERT(cnt == want, "elements were lost");
  };
  return c;
}
}
int main(int argc, char** argv) { return vs::run_main(argc, argv, {{"timed", make, 5}, {"heap", make_heap, 1}}); }
