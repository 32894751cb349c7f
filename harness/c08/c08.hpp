// C08: bulk family on generated shapes / schedulers / policies / failures, driven sequentially.
#pragma once
#include "vs_common.hpp"
#include <stdexec/execution.hpp>
#include <exec/thread_pool_base.hpp>
#include <exec/inline_scheduler.hpp>
#include <optional>
namespace ex = stdexec;
namespace c08 {
struct Log {
  long shape = 0; bool chunked = false, nothrow_ = false, seq = false; int throw_at = -1; // index whose visit throws (second index thr2 as well)
  int throw2 = -1; std::vector<uint8_t> hit; long calls = 0, thrown = 0; int done = 0, chan = -1, err = -1; long run = 0, first_run = -1; int val = 0, n = 0, y = 0; bool on_ctx = false, need_ctx = false; int stage2 = 0; const void* addr = nullptr;
};
inline long& live() { static long x; return x; }
struct Val {
  int v; int n = 0; uint32_t tag = 0xA11EE;
  explicit Val(int v = -1) : v(v) { ++live(); } // (thread_pool_base requires default-constructible values)
  Val(Val&& o) noexcept : v(o.v), n(o.n) { VS_ASSERT(o.tag == 0xA11EE, "value moved from a dead or moved-from object"); o.tag = 0xE0FF; ++live(); }
  Val(const Val& o) noexcept : v(o.v), n(o.n) { VS_ASSERT(o.tag == 0xA11EE, "value copied from a dead or moved-from object"); ++live(); }
  ~Val() { VS_ASSERT(tag == 0xA11EE || tag == 0xE0FF, "value destroyed twice"); tag = 0xDEAD; --live(); }
};
struct Err { int i; };
template <class Shape, bool NT> struct Fn {
  Log* L; int alive = 0x600D;
  Fn(Log* l) : L(l) {} Fn(const Fn& o) noexcept : L(o.L) { VS_ASSERT(o.alive == 0x600D, "function copied from a dead object"); } ~Fn() { alive = 0; }
  void pre(Val& v, int& y) { VS_ASSERT(alive == 0x600D, "dead function called"); VS_ASSERT(!L->done, "the function is called after the operation completed"); VS_ASSERT(v.tag == 0xA11EE && v.v == 41 && y == 9, "the predecessor's values are not passed to the function"); if (!L->addr) L->addr = &v; VS_ASSERT(L->addr == &v, "different calls get different value objects"); if (L->first_run < 0) L->first_run = L->run; if (L->seq && L->first_run != L->run) vs::fail("calls under a sequenced policy are spread over several pool tasks"); if (L->need_ctx) VS_ASSERT(L->on_ctx, "function called outside the scheduler's context"); L->calls++; }
  void one(long k, Val& v) {
    if (k < 0 || k >= L->shape) vs::fail("index %ld outside [0, %ld)", k, L->shape);
    if (L->hit[(size_t) k]++) vs::fail("index %ld visited twice", k);
    v.n++;
    if constexpr (!NT) if (k == L->throw_at || k == L->throw2) { L->thrown++; throw Err{(int) k}; }
  }
  void operator()(Shape i, Val& v, int& y) noexcept(NT) { pre(v, y); one((long) i, v); }
  void operator()(Shape b, Shape e, Val& v, int& y) noexcept(NT) { pre(v, y); if (!((long) b < (long) e)) vs::fail("empty or reversed chunk [%ld, %ld)", (long) b, (long) e); for (long k = (long) b; k < (long) e; k++) one(k, v); }
};
struct Leaf {
  using sender_concept = ex::sender_t;
  using completion_signatures = ex::completion_signatures<ex::set_value_t(Val, int), ex::set_error_t(int), ex::set_stopped_t()>;
  int chan;
  template <class R> struct Op { using operation_state_concept = ex::operation_state_t; int chan; R r; void start() & noexcept { if (chan == 0) ex::set_value(std::move(r), Val(41), 9); else if (chan == 1) ex::set_error(std::move(r), 77); else ex::set_stopped(std::move(r)); } };
  template <class R> Op<R> connect(R r) const { return {chan, std::move(r)}; }
};
struct Rcv {
  using receiver_concept = ex::receiver_t; Log* L; ex::inplace_stop_token tok;
  struct E { ex::inplace_stop_token t; auto query(ex::get_stop_token_t) const noexcept { return t; } };
  E get_env() const noexcept { return {tok}; }
  void fin(int c) noexcept { if (L->done++) vs::fail("completed twice"); L->chan = c; if (L->need_ctx) VS_ASSERT(L->on_ctx, "completed outside the scheduler's context"); }
  void set_value(Val v, int y) noexcept { fin(0); L->val = v.v; L->n = v.n; L->y = y; }
  void set_error(int e) noexcept { fin(1); L->err = e; }
  void set_error(std::exception_ptr p) noexcept { fin(1); try { std::rethrow_exception(p); } catch (Err& e) { L->err = e.i; } catch (...) { vs::fail("foreign exception"); } }
  void set_stopped() noexcept { fin(2); }
};
// a pool on thread_pool_base whose tasks are run one at a time by the test, in an order chosen by the generator
struct ManualPool : exec::thread_pool_base<ManualPool> {
  uint32_t par; std::vector<std::pair<exec::_pool_::task_base*, uint32_t>> q; 
  explicit ManualPool(uint32_t p) : par(p) {}
  auto available_parallelism() const -> uint32_t { return par; }
  static constexpr auto forward_progress_guarantee() { return ex::forward_progress_guarantee::parallel; }
  void enqueue(exec::_pool_::task_base* t, uint32_t tid = 0) noexcept { q.push_back({t, tid}); }
  bool step(uint32_t k, Log& L) { if (q.empty()) return false; auto it = q.begin() + (long) (k % q.size()); auto [t, tid] = *it; q.erase(it); L.run++; L.on_ctx = true; t->execute_(t, tid); L.on_ctx = false; return true; }
};
enum Sched { S_NONE, S_INLINE, S_LOOP, S_POOL, S_TASK_INLINE, S_TASK_POOL };
struct P { int kind, sty, pol, sched, chan, order; long shape; uint32_t par; int thr, thr2; bool nt, twice; std::vector<uint32_t> ord; };
template <class F> void with_policy(int p, F f) { if (p == 0) f(ex::seq); else if (p == 1) f(ex::par); else if (p == 2) f(ex::par_unseq); else f(ex::unseq); }
template <class Op> void drive(const P& p, Log& L, ManualPool& pool, ex::run_loop* loop, Op& op) {
  L.run++; ex::start(op);
  if (loop) { loop->finish(); L.run++; L.on_ctx = true; loop->run(); L.on_ctx = false; }
  size_t k = 0; while (pool.step(k < p.ord.size() ? p.ord[k] : 0, L)) k++;
  if (!L.done) vs::fail("the operation never completes");
}
template <class Shape, bool NT, int K, class Pol, class S> auto bulk1(S s, Pol pol, Shape n, Log* L) {
  if constexpr (K == 0) return ex::bulk(std::move(s), pol, n, Fn<Shape, NT>{L});
  else if constexpr (K == 1) return ex::bulk_chunked(std::move(s), pol, n, Fn<Shape, NT>{L});
  else return ex::bulk_unchunked(std::move(s), pol, n, Fn<Shape, NT>{L});
}
template <int K, class Shape, bool NT> void run_k(const P& p, Log& L, int only) {
  ManualPool pool(p.par); ex::inplace_stop_source src;
  auto go = [&](auto pol, auto pre, ex::run_loop* loop) { auto op = ex::connect(bulk1<Shape, NT, K>(std::move(pre), pol, (Shape) p.shape, &L), Rcv{&L, src.get_token()}); drive(p, L, pool, loop, op); };
  auto on = [&](auto pol) {
    switch (p.sched) {
    case S_NONE: go(pol, Leaf{p.chan}, nullptr); break;
    case S_INLINE: go(pol, ex::continues_on(Leaf{p.chan}, exec::inline_scheduler{}), nullptr); break;
    case S_LOOP: { ex::run_loop loop; go(pol, ex::continues_on(Leaf{p.chan}, loop.get_scheduler()), &loop); break; }
    case S_POOL: go(pol, ex::continues_on(Leaf{p.chan}, pool.get_scheduler()), nullptr); break;
    case S_TASK_INLINE: go(pol, ex::continues_on(Leaf{p.chan}, ex::task_scheduler{exec::inline_scheduler{}}), nullptr); break;
    default: go(pol, ex::continues_on(Leaf{p.chan}, ex::task_scheduler{pool.get_scheduler()}), nullptr); break;
    }
  };
  with_policy(p.pol, on);
}
template <class Shape, bool NT> void run_kinds(const P& p, Log& L) { if (p.kind == 0) run_k<0, Shape, NT>(p, L, 0); else if (p.kind == 1) run_k<1, Shape, NT>(p, L, 0); else run_k<2, Shape, NT>(p, L, 0); }
void run_i8(const P&, Log&); void run_u8(const P&, Log&); void run_int(const P&, Log&); void run_int_nt(const P&, Log&); void run_uns(const P&, Log&); void run_sz(const P&, Log&); void run_ll(const P&, Log&); 
}
