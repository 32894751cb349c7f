#pragma once
// C21: loops over synchronously completing work use bounded stack. Loops of hundreds to thousands of iterations over
// generated bodies; the oracle is the loop's definition (iterations in order, each once, ending where the predicate, count,
// error or stop says) and the stack's high-water mark, which must not exceed that of the first iterations.
// Trampoline schedulers are also driven directly with trees of recursively scheduled items. Sequential, ASan and -O2.
#include "vs_common.hpp"
#include <stdexec/execution.hpp>
#include <exec/repeat_n.hpp>
#include <exec/repeat_until.hpp>
#include <exec/trampoline_scheduler.hpp>
#include <exec/sequence.hpp>
#include <exec/sequence/iterate.hpp>
#include <exec/sequence/transform_each.hpp>
#include <exec/sequence/ignore_all_values.hpp>
#include <exec/any_sender_of.hpp>
#include <exec/finally.hpp>
#include <exec/task.hpp>
#include <exec/start_detached.hpp>
#include <exec/inline_scheduler.hpp>
#include <exec/when_any.hpp>
#include <exec/materialize.hpp>
#include <optional>
namespace ex = stdexec;
namespace c21 {
enum Act { GO, ERR, STOP, THROW, CONNTHROW };
enum { VAL_, EINT, EPTR, STOPPED };
struct Err { int code; };
struct St { int idx = 0, end = -1, act = GO, extAt = -1, total = 0; size_t early = 0, peak = 0; int warm = 64; ex::inplace_stop_source ss; int res = -1, code = 0; bool done = false; bool throwConv = false; int conn = 0; };
inline St* st;
// one iteration's work; returns the action
inline int body() { auto& s = *st; size_t u = vs::stack_used(); if (s.done) vs::fail("the loop continues after it completed"); if (s.idx < s.warm) s.early = std::max(s.early, u); else { s.peak = std::max(s.peak, u);
    if (u > s.early + 6144) vs::fail("iteration %d uses %zu bytes of stack, the first %d iterations at most %zu", s.idx, u, s.warm, s.early); }
  int i = s.idx++; if (s.extAt == i) s.ss.request_stop(); return s.end == i ? s.act : (int) GO; }
// a sender that completes inside start
struct Probe { using sender_concept = ex::sender_tag; using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_error_t(int), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
  template <class R> struct Op { using operation_state_concept = ex::operation_state_tag; R r; void start() & noexcept { int i = st->idx; switch (body()) { case GO: ex::set_value((R&&) r); break; case ERR: ex::set_error((R&&) r, 1000 + i); break; case THROW: ex::set_error((R&&) r, std::make_exception_ptr(Err{2000 + i})); break; default: ex::set_stopped((R&&) r); } } };
  template <class R> Op<R> connect(R r) const { if (st->act == CONNTHROW && st->end == st->idx && st->idx > 0) { if (st->conn++ == 0) throw Err{3000 + st->idx}; } return {(R&&) r}; } };
struct Bool { bool v; operator bool() const { if (st->throwConv && st->end + 1 == st->idx) throw Err{4000}; return v; } };
template <class R> struct FnR { using receiver_concept = ex::receiver_tag; R* r; void set_value() noexcept { r->fin(VAL_, 0); } void set_error(int e) noexcept { r->fin(EINT, e); } void set_error(std::exception_ptr p) noexcept { int c = -1; try { std::rethrow_exception(p); } catch (Err& e) { c = e.code; } catch (...) { } r->fin(EPTR, c); } void set_stopped() noexcept { r->fin(STOPPED, 0); }
  struct Env { auto query(ex::get_stop_token_t) const noexcept { return st->ss.get_token(); } auto query(ex::get_scheduler_t) const noexcept { return ex::inline_scheduler{}; } auto query(ex::get_start_scheduler_t) const noexcept { return ex::inline_scheduler{}; } auto query(ex::get_delegation_scheduler_t) const noexcept { return ex::inline_scheduler{}; } auto query(ex::get_allocator_t) const noexcept { return std::allocator<std::byte>(); } };
  Env get_env() const noexcept { return {}; } };
struct Root { void fin(int k, int c) { auto& s = *st; if (s.done) vs::fail("the loop completes twice"); s.done = true; s.res = k; s.code = c; } };
template <class S> void run(S&& snd) { Root root; auto op = ex::connect((S&&) snd, FnR<Root>{&root}); ex::start(op); if (!st->done) vs::fail("a loop over synchronous work does not complete synchronously"); }
using AnyS = exec::any_sender<exec::any_receiver<Probe::completion_signatures, exec::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept>>>;
inline exec::task<void> etask() { int a = body(); if (a == THROW || a == ERR) throw Err{2000 + st->idx - 1}; if (a == STOP) co_await ex::just_stopped(); co_return; }
inline ex::task<void> stask() { int a = body(); if (a == THROW || a == ERR) throw Err{2000 + st->idx - 1}; if (a == STOP) co_await ex::just_stopped(); co_return; }
struct Cfg { int loop, body, n, m, end, act, extAt; bool conv; int retry; };
inline void thr(int a) { if (a == THROW || a == ERR || a == STOP) throw Err{2000 + st->idx - 1}; }
template <int M> using NC = std::integral_constant<int, M>; // the coroutine types that do not accept the body (1 exec::task, 2 ex::task; a compile-time matter)
inline int nc_of(int body) { return body == 8 ? 1 : body == 6 || body == 12 ? 2 : 0; }
// every body is a copyable sender of void whose action is one body()
template <class F> void with_body(int b, int m, F f) {
  switch (b) {
  case 0: f(Probe{}); break;
  case 1: f(ex::just() | ex::then([] { thr(body()); })); break;
  case 2: f(ex::just(1) | ex::let_value([](int) { return Probe{}; })); break;
  case 3: f(ex::just() | ex::let_value([] { return AnyS(Probe{}); })); break;
  case 4: f(ex::schedule(ex::inline_scheduler{}) | ex::let_value([] { return Probe{}; })); break;
  case 5: f(ex::schedule(exec::trampoline_scheduler{}) | ex::let_value([] { return Probe{}; })); break;
  case 6: f(Probe{} | exec::repeat_n((size_t) m), NC<2>{}); break;
  case 7: f(ex::just() | ex::let_value([] { return etask(); })); break;
  case 8: f(ex::just() | ex::let_value([] { return stask(); }), NC<1>{}); break;
  case 9: f(ex::starts_on(exec::trampoline_scheduler(3), Probe{})); break;
  case 10: f(exec::sequence(ex::just(), Probe{}, ex::just())); break;
  case 11: f(exec::finally(ex::just(), ex::just() | ex::let_value([] { return Probe{}; }))); break;
  case 12: f(ex::just(m) | ex::let_value([](int m) { return ex::just() | ex::let_value([k = std::make_shared<int>(0), m] { int i = ++*k; return Probe{} | ex::then([i, m] { return i == m; }); }) | exec::repeat_until(); }), NC<2>{}); break;
  case 13: f(ex::starts_on(ex::inline_scheduler{}, Probe{})); break;
  case 14: f(Probe{} | exec::materialize() | exec::dematerialize()); break;
  case 15: f(ex::when_all(ex::just(), Probe{})); break;
  default: f(ex::just() | ex::continues_on(ex::inline_scheduler{}) | ex::then([] { thr(body()); })); break; } }
inline const char* BN[] = {"probe", "then", "let", "any", "schedule(inline)", "schedule(trampoline)", "repeat_n", "exec::task", "task", "starts_on(trampoline)", "sequence", "finally", "repeat_until", "starts_on(inline)", "materialize", "when_all", "continues_on"};
inline const char* LN[] = {"repeat_n", "repeat_until", "repeat", "exec::task", "task", "iterate", "exec::task(tasks)", "task(tasks)", "recursive task"};
inline exec::task<void> eloop(int n) { for (int i = 0; i < n; i++) co_await Probe{}; }
inline ex::task<void> sloop(int n) { for (int i = 0; i < n; i++) co_await Probe{}; }
template <class S> exec::task<void> eloopb(int n, S s) { for (int i = 0; i < n; i++) co_await S(s); }
template <class S> ex::task<void> sloopb(int n, S s) { for (int i = 0; i < n; i++) co_await S(s); }
inline exec::task<void> eloopt(int n) { for (int i = 0; i < n; i++) co_await etask(); }
inline ex::task<void> sloopt(int n) { for (int i = 0; i < n; i++) co_await stask(); }
template <int L> void run_loop(const Cfg& c) { int n = c.n; [[maybe_unused]] St& s = *st; [[maybe_unused]] int total = s.total;
    auto loop_on = [&](auto b, [[maybe_unused]] auto... noCoro) { constexpr int NM = (0 + ... + decltype(noCoro)::value); if constexpr (L == 0) run(std::move(b) | exec::repeat_n((size_t) n));
        else if constexpr (L == 1) { if (c.conv) run(std::move(b) | ex::then([k = &s, total] { return Bool{k->idx >= total}; }) | exec::repeat_until()); else run(std::move(b) | ex::then([k = &s, total] { return k->idx >= total; }) | exec::repeat_until()); }
        else if constexpr (L == 2) { if constexpr (requires { exec::repeat(std::move(b)); }) run(exec::repeat(std::move(b))); }
        else if constexpr (L == 3) { if constexpr (!(NM & 1)) run(eloopb(n, std::move(b))); } else { if constexpr (!(NM & 2)) run(sloopb(n, std::move(b))); } };
  with_body(c.body, c.m, loop_on); }
extern template void run_loop<0>(const Cfg&);
extern template void run_loop<1>(const Cfg&);
extern template void run_loop<2>(const Cfg&);
extern template void run_loop<3>(const Cfg&);
extern template void run_loop<4>(const Cfg&);
}
using namespace c21;
