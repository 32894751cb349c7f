// Asynchronous child operations, receivers and worker threads for the schedule-fuzzing harnesses.
#pragma once
#include "vs_common.hpp"
#include <stdexec/execution.hpp>
#include <deque>
#include <optional>
#include <system_error>
namespace ex = stdexec;

struct VTask { virtual void run() noexcept = 0; protected: ~VTask() = default; };
// A thread that runs posted tasks. Work not yet begun can be cancelled.
struct Worker {
  std::mutex m; std::condition_variable cv; std::deque<VTask*> q; bool closed = false; std::thread t; int id = -1; ghost<int> vtid{-1};
  Worker() { t = std::thread([this] { vtid.set(vs::tid()); loop(); }); }
  ~Worker() { if (t.joinable()) close(); }
  void post(VTask* x) { std::unique_lock l(m); VS_ASSERT(!closed, "task posted to a closed worker"); q.push_back(x); cv.notify_one(); }
  bool cancel(VTask* x) { std::unique_lock l(m); for (auto i = q.begin(); i != q.end(); ++i) if (*i == x) { q.erase(i); return true; } return false; }
  void loop() { for (;;) { VTask* x; { std::unique_lock l(m); while (q.empty() && !closed) cv.wait(l); if (q.empty()) return; x = q.front(); q.pop_front(); } x->run(); } }
  void close() { { std::unique_lock l(m); closed = true; cv.notify_all(); } t.join(); }
};

enum Chan { CH_VALUE = 0, CH_ERROR = 1, CH_STOPPED = 2 };
enum Mode { M_INLINE = 0, M_WORKER = 1, M_WAITSTOP = 2 };
// What happened to one child operation (all ghost state).
struct Ledger {
  ghost<int> connected, started, completed, saw_stop, destroyed, live, chan{-1}, stop_at_start;
  ghost<long> begin_at, rep_at, end_at; ghost<int> begin_tid{-1}, end_tid{-1};
};
inline long& vs_clock_ref() { static long c; return c; }
inline long vs_tick() { vs::Ghost g; return ++vs_clock_ref(); }
struct ChildSpec { int mode = M_INLINE; int chan = CH_VALUE; bool stoppable = false; int val = 0; int err_kind = 0; };
inline std::string show(const ChildSpec& c) {
  static const char* m[] = {"inline", "worker", "waitstop"}; static const char* ch[] = {"value", "error", "stopped"};
  return sfmt("%s-%s%s", m[c.mode], c.mode == M_WAITSTOP ? "" : ch[c.chan], c.stoppable && c.mode != M_WAITSTOP ? "(stoppable)" : "");
}
inline ChildSpec gen_child(vs::Gen& g, int val, bool allow_wait) {
  ChildSpec c; c.val = val;
  c.mode = (int) g.below(allow_wait ? 8 : 7); c.mode = c.mode == 0 ? M_INLINE : c.mode == 7 ? M_WAITSTOP : M_WORKER;
  uint32_t k = g.below(10); c.chan = k < 6 ? CH_VALUE : k < 8 ? CH_ERROR : CH_STOPPED;
  c.stoppable = c.mode == M_WAITSTOP || g.chance(50);
  return c;
}

struct VErr { int code; Ledger* l = nullptr; };
template <class R>
struct ChildOp final : VTask {
  using tok_t = ex::stop_token_of_t<ex::env_of_t<R>>;
  struct OnStop { ChildOp* o; void operator()() noexcept { o->on_stop(); } };
  using cb_t = ex::stop_callback_for_t<tok_t, OnStop>;
  using operation_state_concept = ex::operation_state_t;
  ChildSpec c; Ledger* L; Worker* w; R r; std::atomic<int> phase{0}; int result = 0; std::optional<cb_t> cb;
  // live marker is written and cleared with plain accesses: late accesses of a destroyed operation are races/UAF
  int magic = 0x51ed;
  ChildOp(ChildSpec c, Ledger* L, Worker* w, R r) : c(c), L(L), w(w), r(std::move(r)) { L->connected.add(1); L->live.add(1); }
  ChildOp(ChildOp&&) = delete;
  ~ChildOp() {
    VS_ASSERT(magic == 0x51ed, "operation state destroyed twice"); magic = 0xdead;
    L->destroyed.add(1); L->live.add(-1);
    if (L->started.get()) VS_ASSERT(L->completed.get() == L->started.get(), "operation state destroyed before its operation completed");
  }
  void start() & noexcept {
    VS_ASSERT(magic == 0x51ed, "start of a destroyed operation");
    VS_ASSERT(L->started.add(1) == L->destroyed.get() + 1, "operation started twice");
    L->begin_at.set(vs_tick()); L->begin_tid.set(vs::tid());
    auto tok = ex::get_stop_token(ex::get_env(r));
    if (tok.stop_requested()) L->stop_at_start.set(1);
    if (c.mode == M_INLINE) { result = c.stoppable && tok.stop_requested() ? CH_STOPPED : c.chan; if (result == CH_STOPPED && c.chan != CH_STOPPED) L->saw_stop.set(1); deliver(); return; }
    if (c.mode == M_WORKER) w->post(this);
    if (c.stoppable) { if (c.val & 1) cb.emplace(std::as_const(tok), OnStop{this}); else cb.emplace(std::move(tok), OnStop{this}); }
    if (phase.fetch_or(1, std::memory_order_acq_rel) & 2) finish();
  }
  void done(int res) { result = res; if (phase.fetch_or(2, std::memory_order_acq_rel) & 1) finish(); }
  void run() noexcept override { done(c.chan); }
  void on_stop() noexcept { L->saw_stop.set(1); if (c.mode == M_WAITSTOP || w->cancel(this)) done(CH_STOPPED); }
  void finish() { cb.reset(); deliver(); }
  void deliver() {
    VS_ASSERT(L->completed.add(1) == L->started.get(), "operation completed twice");
    L->chan.set(result); Ledger* l = L;
    l->rep_at.set(vs_tick()); l->end_at.set(l->rep_at.get()); l->end_tid.set(vs::tid());
    if (result == CH_VALUE) ex::set_value(std::move(r), int(c.val));
    else if (result == CH_ERROR) ex::set_error(std::move(r), VErr{c.val, l});
    else ex::set_stopped(std::move(r));
    l->end_at.set(vs_tick());
  }
};
struct Child {
  using sender_concept = ex::sender_t;
  using completion_signatures = ex::completion_signatures<ex::set_value_t(int), ex::set_error_t(VErr), ex::set_stopped_t()>;
  ChildSpec c; Ledger* L; Worker* w;
  template <class R> ChildOp<R> connect(R r) const { return ChildOp<R>(c, L, w, std::move(r)); }
};

// Final receiver: counts completions, records the result, can destroy the operation from its completion.
struct Result {
  ghost<int> count, chan{-1}; ghost<int> err{-1}; ghost<int> tid{-1}; std::vector<int> vals; Ledger* errl = nullptr;
  std::function<void()> on_done;       // runs inside the completion, before 'count' is bumped for waiters
  std::function<void()> after;         // e.g. destroy the operation state
  std::mutex m; std::condition_variable cv; bool done = false;
  void finish(int ch) {
    VS_ASSERT(count.add(1) == 1, "receiver completed more than once");
    chan.set(ch); tid.set(vs::tid());
    if (on_done) on_done();
    if (after) { auto a = std::move(after); a(); }
    { std::unique_lock l(m); done = true; cv.notify_all(); }
  }
  void wait() { std::unique_lock l(m); while (!done) cv.wait(l); }
};
template <class Tok = ex::inplace_stop_token>
struct REnv { Tok t; auto query(ex::get_stop_token_t) const noexcept { return t; } };
template <class Tok = ex::inplace_stop_token>
struct Rcv {
  using receiver_concept = ex::receiver_t;
  Result* R; Tok t;
  auto get_env() const noexcept { return REnv<Tok>{t}; }
  template <class T> static void put(std::vector<int>& v, T&& x) {
    using D = std::decay_t<T>;
    if constexpr (std::is_convertible_v<D, int>) v.push_back((int) x);
    else if constexpr (requires { x.index(); }) std::visit([&](auto&& t) { put(v, std::move(t)); }, std::move(x));
    else if constexpr (requires { std::tuple_size<D>::value; }) std::apply([&](auto&&... y) { (put(v, std::move(y)), ...); }, std::move(x));
    else static_assert(sizeof(D) == 0, "value type");
  }
  template <class... A> void set_value(A&&... a) noexcept { Result* r = R; (put(r->vals, (A&&) a), ...); r->finish(CH_VALUE); }
  template <class E> void set_error(E&& e) noexcept {
    Result* r = R;
    if constexpr (std::is_same_v<std::decay_t<E>, VErr>) { r->err.set(e.code); r->errl = e.l; }
    else if constexpr (std::is_same_v<std::decay_t<E>, std::exception_ptr>) { r->err.set(-2); try { std::rethrow_exception(e); } catch (VErr& v) { r->err.set(v.code); } catch (int v) { r->err.set(v); } catch (...) {} }
    else r->err.set(-3);
    r->finish(CH_ERROR);
  }
  void set_stopped() noexcept { Result* r = R; r->finish(CH_STOPPED); }
};
// A heap operation state that can be destroyed at any point. The operation is connected in place.
template <class S, class R>
struct HeapOp {
  std::optional<ex::connect_result_t<S, R>> dummy;
};
template <class S, class R> struct OpBox {
  ex::connect_result_t<S, R> op;
  OpBox(S&& s, R&& r) : op(ex::connect(std::move(s), std::move(r))) {}
};
template <class S, class R> auto make_op(S s, R r) { return new OpBox<S, R>(std::move(s), std::move(r)); }
