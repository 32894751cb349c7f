// C19: coroutine tasks. A generated program (frames x statements) is interpreted inside real coroutines of several task
// types; the log of what they do is checked against the program by a reference interpreter.
// Sequential (seqfuzz, ASan): a driver runs the execution contexts' queues in a generated order; C19_MT: one thread per
// context under the schedule fuzzer.
#pragma once
#include "vs_common.hpp"
#include <stdexec/execution.hpp>
#include <exec/task.hpp>
#include <exec/at_coroutine_exit.hpp>
#include <exec/on_coro_disposition.hpp>
#include <optional>
#include <stop_token>
#include <system_error>
namespace ex = stdexec;
namespace c19 {
enum Kind { V, E, S };
enum FrameKind { STD, STDE, EXEC, NKINDS };
enum Op { LEAF, LEAFVOID, LEAFTWO, LEAFINL, CHILD, OPT, UPON, THEN, STARTS_ON, ON, SCHED, AWAIT, EXIT, EXITJUST, DISP, RESCHED, READ, CLOSURE, WHENALL };
enum Mode { INL, DEFER, STOPPABLE, WAITSTOP };       // how a leaf completes
enum End { RET, RETTHROWMOVE, THROW, STOP, YERR, RERR, RSTOP, YSTOP };
enum { NCTX = 3, EXT = 9 };
struct Stmt { int op = LEAF, kind = V, mode = INL, ctx = 0, child = -1, err = 0, sub = 0; bool catches = false, throwConnect = false, throwMove = false, stopPosts = false; };
struct Frame { int kind = STD, end = RET, parent = -1; std::vector<Stmt> st; };
struct Prog { std::vector<Frame> f; int ext = 0, tok = 0; bool destroyOp = false, connectOnly = false, dropTask = false, awaitableRoot = false; };
struct Err { int code; };
struct Ev { char what; int n, i, v, ctx; };
struct St {
  Prog p; std::vector<Ev> log; std::vector<std::pair<int, int>> alive; bool done = false, extReq = false; int frames = 0;
  std::mutex m; std::condition_variable cv, mcv; std::deque<std::function<void()>> q[NCTX], held; int waiting = 0; bool quit = false;
  std::function<void()> destroy; int vals = 0;
  void post(int c, std::function<void()> e) { std::lock_guard g(m); q[c].push_back(std::move(e)); cv.notify_all(); }
};
inline St*& st() { static St* s; return s; }
inline thread_local int curctx = EXT;
inline void logev(char w, int n, int i, int v = 0) { vs::Ghost g; st()->log.push_back({w, n, i, v, curctx}); }
// values that know whether they are alive, moved-from or dead; may throw on their first move/copy
struct Val {
  enum { LIVE = 0x5a5a, MOVED = 0x1111, DEAD = 0xdead }; int v, s = LIVE; bool boom = false;
  explicit Val(int v = 0, bool boom = false) : v(v), boom(boom) { vs::Ghost g; st()->vals++; }
  Val(Val&& o) : v(o.v) { vs::Ghost g; o.chk(); if (o.boom) { throw Err{v}; } o.s = MOVED; st()->vals++; }
  Val(const Val& o) : v(o.v) { vs::Ghost g; o.chk(); if (o.boom) { throw Err{v}; } st()->vals++; }
  Val& operator=(Val&& o) { vs::Ghost g; o.chk(); if (s == DEAD) vs::fail("assignment to a dead value"); v = o.v; s = LIVE; o.s = MOVED; return *this; }
  ~Val() { vs::Ghost g; if (s == DEAD) vs::fail("a value is destroyed twice"); s = DEAD; st()->vals--; }
  void chk() const { if (s != LIVE) vs::fail("a %s value is used", s == DEAD ? "dead" : "moved-from"); }
  int get() const { vs::Ghost g; chk(); return v; }
};
// locals of coroutines: must be destroyed exactly once, innermost first
struct Local {
  int n, i; bool live = true; Local(int n, int i) : n(n), i(i) { vs::Ghost g; st()->alive.push_back({n, i}); }
  Local(const Local&) = delete;
  ~Local() { vs::Ghost g; auto& a = st()->alive; if (!live) vs::fail("a local of frame %d is destroyed twice", n); live = false; if (a.empty() || a.back() != std::pair(n, i)) vs::fail("a local of frame %d (%d) is destroyed out of order", n, i); a.pop_back(); } };
inline void in_frame(int n) { vs::Ghost g; auto& a = st()->alive; if (a.empty() || a.back().first != n) vs::fail("frame %d continues while a frame it awaited (%d) still holds locals", n, a.empty() ? -1 : a.back().first); }
template <class F> struct from_fn { F f; operator decltype(std::declval<F&>()()) () { return f(); } };
template <class F> from_fn(F) -> from_fn<F>;

// ---- schedulers ----
template <class R> struct SchedOp { using operation_state_concept = ex::operation_state_tag; R r; int c; SchedOp(R r, int c) : r((R&&) r), c(c) {} SchedOp(SchedOp&&) = delete;
  void start() & noexcept { st()->post(c, [this] { 
    if constexpr (!ex::unstoppable_token<ex::stop_token_of_t<ex::env_of_t<R>>>) { if (ex::get_stop_token(ex::get_env(r)).stop_requested()) { logev('Z', c, 0); ex::set_stopped((R&&) r); return; } }
    ex::set_value((R&&) r); }); } };
struct Sched { using scheduler_concept = ex::scheduler_tag; int c = 0;
  struct Env { int c; Sched query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return {c}; } Sched query(ex::get_completion_scheduler_t<ex::set_stopped_t>) const noexcept { return {c}; } };
  struct Snd { using sender_concept = ex::sender_tag; int c;
    template <class Self, class... Env> static consteval auto get_completion_signatures() { if constexpr ((ex::unstoppable_token<ex::stop_token_of_t<Env>> && ... && (sizeof...(Env) > 0))) return ex::completion_signatures<ex::set_value_t()>{}; else return ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>{}; }
    template <class R> auto connect(R r) const noexcept { return SchedOp<R>((R&&) r, c); }
    Env get_env() const noexcept { return {c}; } };
  Snd schedule() const noexcept { return {c}; }
  bool operator==(const Sched&) const = default; };

// a scheduler that fails: 0 connecting throws, 1 the operation completes with an error on its context, 2 inline
template <class R> struct FailOp { using operation_state_concept = ex::operation_state_tag; R r; int c, code, how; FailOp(R r, int c, int code, int how) : r((R&&) r), c(c), code(code), how(how) {} FailOp(FailOp&&) = delete;
  void start() & noexcept { auto f = [this] { ex::set_error((R&&) r, std::make_exception_ptr(Err{code})); }; if (how == 1) st()->post(c, f); else f(); } };
struct FailSched { using scheduler_concept = ex::scheduler_tag; int c = 0, code = 0, how = 0;
  struct Env { int c, code, how; FailSched query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return {c, code, how}; } };
  struct Snd { using sender_concept = ex::sender_tag; int c, code, how; using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
    template <class R> auto connect(R r) const { if (how == 0) throw Err{code}; return FailOp<R>((R&&) r, c, code, how); }
    Env get_env() const noexcept { return {c, code, how}; } };
  Snd schedule() const noexcept { return {c, code, how}; }
  bool operator==(const FailSched&) const = default; };

// ---- leaves ----
template <class Tok> struct Wait { // completes with the event, or with stop
  struct OnStop { Wait* w; void operator()() noexcept { w->hit(); } };
  using CB = ex::stop_callback_for_t<Tok, OnStop>;
  std::optional<CB> cb; std::atomic<int> phase{0}; std::shared_ptr<std::atomic<int>> claimed; void* self; void (*fin)(void*, bool); int postTo;
  void stopped() { if (postTo >= 0) st()->post(postTo, [this] { cb.reset(); fin(self, true); }); else { cb.reset(); fin(self, true); } }
  void hit() { if (claimed->exchange(1) == 0) { if (phase.exchange(1) == 1) stopped(); } }
  void go(Tok tok, int ctx, bool ev, int postTo_, void* s, void (*f)(void*, bool)) {
    self = s; fin = f; postTo = postTo_; claimed = std::make_shared<std::atomic<int>>(0); auto c = claimed; phase = 0;
    auto fire = [c, this] { if (c->exchange(1) == 0) { cb.reset(); fin(self, false); } };
    cb.emplace(tok, OnStop{this});
    if (phase.exchange(1) == 1) { stopped(); return; }
    if (ev) st()->post(ctx, fire); else { std::lock_guard g(st()->m); st()->held.push_back(fire); } } };
enum LeafT { LVAL, LVOID, LTWO, LINL };
template <LeafT T, class R> struct LeafOp { using operation_state_concept = ex::operation_state_tag; R r; int n, i; Wait<ex::stop_token_of_t<ex::env_of_t<R>>> w;
  LeafOp(R r, int n, int i) : r((R&&) r), n(n), i(i) {} LeafOp(LeafOp&&) = delete;
  Stmt& s() { return st()->p.f[n].st[i]; }
  void start() & noexcept { auto& x = s(); if (T == LINL || x.mode == INL) { complete(false); return; } if (x.mode == DEFER) { st()->post(x.ctx, [this] { complete(false); }); return; }
    w.go(ex::get_stop_token(ex::get_env(r)), x.ctx, x.mode == STOPPABLE, x.stopPosts ? x.ctx : -1, this, [](void* p, bool b) { ((LeafOp*) p)->complete(b); }); }
  void complete(bool stopped) { auto& x = s(); int k = stopped ? (int) S : x.kind; logev('L', n, i, k);
    if (k == S) ex::set_stopped((R&&) r);
    else if (k == E) { if (x.sub == 0) ex::set_error((R&&) r, std::make_exception_ptr(Err{x.err})); else if (x.sub == 1) ex::set_error((R&&) r, (int) x.err); else ex::set_error((R&&) r, std::error_code(x.err, std::generic_category())); }
    else if constexpr (T == LVOID) ex::set_value((R&&) r);
    else if constexpr (T == LTWO) { Val a(x.err, x.throwMove), b(x.err + 1); ex::set_value((R&&) r, std::move(a), std::move(b)); }
    else { Val a(x.err, x.throwMove); ex::set_value((R&&) r, std::move(a)); } } };
template <LeafT T> struct Leaf { using sender_concept = ex::sender_tag; int n, i; Val keep{0};
  template <class...> struct sv {};
  using VS = std::conditional_t<T == LVOID, ex::set_value_t(), std::conditional_t<T == LTWO, ex::set_value_t(Val, Val), ex::set_value_t(Val)>>;
  using completion_signatures = ex::completion_signatures<VS, ex::set_error_t(std::exception_ptr), ex::set_error_t(int), ex::set_error_t(std::error_code), ex::set_stopped_t()>;
  struct Attr { template <class Tag, class... E> constexpr auto query(ex::__get_completion_behavior_t<Tag>, E&&...) const noexcept { if constexpr (T == LINL) return ex::__completion_behavior::__inline_completion; else return ex::__completion_behavior::__unknown; } };
  Attr get_env() const noexcept { return {}; }
  template <class R> auto connect(R r) const { auto& x = st()->p.f[n].st[i]; keep.get(); if (x.throwConnect) { logev('T', n, i); throw Err{x.err}; } return LeafOp<T, R>((R&&) r, n, i); } };

// ---- plain awaitables (sub: 0 ready, 1 void suspend, 2 bool true, 3 bool false, 4 handle, 5 throws in ready, 6 throws in suspend, 7 throws in resume after a hop; +8 through operator co_await, +16 through as_awaitable) ----
struct AwBase { int n, i, sub; Val keep; explicit AwBase(int n, int i, int sub) : n(n), i(i), sub(sub), keep(n) {}
  Stmt& s() const { return st()->p.f[n].st[i]; }
  bool await_ready() { keep.get(); if (sub == 5) { logev('T', n, i); throw Err{s().err}; } return sub == 0; }
  void hop(std::coroutine_handle<> h) { st()->post(s().ctx, [h] { h.resume(); }); }
  Val await_resume() { keep.get(); logev('L', n, i, s().kind); if (sub == 7 || s().kind == E) throw Err{s().err}; return Val(s().err, s().throwMove); } };
struct AwVoid : AwBase { using AwBase::AwBase; void await_suspend(std::coroutine_handle<> h) { if (sub == 6) { logev('T', n, i); throw Err{s().err}; } hop(h); } };
struct AwBool : AwBase { using AwBase::AwBase; bool await_suspend(std::coroutine_handle<> h) { if (sub == 3) return false; hop(h); return true; } };
struct AwHandle : AwBase { using AwBase::AwBase; std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) { if (s().mode == INL) return h; hop(h); return std::noop_coroutine(); } };
template <class A> struct ViaCo { int n, i, sub; Val keep{1}; A operator co_await() && { keep.get(); return A(n, i, sub); } };
template <class A> struct ViaAs { int n, i, sub; Val keep{1}; template <class P> A as_awaitable(P&) { keep.get(); return A(n, i, sub); } };
template <class A> struct ViaBoth { int n, i, sub; Val keep{1}; template <class P> ViaCo<A> as_awaitable(P&) { keep.get(); return ViaCo<A>{n, i, sub}; } };

// ---- task types ----
struct EEnv { using start_scheduler_type = Sched; using error_types = ex::completion_signatures<ex::set_error_t(std::exception_ptr), ex::set_error_t(int)>; };
using STask = ex::task<Val>;
using ETask = ex::task<Val, EEnv>;
using XTask = exec::task<Val>;
STask frame_s(int n); ETask frame_e(int n); XTask frame_x(int n);
template <int K> auto mk(int n) { if constexpr (K == STD) return frame_s(n); else if constexpr (K == STDE) return frame_e(n); else return frame_x(n); }
inline int code_of(std::exception_ptr p) { try { std::rethrow_exception(p); } catch (Err& e) { return e.code; } catch (int e) { return e; } catch (std::system_error& e) { return e.code().value(); } catch (std::exception_ptr&) { return -77; } catch (...) { return -78; } }

struct StopGuard { };
template <int K, class T> T frame(int n);
using XVoid = exec::task<void>;
inline XVoid exit_action(int n, int i, Val* x) { logev('X', n, i, x->get()); Local l(1000 + n, i); auto& s = st()->p.f[n].st[i]; if (s.mode == DEFER) { co_await Leaf<LVOID>{n, i}; logev('x', n, i); } }
inline XVoid exit_sched(int n, int i, int c) { logev('X', n, i, 0); co_await ex::schedule(Sched{c}); logev('x', n, i); }
}
