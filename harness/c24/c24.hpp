// C24: type erasure is transparent. Scripted senders and schedulers are wrapped in every type-erasing wrapper; histories
// of wrapper operations (construct, copy, move, assign, swap, destroy, connect, run) are compared with a model of who owns
// what, and every run with what the wrapped object does by itself.
// Sequential (seqfuzz, ASan), and with -DC24_MT one thread per context under the schedule fuzzer.
#pragma once
#include "vs_common.hpp"
#include <stdexec/execution.hpp>
#include <exec/any_sender_of.hpp>
#include <exec/variant_sender.hpp>
#include <exec/function.hpp>
#include <optional>
#include <set>
#include <stop_token>
namespace ex = stdexec;
namespace c24 {
enum Kind { VOID_, VAL, TWO, REF, EPTR, EINT, STOPPED, NK };
enum Mode { INL, DEFER, WAITSTOP, STOPDEF, NM };
enum { NCTX = 2, EXT = 9, NSLOT = 3 };
enum Slot { NONE = -1, HUSK = -2 };
struct Err { int code; };
struct Res { int k = -1, a = 0, b = 0, ctx = -1; bool operator==(const Res&) const = default; };
struct Script { int id = 0, kind = VOID_, mode = INL, ctx = 0, size = 0; bool throwConnect = false; };
struct St {
  std::mutex m; std::condition_variable cv, mcv; std::deque<std::function<void()>> q[NCTX], held; int waiting = 0; bool quit = false;
  std::vector<Script> sc; std::map<int, int> own; // id -> number of live owning objects
  Res res; bool done = false, req = false, reqBeforeStart = false, waiter = false, told = false, threw = false; std::function<void()> destroy; int vals = 0, target = 0, cref = 7; int ops = 0;
  int tok = 0, tag = 0, seenTag = -1, seenTag2 = -1, seenReq = -1, seenPossible = -1; bool started = false; int bulk_fail = 0;
  std::vector<int> hits; std::string trace;
  void post(int c, std::function<void()> e) { std::lock_guard g(m); q[c].push_back(std::move(e)); cv.notify_all(); } };
inline St*& st() { static St* s; return s; }
inline thread_local int curctx = EXT;

struct Val { int v; enum { LIVE = 0x51, MOVED, DEAD }; int s = LIVE;
  explicit Val(int v = 0) : v(v) { vs::Ghost g; st()->vals++; }
  Val(Val&& o) noexcept : v(o.v) { vs::Ghost g; o.chk(); o.s = MOVED; st()->vals++; }
  Val(const Val& o) : v(o.v) { vs::Ghost g; o.chk(); st()->vals++; }
  ~Val() { vs::Ghost g; if (s == DEAD) vs::fail("a value is destroyed twice"); s = DEAD; st()->vals--; }
  void chk() const { if (s != LIVE) vs::fail("a %s value is used", s == DEAD ? "dead" : "moved-from"); }
  int get() const { vs::Ghost g; chk(); return v; } };
// the identity of a wrapped object: copies share it, moves transfer it
struct Own { int id; bool has = true; explicit Own(int id) : id(id) { vs::Ghost g; st()->own[id]++; }
  Own(const Own& o) : id(o.id) { vs::Ghost g; if (!o.has) vs::fail("a moved-from object (%d) is copied", id); st()->own[id]++; }
  Own(Own&& o) noexcept : id(o.id), has(o.has) { vs::Ghost g; o.has = false; }
  Own& operator=(Own o) noexcept { std::swap(id, o.id); std::swap(has, o.has); return *this; }
  ~Own() { vs::Ghost g; if (has) st()->own[id]--; has = false; id = -99; }
  int get() const { vs::Ghost g; if (!has || id < 0) vs::fail("a %s wrapped object is used", id < 0 ? "dead" : "moved-from"); return id; }
  bool operator==(const Own& o) const { return get() == o.get(); } };

struct get_tag_t : ex::forwarding_query_t { template <class Sig> static constexpr get_tag_t (*signature)(Sig) = nullptr; template <class E> requires requires(const E& e, get_tag_t t) { e.query(t); } int operator()(const E& e) const noexcept { return e.query(*this); } static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
struct get_tag2_t { template <class E> requires requires(const E& e, get_tag2_t t) { e.query(t, 1); } int operator()(const E& e, int i) const { return e.query(*this, i); } static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
struct get_attr_t { template <class E> requires requires(const E& e, get_attr_t t) { e.query(t); } int operator()(const E& e) const noexcept { return e.query(*this); } static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
inline constexpr get_tag_t get_tag{}; inline constexpr get_tag2_t get_tag2{}; inline constexpr get_attr_t get_attr{};

// a stop token of a type the library does not know
struct FTok { ex::inplace_stop_token t; bool stop_requested() const noexcept { return t.stop_requested(); } bool stop_possible() const noexcept { return t.stop_possible(); } bool operator==(const FTok&) const = default;
  template <class F> struct callback_type { ex::inplace_stop_callback<F> cb; template <class G> callback_type(FTok t, G&& g) noexcept : cb(t.t, (G&&) g) {} }; };

// ---- the root receiver ----
template <class Tok> struct Env { Tok tok; int tag; auto query(ex::get_stop_token_t) const noexcept -> Tok { return tok; } int query(get_tag_t) const noexcept { return tag; } int query(get_tag2_t, int i) const { return tag * 10 + i; } };
template <class Tok> struct Rcvr { using receiver_concept = ex::receiver_tag; Tok tok; Own own{900};
  void fin(int k, int a = 0, int b = 0) noexcept { std::function<void()> d; { vs::Ghost g; own.get(); auto& s = *st(); if (s.done) vs::fail("the receiver is completed twice"); s.done = true; s.res = {k, a, b, curctx}; d = std::move(s.destroy); s.destroy = nullptr; }
    if (d) d(); std::lock_guard g(st()->m); st()->quit = true; st()->cv.notify_all(); st()->mcv.notify_all(); }
  void set_value() noexcept { fin(VOID_); }
  void set_value(Val&& v) noexcept { Val x = std::move(v); fin(VAL, x.get()); }
  void set_value(Val&& v, int b) noexcept { Val x = std::move(v); fin(TWO, x.get(), b); }
  void set_value(int& r, const int& c) noexcept { if (&r != &st()->target || &c != &st()->cref) vs::fail("a reference passed through the wrapper refers to another object"); r++; fin(REF, r, c); }
  void set_error(std::exception_ptr e) noexcept { int c = -1; try { std::rethrow_exception(std::move(e)); } catch (Err& x) { c = x.code; } catch (...) { c = -2; } fin(EPTR, c); }
  void set_error(int e) noexcept { fin(EINT, e); }
  void set_stopped() noexcept { fin(STOPPED); }
  auto get_env() const noexcept -> Env<Tok> { vs::Ghost g; own.get(); return {tok, st()->tag}; } };

using Sigs = ex::completion_signatures<ex::set_value_t(), ex::set_value_t(Val), ex::set_value_t(Val, int), ex::set_value_t(int&, const int&), ex::set_error_t(std::exception_ptr), ex::set_error_t(int), ex::set_stopped_t()>;

// ---- stop-aware waiting: completes with the event, or with stop ----
template <class Tok> struct Wait {
  struct OnStop { Wait* w; void operator()() noexcept { w->hit(); } };
  using CB = ex::stop_callback_for_t<Tok, OnStop>;
  std::optional<CB> cb; std::atomic<int> phase{0}; std::shared_ptr<std::atomic<int>> claimed; void* self; void (*fin)(void*, bool); int postTo;
  void stopped() { { vs::Ghost g; st()->told = true; } if (postTo >= 0) st()->post(postTo, [this] { cb.reset(); fin(self, true); }); else { cb.reset(); fin(self, true); } }
  void hit() { if (claimed->exchange(1) == 0) { if (phase.exchange(1) == 1) stopped(); } }
  void go(Tok tok, int postTo_, void* s, void (*f)(void*, bool)) {
    self = s; fin = f; postTo = postTo_; claimed = std::make_shared<std::atomic<int>>(0); auto c = claimed; phase = 0; { std::lock_guard g(st()->m); st()->waiter = true; }
    auto fire = [c, this] { if (c->exchange(1) == 0) { cb.reset(); fin(self, false); } };
    cb.emplace(tok, OnStop{this});
    if (phase.exchange(1) == 1) { stopped(); return; }
    std::lock_guard g(st()->m); st()->held.push_back(fire); st()->mcv.notify_all(); } };

// ---- the wrapped sender: size 0 small, 1 large, 2 over-aligned, 3 throwing move, 4 move-only ----
template <int Z> struct Pad {}; 
template <> struct Pad<1> { char big[200] = {}; };
template <> struct alignas(64) Pad<2> { char c[64] = {}; };
struct ThrowingMove { ThrowingMove() = default; ThrowingMove(ThrowingMove&&) noexcept(false) {} ThrowingMove(const ThrowingMove&) {} ThrowingMove& operator=(const ThrowingMove&) { return *this; } };
template <> struct Pad<3> : ThrowingMove {};
struct MoveOnly { MoveOnly() = default; MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; };
template <> struct Pad<4> : MoveOnly {};
template <int Z, class R> struct POp : Pad<Z == 2 ? 2 : 0> { using operation_state_concept = ex::operation_state_tag; R r; Own own; Wait<ex::stop_token_of_t<ex::env_of_t<R>>> w;
  POp(R r, Own o) : r((R&&) r), own(std::move(o)) { vs::Ghost g; st()->ops++; } POp(POp&&) = delete; ~POp() { vs::Ghost g; st()->ops--; }
  Script& s() { return st()->sc[(size_t) own.get()]; }
  void start() & noexcept { auto& x = s(); if ((uintptr_t) this % alignof(POp)) vs::fail("a wrapped operation state is misaligned");
    { vs::Ghost g; auto& t = *st(); if (t.started) vs::fail("the wrapped operation is started twice"); t.started = true; auto&& env = ex::get_env(r);
      if constexpr (requires { get_tag(env); }) t.seenTag = get_tag(env); if constexpr (requires { get_tag2(env, 3); }) t.seenTag2 = get_tag2(env, 3); }
    auto tok = ex::get_stop_token(ex::get_env(r)); bool q = tok.stop_requested(), p = tok.stop_possible(); { vs::Ghost g; st()->seenReq = q; st()->seenPossible = p; }
    if (x.mode == INL) { complete(false); return; } if (x.mode == DEFER) { st()->post(x.ctx, [this] { complete(false); }); return; }
    w.go(tok, x.mode == STOPDEF ? x.ctx : -1, this, [](void* p, bool b) { ((POp*) p)->complete(b); }); }
  void complete(bool stopped) { auto& x = s(); int id = x.id;
    if (stopped) { ex::set_stopped((R&&) r); return; }
    switch (x.kind) { case VOID_: ex::set_value((R&&) r); break; case VAL: ex::set_value((R&&) r, Val(id + 100)); break; case TWO: ex::set_value((R&&) r, Val(id + 200), id + 201); break;
      case REF: ex::set_value((R&&) r, st()->target, std::as_const(st()->cref)); break; case EPTR: ex::set_error((R&&) r, std::make_exception_ptr(Err{id + 300})); break; case EINT: ex::set_error((R&&) r, id + 400); break; default: ex::set_stopped((R&&) r); } } };
template <int Z> struct Probe : Pad<Z> { using sender_concept = ex::sender_tag; using completion_signatures = Sigs; Own own; explicit Probe(int id) : own(id) {}
  struct Attr { int id; int query(get_attr_t) const noexcept { return id + 7; } };
  Attr get_env() const noexcept { return {own.get()}; }
  template <class R> auto connect(R r) && { Script& s = st()->sc[(size_t) own.get()]; if ((uintptr_t) this % alignof(Probe)) vs::fail("a wrapped sender is misaligned"); if (s.throwConnect) throw Err{s.id + 500}; return POp<Z, R>((R&&) r, std::move(own)); }
  template <class R> requires (Z != 4) auto connect(R r) const& { Script& s = st()->sc[(size_t) own.get()]; if (s.throwConnect) throw Err{s.id + 500}; return POp<Z, R>((R&&) r, own); } };

// ---- driver ----
struct Stop { ex::inplace_stop_source a, b; std::stop_source c; };
inline void request(Stop& ss) { { vs::Ghost g; st()->req = true; } switch (st()->tok) { case 1: ss.a.request_stop(); break; case 2: ss.b.request_stop(); break; case 3: ss.c.request_stop(); break; } }
void drive(Stop& ss, int ext); // ext: 0 no stop unless needed, 1 already requested before the start, 2 at any time
template <class T> struct from_fn { T f; operator decltype(std::declval<T&>()()) () { return f(); } };
template <class T> from_fn(T) -> from_fn<T>;
// connect and run; returns false when connecting threw
template <class Snd, class Tok> bool run_one(Snd&& snd, Tok tok, Stop& ss, int ext, bool destroyOp, bool startIt) {
  auto& s = *st(); { vs::Ghost g; s.done = s.started = s.req = s.quit = s.threw = s.waiter = s.told = false; s.seenTag = s.seenTag2 = s.seenReq = s.seenPossible = -1; s.res = {}; }
  auto conn = [&] { return ex::connect((Snd&&) snd, Rcvr<Tok>{tok}); }; using Op = decltype(conn());
  auto* o = new std::optional<Op>; bool gone = false;
  try { o->emplace(from_fn<decltype(conn)>{conn}); } catch (Err& e) { delete o; { vs::Ghost g; s.threw = true; s.res = {99, e.code, 0, -1}; } return false; }
  if (startIt) { if (destroyOp) { vs::Ghost g; s.destroy = [o, &gone] { gone = true; delete o; }; }
    if (ext == 1) request(ss);
    s.post(0, [o] { ex::start(**o); }); drive(ss, ext); }
  if (!gone) delete o;
  if (s.ops) vs::fail("a wrapped operation state is never destroyed");
  return true; }
vs::Case make_senders(vs::Gen& g); vs::Case make_scheds(vs::Gen& g); vs::Case make_bulk(vs::Gen& g);
}
