// C23: sequence senders. Test-owned sources (scripts), consumer and receiver; library adaptors between them.
// Sequential (seqfuzz, ASan) with a driver that fires pending events in a generated order, or (C23_MT) several
// worker threads under the schedule fuzzer.
#pragma once
#include "vs_common.hpp"
#include <stdexec/execution.hpp>
#include <exec/sequence_senders.hpp>
#include <exec/sequence/iterate.hpp>
#include <exec/sequence/empty_sequence.hpp>
#include <exec/sequence/merge.hpp>
#include <exec/sequence/merge_each.hpp>
#include <exec/sequence/transform_each.hpp>
#include <exec/sequence/ignore_all_values.hpp>
#include <exec/sequence/any_sequence_of.hpp>
#include <optional>
#include <set>
#include <span>
namespace ex = stdexec;
namespace c23 {
enum Kind { V = 0, S = 1, E = 2 };
enum Mode { INL, DEFER, STOPPABLE, WAITSTOP }; // STOPPABLE: event or stop; WAITSTOP: only stop
struct Item { int kind, mode; int nested; };
struct Src { std::vector<Item> items; int end, endMode, onBreak; bool par, checkStop; };
struct Cons { int brk = -1, onErr = V, onStop = S, delay = 0; }; // brk: break at the brk-th item; delay: percent-like mask of items whose consumer is asynchronous
enum { SRCS = 6, OUTER = 5 };
struct Fact { bool started = false, done = false, brk = false, sawStop = false; int end = -1, err = 0; int last = -1; int sent = 0; std::vector<int> values; bool complete = false; };
struct Script { Src src[SRCS]; Cons cons; int pipe, ext; bool destroyOp, destroySrc; int throwAt, throwKind; int niter; };
struct Boom {};
struct St {
  Script sc; Fact f[SRCS + 2];
  std::set<int> errs;              // every error raised by anybody so far
  std::vector<std::pair<int, int>> got; // items received: kind, value
  int itemN = 0, outstanding = 0, active = 0; bool done = false; int fin = -1, finErr = 0; bool finWrapped = false; bool errItem = false; std::set<int> errItems;
  std::atomic<bool> extDone{false}; bool extReq = false, extBefore = false, anyBreak = false, stopWasSeen = false;
  bool src_free() {
#ifdef C23_MT
    return extDone.load() || extBefore;
#else
    return true;
#endif
  }
  int fuse = -1; bool threw = false;
  std::function<void()> destroy;
  // event queue
  std::mutex m; std::condition_variable cv, mcv; std::deque<std::function<void()>> ev, held; int waiting = 0; bool quit = false;
  void post(std::function<void()> e) { std::lock_guard g(m); ev.push_back(std::move(e)); cv.notify_all(); }
  void tick() { vs::Ghost g; if (fuse >= 0 && fuse-- == 0) { threw = true; throw Boom{}; } }
};
template <class F> struct from_fn { F f; operator decltype(std::declval<F&>()()) () { return f(); } };
template <class F> from_fn(F) -> from_fn<F>;
inline St*& st() { static St* s; return s; }
struct tag_t : ex::__query<tag_t> { static consteval bool query(ex::forwarding_query_t) noexcept { return true; } };
inline constexpr tag_t tag{};
template <class Env> void check_env(const Env& e, const char* who) { if constexpr (requires { { tag(e) } -> std::convertible_to<int>; }) { if (tag(e) != 77) vs::fail("%s sees a wrong environment value", who); } }

// runs `fin(stopped)` exactly once according to the mode
template <class Tok> struct Wait {
  struct OnStop { Wait* w; void operator()() noexcept { w->hit(); } };
  struct Cell { std::atomic<int> claimed{0}; };
  using CB = ex::stop_callback_for_t<Tok, OnStop>;
  std::optional<CB> cb; std::atomic<int> phase{0}; std::shared_ptr<Cell> cell; void* self; void (*fin)(void*, bool);
  void hit() { if (cell->claimed.exchange(1) == 0) { if (phase.exchange(1) == 1) { cb.reset(); fin(self, true); } } }
  void go(Tok tok, bool ev, void* s, void (*f)(void*, bool)) {
    self = s; fin = f; cell = std::make_shared<Cell>(); auto c = cell; phase = 0; cb.emplace(tok, OnStop{this});
    if (phase.exchange(1) == 1) { cb.reset(); fin(self, true); return; }
    auto fire = [c, this] { if (c->claimed.exchange(1) == 0) { cb.reset(); fin(self, false); } };
    if (ev) st()->post(fire); else { std::lock_guard g(st()->m); st()->held.push_back(fire); }
  }
};
template <class Env> using tok_t = ex::stop_token_of_t<Env>;

template <class Out> struct mk { static Out make(int i) { return Out::make(i); } };
template <class Out, class R> struct ItemOp {
  using operation_state_concept = ex::operation_state_tag;
  R r; int src, idx; Wait<tok_t<ex::env_of_t<R>>> w;
  ItemOp(R r, int s, int i) : r((R&&) r), src(s), idx(i) {}
  ItemOp(ItemOp&&) = delete;
  void start() & noexcept { { vs::Ghost g; st()->outstanding++; }
    auto& it = st()->sc.src[src].items[idx]; check_env(ex::get_env(r), "item");
    if (it.mode == INL) { complete(false); return; }
    if (it.mode == DEFER) { st()->post([this] { complete(false); }); return; }
    w.go(ex::get_stop_token(ex::get_env(r)), it.mode == STOPPABLE, this, [](void* s, bool b) { ((ItemOp*) s)->complete(b); }); }
  void complete(bool stopped) { auto& it = st()->sc.src[src].items[idx]; int k = stopped ? (int) S : it.kind;
    { vs::Ghost g; st()->outstanding--; auto& f = st()->f[src]; f.sent++; if (stopped) f.sawStop = true; if (k == E) st()->errs.insert(5000 + src * 100 + idx); if (k == V && !std::is_same_v<Out, void>) f.values.push_back(src * 100 + idx); }
    if (k == V) { if constexpr (std::is_same_v<Out, int>) ex::set_value((R&&) r, src * 100 + idx); else ex::set_value((R&&) r, mk<Out>::make(it.nested)); }
    else if (k == S) ex::set_stopped((R&&) r); else ex::set_error((R&&) r, 5000 + src * 100 + idx); }
};
template <class Out> struct ItemSnd {
  using sender_concept = ex::sender_tag;
  using completion_signatures = ex::completion_signatures<ex::set_value_t(Out), ex::set_error_t(int), ex::set_stopped_t()>;
  int src, idx;
  template <class R> auto connect(R r) const { st()->tick(); return ItemOp<Out, R>((R&&) r, src, idx); }
};
template <class Out, class R> struct SrcOp {
  using operation_state_concept = ex::operation_state_tag;
  R r; int id; Wait<tok_t<ex::env_of_t<R>>> w; std::atomic<int> left{0}; bool brkd = false; 
  struct Next { using receiver_concept = ex::receiver_tag; SrcOp* o; int i;
    void set_value() noexcept { o->next_done(i, false); }
    void set_stopped() noexcept { o->next_done(i, true); }
    auto get_env() const noexcept -> ex::env_of_t<R> { return ex::get_env(o->r); } };
  using op_t = ex::connect_result_t<exec::next_sender_of_t<R, ItemSnd<Out>>, Next>;
  struct Slot { std::optional<op_t> o; void reset() { o.reset(); } template <class F> void make(F f) { o.emplace(from_fn{f}); } };
  std::deque<Slot> slots;
  SrcOp(R r, int id) : r((R&&) r), id(id) {}
  SrcOp(SrcOp&&) = delete;
  Src& s() { return st()->sc.src[id]; } Fact& f() { return st()->f[id]; }
  bool stop_seen() { if (!s().checkStop) return false; return ex::get_stop_token(ex::get_env(r)).stop_requested(); }
  void start() & noexcept { { vs::Ghost g; VS_ASSERT(!f().started, "source subscribed and started twice"); f().started = true; st()->active++; } check_env(ex::get_env(r), "source");
    if (s().par) { left = 1; for (int i = 0; i < (int) s().items.size(); i++) { bool b; { vs::Ghost g; b = f().brk; } if (b || stop_seen()) { vs::Ghost g; f().sawStop = true; break; } left++; if (!item(i)) { left--; break; } } one_less(); }
    else lockstep(0); }
  void one_less() { if (left.fetch_sub(1) == 1) finish(); }
  bool item(int i) { try { if (slots.size() <= (size_t) i) slots.emplace_back(); Slot& sl = slots[i]; sl.make([&] { return ex::connect(exec::set_next(r, ItemSnd<Out>{id, i}), Next{this, i}); }); { vs::Ghost g; st()->stopWasSeen |= false; } ex::start(*sl.o); return true; }
    catch (Boom&) { vs::Ghost g; f().brk = true; f().err = 7000 + id; return false; } }
  void lockstep(int i) { if (i == (int) s().items.size()) { finish(); return; } if (stop_seen()) { { vs::Ghost g; f().sawStop = true; } end(S, 0); return; } if (!item(i)) finish(); }
  void next_done(int i, bool stopped) { { vs::Ghost g; if (stopped) { f().brk = true; } }
    if (s().par) { one_less(); return; }
    if (stopped) { finish(); return; } if (i > 0) slots[i - 1].reset(); lockstep(i + 1); }
  void finish() { if (f().err) { end(E, f().err); return; } if (f().brk) { end(s().onBreak == V && !stop_now() ? V : S, 0); return; } if (f().sawStop && s().par && stop_seen()) { end(S, 0); return; }
    { vs::Ghost g; f().complete = true; }
    int m = s().endMode; if (m == INL) done(false); else if (m == DEFER) st()->post([this] { done(false); }); else w.go(ex::get_stop_token(ex::get_env(r)), m == STOPPABLE, this, [](void* p, bool b) { ((SrcOp*) p)->done(b); }); }
  bool stop_now() { return ex::get_stop_token(ex::get_env(r)).stop_requested(); }
  void done(bool stopped) { if (stopped) { { vs::Ghost g; f().sawStop = true; } end(S, 0); return; } int k = s().end; end(k, k == E ? 6000 + id : 0); }
  void end(int k, int e) { { vs::Ghost g; VS_ASSERT(!f().done); f().done = true; f().end = k; f().err = e; st()->active--; if (e) st()->errs.insert(e); } 
    if (k == V) ex::set_value((R&&) r); else if (k == S) ex::set_stopped((R&&) r); else ex::set_error((R&&) r, std::move(e)); }
};
template <class Out> struct Source {
  using sender_concept = exec::sequence_sender_tag;
  using item_types = exec::item_types<ItemSnd<Out>>;
  using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_error_t(int), ex::set_stopped_t()>;
  int id;
  static Source make(int i) { return {i}; }
  template <class R> auto subscribe(R r) const { st()->tick(); return SrcOp<Out, R>((R&&) r, id); }
};
using Leaf = Source<int>;

// ---- consumer ----
template <class NR> struct COpBase { NR r; int n; COpBase(NR r) : r((NR&&) r), n(0) {} ~COpBase() {} 
  void got(int k, int v) { bool brk, delay; { vs::Ghost g; auto& s = *st(); auto& c = s.sc.cons; VS_ASSERT(!s.done, "an item completes after the sequence has completed"); n = s.itemN++; s.got.push_back({k, v}); brk = c.brk == n || (k == E && c.onErr == S) || (k == S && c.onStop == S); if (brk) s.anyBreak = true; delay = (c.delay >> (n % 8)) & 1; if (k == E) { s.errItems.insert(v); } }
    if (delay) st()->post([this, brk] { fin(brk); }); else fin(brk); }
  void fin(bool brk) { { vs::Ghost g; st()->outstanding--; } if (brk) ex::set_stopped((NR&&) r); else ex::set_value((NR&&) r); } };
inline int unwrap(std::exception_ptr p, bool& wrapped) { try { std::rethrow_exception(p); } catch (int i) { return i; } catch (Boom&) { return 8000; } catch (std::exception_ptr q) { wrapped = true; return unwrap(q, wrapped); } catch (...) { return -2; } }
template <class NR> struct CRcvr { using receiver_concept = ex::receiver_tag; COpBase<NR>* o;
  void set_value(int v) noexcept { o->got(V, v); }
  void set_error(int e) noexcept { o->got(E, e); }
  void set_error(std::exception_ptr e) noexcept { bool w = false; int v = unwrap(e, w); if (w) vs::fail("the error item is an exception_ptr that holds an exception_ptr"); o->got(E, v); }
  void set_stopped() noexcept { o->got(S, 0); }
  auto get_env() const noexcept -> ex::env_of_t<NR> { return ex::get_env(o->r); } };
template <class Snd, class NR> struct COp : COpBase<NR> { using operation_state_concept = ex::operation_state_tag;
  ex::connect_result_t<Snd, CRcvr<NR>> op; COp(Snd s, NR r) : COpBase<NR>((NR&&) r), op(ex::connect((Snd&&) s, CRcvr<NR>{this})) {} COp(COp&&) = delete;
  void start() & noexcept { { vs::Ghost g; VS_ASSERT(!st()->done, "an item is started after the sequence has completed"); st()->outstanding++; } ex::start(op); } };
template <class Snd> struct CSnd { using sender_concept = ex::sender_tag; using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>; Snd s;
  template <class NR> auto connect(NR r) && { return COp<Snd, NR>((Snd&&) s, (NR&&) r); } };
// ---- final receiver ----
template <class Tok> struct Env { Tok tok; auto query(ex::get_stop_token_t) const noexcept -> Tok { return tok; } int query(tag_t) const noexcept { return 77; } };
template <class Tok> struct Rcvr { using receiver_concept = ex::receiver_tag; Tok tok;
  template <class I> auto set_next(I&& i) { st()->tick(); return CSnd<std::decay_t<I>>{(I&&) i}; }
  void fin(int k, int e) noexcept { std::function<void()> d; { vs::Ghost g; auto& s = *st(); if (s.done) vs::fail("the sequence completes twice"); s.done = true; s.fin = k; s.finErr = e;
      if (s.outstanding) vs::fail("the sequence completes while %d item operations are outstanding", s.outstanding);
      if (s.active) vs::fail("the sequence completes while %d sources are running", s.active); d = std::move(s.destroy); }
    if (d) d(); { std::lock_guard g(st()->m); st()->quit = true; st()->cv.notify_all(); st()->mcv.notify_all(); } }
  void set_value() noexcept { fin(V, 0); }
  void set_stopped() noexcept { fin(S, 0); }
  void set_error(int e) noexcept { fin(E, e); }
  void set_error(std::exception_ptr p) noexcept { bool w = false; int v = unwrap(p, w); if (w) vs::fail("the sequence completes with an exception_ptr that holds an exception_ptr"); fin(E, v); }
  Env<Tok> get_env() const noexcept { return {tok}; } };

// ---- expectations: set of allowed completions of a node, after the fact ----
struct Exp { bool v = false, s = false; std::set<int> e; void add(const Exp& o) { v |= o.v; s |= o.s; e.insert(o.e.begin(), o.e.end()); } };
struct Node { enum T { SRC, TRANS, MERGE, EACH, ITER, EMPTY } t; int id = 0; std::vector<Node> ch; };
// iterates: items 400.. are delivered by the library's iterate
Exp eval(const Node& n);
void begin(St& s);
struct Pipe { const char* name; int nsrc; bool outer, never, iav, iter; Node node; void (*run)(St&, ex::inplace_stop_source*&); };
void drive(St& s, ex::inplace_stop_source*& ss);
extern std::vector<Pipe> pipes;
std::vector<Pipe> pipes_a(); std::vector<Pipe> pipes_b(); std::vector<Pipe> pipes_c(); std::vector<Pipe> pipes_d(); std::vector<Pipe> pipes_e();

template <class Op> struct Holder { std::optional<Op> o; };
template <bool IAV, class Tok, class Make> void run_with(St& s, ex::inplace_stop_source*& ss, Tok tok, Make mk) {
  auto conn = [&] { if constexpr (IAV) return ex::connect(exec::ignore_all_values(mk()), Rcvr<Tok>{tok}); else return exec::subscribe(mk(), Rcvr<Tok>{tok}); };
  using Op = decltype(conn());
  auto* h = new Holder<Op>; bool ok = true; bool* alive = new bool(true);
  try { h->o.emplace(from_fn{conn}); } catch (Boom&) { ok = false; VS_ASSERT(s.threw); }
  if (ok) {
    { vs::Ghost g; s.destroy = [&s, &ss, h, alive] { if (s.sc.destroyOp) { *alive = false; delete h; } if (s.sc.destroySrc && s.src_free()) { delete ss; ss = nullptr; } }; }
    if (s.sc.ext == 1) { { vs::Ghost g; s.extReq = s.extBefore = true; } ss->request_stop(); }
    s.post([h] { ex::start(*h->o); });
    drive(s, ss);
  } else vs::label("connect_threw");
  if (*alive) delete h; delete alive; delete ss; ss = nullptr;
}
template <bool IAV, bool Never, class Make> void run_p(St& s, ex::inplace_stop_source*& ss, Make mk) { if constexpr (Never) run_with<IAV>(s, ss, ex::never_stop_token{}, mk); else run_with<IAV>(s, ss, ss->get_token(), mk); }
inline Node src(int i) { return {Node::SRC, i, {}}; }
inline Node mg(std::vector<Node> c) { return {Node::MERGE, 0, std::move(c)}; }
inline Node each(std::vector<Node> c) { return {Node::EACH, OUTER, std::move(c)}; }
using AnyQ = exec::queries<>; // any_sequence cannot be connected to a receiver when a stop token query is requested (does not compile): no stop requests through it
using AnySigs = ex::completion_signatures<ex::set_value_t(int), ex::set_error_t(int), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
using AnySeq = exec::any_sequence_sender<exec::any_sequence_receiver<AnySigs, AnyQ>>;
}
