// Sender-tree fuzzing: random sender expressions over type-erased children, driven step by step
// (complete a leaf, run an item of a context, request stop) in lock step with a reference model (model.cpp).
#pragma once
#include "vsched.h"
#include <stdexec/execution.hpp>
#include <deque>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <variant>
#include <vector>

#ifndef TR_NOEXCEPT
#define TR_NOEXCEPT noexcept(false)
#endif
namespace tr {
  namespace ex = stdexec;
  using std::exception_ptr;

  enum Kind {
    // leaves
    L_LEAF, L_JUST, L_JUSTERR, L_JUSTSTOP, L_READQ, L_SCHED, L_BOUND, L_JUSTFROM,
    // standard adaptors
    A_THEN, A_UPON_ERROR, A_UPON_STOPPED, A_LET_VALUE, A_LET_ERROR, A_LET_STOPPED, A_STOPPED_AS_ERROR,
    A_STOPPED_AS_OPTIONAL, A_INTO_VARIANT, A_WRITE_ENV, A_UNSTOPPABLE, A_STARTS_ON, A_CONTINUES_ON, A_ON, A_ON_CLOSURE,
    A_AFFINE, A_BULK, A_BULK_CHUNKED, A_BULK_UNCHUNKED, A_WHEN_ALL, A_WHEN_ALL_V, A_LET_VALUE_C, A_STOP_WHEN, A_CHAIN,
    // extensions
    A_SEQUENCE, A_SEQUENCE_C, A_FINALLY, A_REPEAT_N, A_REPEAT_UNTIL, A_UNLESS_STOP, A_WHEN_ANY, A_FORK_JOIN, A_MATERIALIZE,
    A_DEMATERIALIZE, A_INTO_TUPLE, A_VARIANT, A_RESCHEDULE, A_ANY_SENDER, A_TASK,
    K_COUNT
  };
  extern const char* kind_name[K_COUNT];

  enum Ch { CV, CE, CX, CS };   // value, Err, exception_ptr, stopped
  struct Node {
    Kind kind = L_LEAF; int id = 0; std::vector<Node*> kids;
    bool deferred = false;      // leaf: completed later by the driver
    int out = CV;               // leaf: outcome
    int react = 0;              // leaf: on stop request: 0 ignore, 1 complete with set_stopped at once, 2 when completed later; 3: set_stopped if requested at start
    int ctx = 0;                // context id (adaptors: target; leaf: where its deferred completion happens)
    int thr = -1;               // the thr-th call of this node's callable throws
    int cthr = -1;              // the cthr-th connect of this node throws
    int n = 0;                  // count / shape / query value / variant index
    bool lv = false;            // connect the library sender as an lvalue
    bool erased = false;        // below an any_sender: stop_possible() need not be preserved there
  };

  struct Exc { int code; };      // thrown by callables and by connect
  struct OpExc { };              // thrown by an injected failure of a copy/move

  struct Tracked {
    enum { ALIVE = 0x5A11FE, MOVED = 0x30FED, DEAD = 0xDEAD };
    int st; long v;
    static long live, ops, fail_at;       // fail_at: the ops-th copy/move throws (0 = never)
    static int paused;
    static void hook();
    explicit Tracked(long x) : st(ALIVE), v(x) { live++; }
    Tracked(Tracked&& o) TR_NOEXCEPT;
    Tracked(const Tracked& o);
    Tracked& operator=(Tracked&& o) TR_NOEXCEPT;
    Tracked& operator=(const Tracked& o);
    ~Tracked() { VS_ASSERT(st == ALIVE || st == MOVED, "destroyed twice (or never constructed)"); st = DEAD; live--; }
    long get() const { VS_ASSERT(st == ALIVE, "read after move or destruction"); return v; }
  };
  struct NoFail { NoFail() { Tracked::paused++; } ~NoFail() { Tracked::paused--; } };
  struct Val { Tracked t; explicit Val(long v) : t(v) {} long get() const { return t.get(); } };
  struct Err { Tracked t; explicit Err(long v) : t(v) {} long get() const { return t.get(); } };

  inline long mixv(long a, long b) { return (a * 31 + b * 17 + 7) % 1000003; }

  struct Ev { char t; int node, inst, ctx; long v; long x[6]; bool operator==(const Ev&) const = default; bool operator<(const Ev& o) const; };
  // t: 'L' leaf started (x = stop requested, stop possible, q1, q2, scheduler, start scheduler), 'T' leaf saw the stop request,
  //    'C' callable called with v, 'F' final completion (node = channel, v = value)
  std::string ev_str(const Ev&);

  struct LeafOp;
  struct SchedOpBase { virtual void run() noexcept = 0; int ctx = 0; bool queued = false; };
  struct RT {
    std::vector<Ev> log;
    std::deque<SchedOpBase*> q[5];
    int ctx = 0;
    std::map<int, int> starts, calls, conns;
    std::map<std::pair<int, int>, LeafOp*> pending;
    ex::inplace_stop_source* ext = nullptr;   // second stop source (stop_when)
    bool started = false;
  };
  extern RT* g;
  void ev(char t, int node, int inst, long v);

  // ---- queries and contexts
  struct Q1_t : ex::forwarding_query_t { template <class E> requires requires(const E& e, Q1_t q) { e.query(q); } long operator()(const E& e) const noexcept { return e.query(*this); } static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
  struct Q2_t : ex::forwarding_query_t { template <class E> requires requires(const E& e, Q2_t q) { e.query(q); } long operator()(const E& e) const noexcept { return e.query(*this); } static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
  inline constexpr Q1_t Q1{}; inline constexpr Q2_t Q2{};

  struct CtxSched {
    int id = 0;
    using scheduler_concept = ex::scheduler_t;
    bool operator==(const CtxSched&) const noexcept = default;
    template <class R> struct Op : SchedOpBase {
      R r; 
      Op(int c, R rr) : r(std::move(rr)) { ctx = c; }
      Op(Op&&) = delete;
      ~Op() { VS_ASSERT(!queued, "schedule operation destroyed while queued"); }
      void start() & noexcept {
        VS_ASSERT(g->started, "schedule operation started before the whole operation");
        if (ctx == 4) { run(); return; }       // context 4 is the inline one
        queued = true; g->q[ctx].push_back(this);
      }
      void run() noexcept override {
        if (stop_aware(ctx) && ex::get_stop_token(ex::get_env(r)).stop_requested()) {
          if constexpr (!ex::unstoppable_token<ex::stop_token_of_t<ex::env_of_t<R>>>) { ex::set_stopped(std::move(r)); return; }
        }
        ex::set_value(std::move(r));
      }
    };
    static bool stop_aware(int c) { return c == 1 || c == 2; }
    struct Env { int id; template <class T, class... E> requires (!std::same_as<T, ex::set_error_t>) CtxSched query(ex::get_completion_scheduler_t<T>, const E&...) const noexcept { return {id}; } };
    struct Sndr {
      using sender_concept = ex::sender_t; int id;
      template <class Self, class... E> static consteval auto get_completion_signatures() {
        if constexpr (sizeof...(E) > 0 && (ex::unstoppable_token<ex::stop_token_of_t<E>> && ...)) return ex::completion_signatures<ex::set_value_t()>{};
        else return ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>{};
      }
      template <class R> auto connect(R r) const { return Op<R>{id, std::move(r)}; }
      Env get_env() const noexcept { return {id}; }
    };
    Sndr schedule() const noexcept { return {id}; }
  };

  struct Env {
    ex::inplace_stop_token tok; long q1 = -1, q2 = -1; int sched = -1, start = -1;
    ex::inplace_stop_token query(ex::get_stop_token_t) const noexcept { return tok; }
    long query(Q1_t) const noexcept { return q1; }
    long query(Q2_t) const noexcept { return q2; }
    CtxSched query(ex::get_scheduler_t) const noexcept { return {sched}; }
    CtxSched query(ex::get_start_scheduler_t) const noexcept { return {start}; }
  };
  struct RcvBase {
    virtual void value(Val&&) noexcept = 0;
    virtual void error(Err&&) noexcept = 0;
    virtual void eptr(exception_ptr) noexcept = 0;
    virtual void stopped() noexcept = 0;
    virtual Env env() const noexcept = 0;
  };
  struct OpBase { virtual ~OpBase() {} virtual void start() noexcept = 0; };
  struct Bound { const Tracked* t = nullptr; };
  OpBase* build(Node* n, Bound b, RcvBase* r);

  inline int sch_id(const CtxSched& s) { return s.id; }
  inline int sch_id(const ex::inline_scheduler&) { return 4; }
  template <class T> int sch_id(const T&) { return 99; }
  template <class E> Env to_env(const E& e) {
    Env r;
    if constexpr (requires { Q1(e); }) r.q1 = Q1(e);
    if constexpr (requires { Q2(e); }) r.q2 = Q2(e);
    if constexpr (requires { ex::get_scheduler(e); }) r.sched = sch_id(ex::get_scheduler(e));
    if constexpr (requires { ex::get_start_scheduler(e); }) r.start = sch_id(ex::get_start_scheduler(e));
    return r;
  }

  struct Fwd { ex::inplace_stop_source* s; void operator()() noexcept { s->request_stop(); } };

  using AnySigs = ex::completion_signatures<ex::set_value_t(Val), ex::set_error_t(Err), ex::set_error_t(exception_ptr), ex::set_stopped_t()>;
  using VoidSigs = ex::completion_signatures<ex::set_value_t(), ex::set_error_t(Err), ex::set_error_t(exception_ptr), ex::set_stopped_t()>;

  // operation of an erased child: R is the receiver of the library adaptor above it
  template <class R, bool Void> struct AnyOp : RcvBase {
    using operation_state_concept = ex::operation_state_t;
    using T = ex::stop_token_of_t<ex::env_of_t<R>>;
    static constexpr bool same = std::is_same_v<T, ex::inplace_stop_token>, never = ex::unstoppable_token<T>;
    struct Empty {};
    R r; OpBase* op = nullptr; int st = 0;
    [[no_unique_address]] std::conditional_t<same || never, Empty, ex::inplace_stop_source> src;
    [[no_unique_address]] std::conditional_t<same || never, Empty, std::optional<ex::stop_callback_for_t<T, Fwd>>> cb;
    AnyOp(Node* n, Bound b, R rr) : r(std::move(rr)) { op = build(n, b, this); }
    AnyOp(AnyOp&&) = delete;
    ~AnyOp() { VS_ASSERT(st != 1, "child operation destroyed while running"); VS_ASSERT(st >= 0 && st <= 2); delete op; st = -1; }
    void start() & noexcept {
      VS_ASSERT(g->started, "child started before the whole operation"); VS_ASSERT(st == 0, "child started twice"); st = 1;
      if constexpr (!same && !never) {
        auto tok = ex::get_stop_token(ex::get_env(r)); bool before = tok.stop_requested(); auto tok2 = tok;
        cb.emplace(tok, Fwd{&src});
        VS_ASSERT(before <= src.stop_requested(), "the stop token reports a stop request but a new callback is not run");
        VS_ASSERT(tok2.stop_requested() == src.stop_requested() && tok.stop_requested() == src.stop_requested(), "a stop token and its callback disagree on whether stop was requested");
        VS_ASSERT(tok2 == tok); VS_ASSERT(tok.stop_possible() || !src.stop_requested());
      }
      op->start();
    }
    void fin() { VS_ASSERT(st == 1, "child completed twice or before start"); st = 2; if constexpr (!same && !never) cb.reset(); }
    void value(Val&& v) noexcept override { fin(); if constexpr (Void) ex::set_value(std::move(r)); else ex::set_value(std::move(r), std::move(v)); }
    void error(Err&& e) noexcept override { fin(); ex::set_error(std::move(r), std::move(e)); }
    void eptr(exception_ptr p) noexcept override { fin(); ex::set_error(std::move(r), std::move(p)); }
    void stopped() noexcept override { fin(); ex::set_stopped(std::move(r)); }
    Env env() const noexcept override {
      Env e = to_env(ex::get_env(r));
      if constexpr (same) e.tok = ex::get_stop_token(ex::get_env(r));
      else if constexpr (!never) {
        e.tok = const_cast<AnyOp*>(this)->src.get_token();
        if (st == 1 && src.stop_requested()) VS_ASSERT(ex::get_stop_token(ex::get_env(r)).stop_requested(), "a stop callback ran but its token does not report the request");
      }
      return e;
    }
  };
  template <bool Void> struct AnyB {
    using sender_concept = ex::sender_t;
    Node* n; Bound b; Tracked cap;
    AnyB(Node* nn, Bound bb) : n(nn), b(bb), cap(nn->id) {}
    template <class Self, class... E> static consteval auto get_completion_signatures() { if constexpr (Void) return VoidSigs{}; else return AnySigs{}; }
    template <class R> auto connect(R r) const { VS_ASSERT(cap.get() == n->id); return AnyOp<R, Void>{n, b, std::move(r)}; }
  };
  using AnyS = AnyB<false>;
  using AnyV = AnyB<true>;

  // receiver connected to the library adaptor; hands its completion to the erased receiver above
  struct ERcv {
    using receiver_concept = ex::receiver_t;
    RcvBase* r;
    void set_value(Val&& v) noexcept { r->value(std::move(v)); }
    void set_value(const Val& v) noexcept { NoFail nf; Val c(v); r->value(std::move(c)); }
    void set_error(Err&& e) noexcept { r->error(std::move(e)); }
    void set_error(const Err& e) noexcept { NoFail nf; Err c(e); r->error(std::move(c)); }
    void set_error(exception_ptr p) noexcept { r->eptr(std::move(p)); }
    void set_stopped() noexcept { r->stopped(); }
    Env get_env() const noexcept { return r->env(); }
  };
  template <class S> struct OpImpl : OpBase {
    ex::connect_result_t<S, ERcv> op;
    OpImpl(S&& s, RcvBase* r) : op(ex::connect(static_cast<S&&>(s), ERcv{r})) {}
    void start() noexcept override { ex::start(op); }
  };
  template <class S> OpBase* mk(Node* n, S s, RcvBase* r) {
    if constexpr (std::copy_constructible<S>) if (n->lv) return new OpImpl<S&>(s, r);
    return new OpImpl<S>(std::move(s), r);
  }

  // user callables: captured state is tracked; the thr-th call throws
  struct FnBase {
    Node* n; Tracked cap;
    explicit FnBase(Node* nn) : n(nn), cap(nn->id * 3) {}
    long run(long in) const {
      VS_ASSERT(cap.get() == n->id * 3);
      int k = g->calls[n->id]++;
      ev('C', n->id, k, in);
      if (k == n->thr) throw Exc{n->id * 100 + k};
      return mixv(in, n->id);
    }
  };
  long code_of(const exception_ptr& p);      // value representing an exception
  struct LeafOp : OpBase {
    Node* n; Bound b; RcvBase* r; int inst = -1; int st = 0; bool saw = false, starting = false; long v = 0;
    struct Cb { LeafOp* l; void operator()() noexcept { l->on_stop(); } };
    std::optional<ex::inplace_stop_callback<Cb>> cb;
    std::optional<Val> val; std::optional<Err> err;
    LeafOp(Node* nn, Bound bb, RcvBase* rr) : n(nn), b(bb), r(rr) {}
    ~LeafOp() { VS_ASSERT(st != 1, "leaf destroyed while running"); }
    void start() noexcept override;
    void on_stop() noexcept;
    void finish(int ch) noexcept;
  };
  OpBase* build_a(Node*, Bound, RcvBase*); OpBase* build_b(Node*, Bound, RcvBase*); OpBase* build_c(Node*, Bound, RcvBase*);
  OpBase* build_d(Node*, Bound, RcvBase*); OpBase* build_e(Node*, Bound, RcvBase*); OpBase* build_f(Node*, Bound, RcvBase*); OpBase* build_g(Node*, Bound, RcvBase*);

  // ---- driver actions, shared with the model
  struct Act { char t; int a = 0, b = 0, c = 0; };   // 'k' connect, 'S' start, 'c' complete leaf (a = node, b = instance), 'r' run next item of context a, 's' request stop, 'x' request the external stop
  struct TopCfg { long q1, q2; int sched; bool stoppable; };
  struct ModelResult { bool ok = true; std::string why; std::vector<std::vector<Ev>> steps; bool conn_threw = false; std::vector<std::pair<int, int>> pending; int queued[5] = {}; };
  ModelResult run_model(Node* root, const TopCfg&, const std::vector<Act>& acts, bool fifo, bool tramp_inline);
}
