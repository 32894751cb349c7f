// C28: what senders advertise (completion signatures, completion schedulers, completion behaviours) against what
// their operations do. Expressions are built at compile time (leaf x adaptors), what the leaves do and in which order
// pending work runs is generated at run time.
#pragma once
#include "vsched.h"
#include <stdexec/execution.hpp>
#include <exec/completion_behavior.hpp>
#include <exec/inline_scheduler.hpp>
#include <functional>
#include <memory>
#include <string>
#include <typeinfo>
#include <vector>
namespace c28 {
namespace ex = stdexec;
struct Boom { int at; };
struct World {
  int cur = 0;                         // the context running now (-1: an external thread of control)
  int act[8] = {}; int nact = 0;       // the generated behaviours of the leaves, by order of start
  int throwAt = -1, calls = 0; bool threw = false;
  std::vector<std::pair<int, std::function<void()>>> q;  // pending work: context, what
  const char* what = ""; int live = 0; int checks = 0, async = 0; bool scheds = false;
  int next_act() { int a = act[nact < 7 ? nact : 7]; nact++; return a; }
  void call() { if (calls++ == throwAt) { threw = true; throw Boom{calls}; } }
};
extern World* w;
void bad(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void post(int ctx, std::function<void()> f) { w->q.emplace_back(ctx, std::move(f)); w->async++; }
// ---- values ----
struct Obj { int v; explicit Obj(int v = 7) noexcept : v(v) { if (w) w->live++; } Obj(Obj&& o) noexcept : v(std::exchange(o.v, -1)) { w->live++; } Obj(const Obj& o) : v(o.v) { w->call(); w->live++; } Obj& operator=(Obj&& o) noexcept { v = std::exchange(o.v, -1); return *this; } Obj& operator=(const Obj& o) { w->call(); v = o.v; return *this; } ~Obj() { w->live--; v = -2; } };
struct TObj { int v; explicit TObj(int v = 7) : v(v) { w->live++; } TObj(TObj&& o) : v(o.v) { w->call(); o.v = -1; w->live++; } TObj(const TObj& o) : v(o.v) { w->call(); w->live++; } ~TObj() { w->live--; } };
struct Err { int v; explicit Err(int v = 9) noexcept : v(v) { w->live++; } Err(Err&& o) noexcept : v(std::exchange(o.v, -1)) { w->live++; } Err(const Err& o) : v(o.v) { w->call(); w->live++; } Err& operator=(Err&&) noexcept = default; ~Err() { w->live--; } };
// ---- contexts: a task runs when the driver runs the context ----
struct Ctx { int id; struct Dom : ex::default_domain { };
  using scheduler_concept = ex::scheduler_tag;
  struct Attrs { int id;
    template <class T, class... E> requires (!std::same_as<T, ex::set_error_t>) Ctx query(ex::get_completion_scheduler_t<T>, const E&...) const noexcept { return {id}; }
    template <class T> requires (!std::same_as<T, ex::set_error_t>) auto query(exec::get_completion_behavior_t<T>) const noexcept { return exec::completion_behavior::asynchronous; } };
  template <class R> struct Op { using operation_state_concept = ex::operation_state_tag; int id; R r; Op(int i, R r) : id(i), r((R&&) r) { } Op(Op&&) = delete;
    void start() & noexcept { post(id, [this] { if constexpr (!ex::unstoppable_token<ex::stop_token_of_t<ex::env_of_t<R>>>) if (ex::get_stop_token(ex::get_env(r)).stop_requested()) { ex::set_stopped((R&&) r); return; } ex::set_value((R&&) r); }); } };
  struct S { using sender_concept = ex::sender_tag; int id;
    template <class Self, class... E> static consteval auto get_completion_signatures() { if constexpr (sizeof...(E) > 0 && (ex::unstoppable_token<ex::stop_token_of_t<E>> && ...)) return ex::completion_signatures<ex::set_value_t()>{}; else return ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>{}; }
    template <class R> Op<R> connect(R r) const { return Op<R>(id, (R&&) r); } Attrs get_env() const noexcept { return {id}; } };
  S schedule() const noexcept { return {id}; } bool operator==(const Ctx&) const noexcept = default; };
// ---- leaves ----
// how a leaf completes on each channel: Inl at start; Loc(c) later on context c; Aff later on the context it was started on; Unk either at start or later anywhere
enum How { NO, INL, LOC, AFF, UNK };
template <How H> struct Beh { };
template <> struct Beh<INL> { static auto get() noexcept { return exec::completion_behavior::inline_completion; } };
template <> struct Beh<LOC> { static auto get() noexcept { return exec::completion_behavior::asynchronous; } };
template <> struct Beh<AFF> { static auto get() noexcept { return exec::completion_behavior::asynchronous_affine; } };
template <How V, How E, How S, class... Vs> struct Leaf {
  using sender_concept = ex::sender_tag; int ctx = 2;
  using Sigs = decltype([] { if constexpr (E != NO && S != NO) return ex::completion_signatures<ex::set_value_t(Vs...), ex::set_error_t(Err), ex::set_stopped_t()>{}; else if constexpr (E != NO) return ex::completion_signatures<ex::set_value_t(Vs...), ex::set_error_t(Err)>{}; else if constexpr (S != NO) return ex::completion_signatures<ex::set_value_t(Vs...), ex::set_stopped_t()>{}; else return ex::completion_signatures<ex::set_value_t(Vs...)>{}; }());
  template <class T> static constexpr How how = std::same_as<T, ex::set_value_t> ? V : std::same_as<T, ex::set_error_t> ? E : S;
  struct Attrs { int ctx;
    template <class T, class... En> requires (how<T> == LOC) Ctx query(ex::get_completion_scheduler_t<T>, const En&...) const noexcept { return {ctx}; }
    template <class T> requires (how<T> != NO && how<T> != UNK) auto query(exec::get_completion_behavior_t<T>) const noexcept { return Beh<how<T>>::get(); } };
  template <class Self, class... En> static consteval auto get_completion_signatures() { return Sigs{}; }
  Attrs get_env() const noexcept { return {ctx}; }
  template <class R> struct Op { using operation_state_concept = ex::operation_state_tag; int ctx; R r; int from = 0; bool done = false;
    struct OnStop { Op* o; void operator()() noexcept { o->stop(); } };
    std::optional<ex::stop_callback_for_t<ex::stop_token_of_t<ex::env_of_t<R>>, OnStop>> cb;
    Op(int c, R r) : ctx(c), r((R&&) r) { w->live++; } Op(Op&&) = delete; ~Op() { w->live--; }
    template <class T> void fin() noexcept { done = true; cb.reset(); if constexpr (std::same_as<T, ex::set_value_t>) { R x((R&&) r); ex::set_value((R&&) x, Vs(7)...); } else if constexpr (std::same_as<T, ex::set_error_t>) { if constexpr (E != NO) { R x((R&&) r); ex::set_error((R&&) x, Err(9)); } } else if constexpr (S != NO) { R x((R&&) r); ex::set_stopped((R&&) x); } }
    template <class T> void go(int a) noexcept { constexpr How h = how<T>; if constexpr (h == INL) fin<T>(); else if constexpr (h == LOC) post(ctx, [this] { if (!done) fin<T>(); }); else if constexpr (h == AFF) post(from, [this] { if (!done) fin<T>(); }); else if constexpr (h == UNK) { if (a & 4) fin<T>(); else post(a & 8 ? ctx : -1, [this] { if (!done) fin<T>(); }); } }
    bool waiting = false; int a = 0;
    // a leaf that waits for a stop request when the stop channel allows to complete inside it
    void stop() noexcept { if (!waiting || done) return; waiting = false; go<ex::set_stopped_t>(a); }
    void start() & noexcept { from = w->cur; a = w->next_act(); int k = a & 3; 
      if constexpr (S == UNK) if ((a & 16) && !ex::unstoppable_token<ex::stop_token_of_t<ex::env_of_t<R>>>) { waiting = true; cb.emplace(ex::get_stop_token(ex::get_env(r)), OnStop{this}); if (done || !waiting) return; post(-1, [this] { if (!done && waiting) { waiting = false; fin<ex::set_value_t>(); } }); return; }
      if (k == 1 && E != NO) go<ex::set_error_t>(a); else if (k == 2 && S != NO) go<ex::set_stopped_t>(a); else go<ex::set_value_t>(a); } };
  template <class R> Op<R> connect(R r) const { return Op<R>(ctx, (R&&) r); } };
using LV = Leaf<INL, NO, NO, Obj>;
using LVES = Leaf<INL, INL, INL, Obj>;
using LLOC = Leaf<LOC, NO, LOC, Obj>;
using LLOCE = Leaf<LOC, LOC, LOC>;
using LMIX = Leaf<LOC, INL, INL, Obj>;
using LMIX2 = Leaf<INL, LOC, LOC>;
using LAFF = Leaf<AFF, AFF, INL, Obj>;
using LUNK = Leaf<UNK, UNK, UNK, Obj>;
using LTHR = Leaf<INL, NO, LOC, TObj>;
using LUNV = Leaf<UNK, UNK, UNK>;
// ---- checking ----
template <class... T> struct TL { };
template <class Sig> struct Norm; template <class T, class... A> struct Norm<T(A...)> { using type = T(A&&...); };
template <> struct Norm<ex::set_error_t(const std::exception_ptr&)> { using type = ex::set_error_t(std::exception_ptr&&); }; // the library normalizes these to exception_ptr
template <class Sig, class Sigs> struct Has; template <class Sig, class... S> struct Has<Sig, ex::completion_signatures<S...>> : std::bool_constant<(std::same_as<typename Norm<Sig>::type, typename Norm<S>::type> || ...)> { };
inline std::string pretty(const char* p) { std::string s = p; auto b = s.find("X = "); return b == std::string::npos ? s : s.substr(b + 4, s.rfind(']') - b - 4); }
template <class X> std::string tn() { return pretty(__PRETTY_FUNCTION__); }
template <class S> const char* sname();
// what a sender says about one channel, evaluated for a given environment
struct Claim { bool inl = false, alwaysAsync = false, affine = false; int sch = -2; bool inlSch = false; };
template <class T, class S, class E> Claim claim(const S& s, const E& e) {
  Claim c; auto set = [&](auto b) { c.inl |= b.value == ex::__completion_behavior::__inline_completion.value; c.alwaysAsync |= exec::completion_behavior::is_always_asynchronous(b); c.affine |= exec::completion_behavior::is_affine(b); };
  set(ex::__get_completion_behavior<T, S, E>());
  auto env = ex::get_env(s);
  auto sch = [&](auto x) { using X = decltype(x); if constexpr (std::same_as<X, Ctx>) { if (c.sch >= 0 && c.sch != x.id) bad("%s: the completion scheduler with and without environment differ", w->what); c.sch = x.id; } else if constexpr (std::same_as<X, ex::inline_scheduler>) c.inlSch = true; };
  if constexpr (requires { ex::get_completion_scheduler<T>(env, e); }) sch(ex::get_completion_scheduler<T>(env, e));
  return c; }
struct Claims { Claim v, e, s; };
template <class S, class E> Claims claims(const S& s, const E& e) { return {claim<ex::set_value_t>(s, e), claim<ex::set_error_t>(s, e), claim<ex::set_stopped_t>(s, e)}; }
struct Run { bool active = false, done = false; int from = 0; };
template <class Sigs, class Sig> void check(const Run& r, const Claim& c, const char* chan, const char* where) {
  w->checks++;
  if constexpr (!Has<Sig, Sigs>::value) bad("%s: %s completes with %s, which is not among its completion signatures %s", w->what, where, tn<Sig>().c_str(), tn<Sigs>().c_str());
  if (c.inl && !r.active) bad("%s: %s advertises that %s completes inline; it completes after start returned", w->what, where, chan);
  if (c.alwaysAsync && r.active) bad("%s: %s advertises that %s completes asynchronously; it completes inside start", w->what, where, chan);
  if (c.affine && w->cur != r.from) bad("%s: %s advertises that %s completes where it was started (context %d); it completes on context %d", w->what, where, chan, r.from, w->cur);
  if (c.sch >= 0) { w->scheds = true; if (w->cur != c.sch) bad("%s: %s advertises context %d as the completion scheduler of %s; it completes on context %d", w->what, where, c.sch, chan, w->cur); }
  if (c.inlSch && !r.active) bad("%s: %s advertises the inline scheduler as the completion scheduler of %s; it completes after start returned", w->what, where, chan); }
// ---- the receiver at the top ----
struct EnvS { ex::inplace_stop_token t; int ctx; auto query(ex::get_stop_token_t) const noexcept { return t; } Ctx query(ex::get_start_scheduler_t) const noexcept { return {ctx}; } Ctx query(ex::get_scheduler_t) const noexcept { return {ctx}; } };
struct EnvU { int ctx; Ctx query(ex::get_start_scheduler_t) const noexcept { return {ctx}; } Ctx query(ex::get_scheduler_t) const noexcept { return {ctx}; } };
struct EnvI { ex::inplace_stop_token t; auto query(ex::get_stop_token_t) const noexcept { return t; } auto query(ex::get_start_scheduler_t) const noexcept { return ex::inline_scheduler{}; } };
template <class E> E mk_env(ex::inplace_stop_token t, int ctx) { if constexpr (std::same_as<E, EnvS>) return {t, ctx}; else if constexpr (std::same_as<E, EnvI>) return {t}; else return {ctx}; }
struct Top { Run run; Claims c; };
template <class Sigs, class E> struct Rcv { using receiver_concept = ex::receiver_tag; Top* t; E e;
  void once() const noexcept { if (t->run.done) bad("%s: a second completion", w->what); t->run.done = true; }
  template <class... A> void set_value(A&&...) && noexcept { once(); check<Sigs, ex::set_value_t(A&&...)>(t->run, t->c.v, "set_value", "the expression"); }
  template <class A> void set_error(A&&) && noexcept { once(); check<Sigs, ex::set_error_t(A&&)>(t->run, t->c.e, "set_error", "the expression"); }
  void set_stopped() && noexcept { once(); check<Sigs, ex::set_stopped_t()>(t->run, t->c.s, "set_stopped", "the expression"); }
  const E& get_env() const noexcept { return e; } };
// ---- a transparent sender that checks the sender below it in the environment it is really given ----
template <class S> struct Spy { using sender_concept = ex::sender_tag; S s;
  struct Attrs { const S& s; template <class Q, class... A> requires requires (ex::env_of_t<const S&> e, Q q, const A&... a) { e.query(q, a...); } decltype(auto) query(Q q, const A&... a) const noexcept { return ex::get_env(s).query(q, a...); } };
  Attrs get_env() const noexcept { return {s}; }
  template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::get_completion_signatures<S, E...>(); }
  template <class R> struct Op { using operation_state_concept = ex::operation_state_tag; R r; Run run; Claims c;
    using Sigs = ex::completion_signatures_of_t<S, ex::env_of_t<R>>;
    struct Rc { using receiver_concept = ex::receiver_tag; Op* o; void once() const noexcept { if (o->run.done) bad("%s: a second completion", w->what); o->run.done = true; }
      template <class... A> void set_value(A&&... a) && noexcept { once(); check<Sigs, ex::set_value_t(A&&...)>(o->run, o->c.v, "set_value", tn<S>().c_str()); if constexpr (Has<ex::set_value_t(A&&...), Sigs>::value) ex::set_value((R&&) o->r, (A&&) a...); }
      template <class A> void set_error(A&& a) && noexcept { once(); check<Sigs, ex::set_error_t(A&&)>(o->run, o->c.e, "set_error", tn<S>().c_str()); if constexpr (Has<ex::set_error_t(A&&), Sigs>::value) ex::set_error((R&&) o->r, (A&&) a); }
      void set_stopped() && noexcept { once(); check<Sigs, ex::set_stopped_t()>(o->run, o->c.s, "set_stopped", tn<S>().c_str()); if constexpr (Has<ex::set_stopped_t(), Sigs>::value) ex::set_stopped((R&&) o->r); }
      ex::env_of_t<R> get_env() const noexcept { return ex::get_env(o->r); } };
    ex::connect_result_t<S, Rc> op;
    Op(S&& s, R rr) : r((R&&) rr), c(claims(s, ex::get_env(r))), op(ex::connect((S&&) s, Rc{this})) { } Op(Op&&) = delete;
    void start() & noexcept { run.from = w->cur; bool fin = false; 
      if constexpr (requires { ex::get_start_scheduler(ex::get_env(r)); }) if constexpr (std::same_as<std::remove_cvref_t<decltype(ex::get_start_scheduler(ex::get_env(r)))>, Ctx>) { int k = ex::get_start_scheduler(ex::get_env(r)).id; if (k != w->cur) bad("%s: %s is started on context %d, its environment says %d", w->what, tn<S>().c_str(), w->cur, k); }
      // the operation may be destroyed inside start
      struct Mark { Run* r; bool* gone; }; run.active = true; alive = &fin; ex::start(op); if (!fin) { run.active = false; alive = nullptr; } }
    bool* alive = nullptr; ~Op() { if (alive) *alive = true; } };
  template <class R> Op<R> connect(R r) && { return Op<R>((S&&) s, (R&&) r); }
  template <class R> requires std::copy_constructible<S> Op<R> connect(R r) const& { return Op<R>(S(s), (R&&) r); } };
// ---- registry ----
struct Entry { std::string name; void (*run)(int env); };
std::vector<Entry>& reg(); std::vector<Entry>& regk();
template <class F> void to_known(F f) { size_t n = reg().size(); f(); while (reg().size() > n) { regk().push_back(reg().back()); reg().pop_back(); } }
inline int budget;
void drive(std::function<bool()> done, ex::inplace_stop_source& ss);
extern int g_ctx0, g_stopAt;
template <class E, class X> void run_expr(X x) {
  using Sigs = ex::completion_signatures_of_t<X, E>;
  ex::inplace_stop_source ss; Top t; E e = mk_env<E>(ss.get_token(), g_ctx0); t.c = claims(x, e); w->cur = g_ctx0;
  if (g_stopAt == 0) ss.request_stop();
  { try { auto op = ex::connect((X&&) x, Rcv<Sigs, E>{&t, e}); t.run.from = w->cur; t.run.active = true; ex::start(op); t.run.active = false; drive([&] { return t.run.done; }, ss); } catch (Boom&) { if (!w->threw) throw; } } }
// ---- adaptors ----
struct VN { template <class... A> int operator()(A&&...) const noexcept { return 5; } };
struct VT { template <class... A> int operator()(A&&...) const { w->call(); return 5; } };
struct VV { template <class... A> void operator()(A&&...) const noexcept { } };
struct BN { template <class... A> void operator()(int, A&&...) const noexcept { } };
struct BT { template <class... A> void operator()(int, A&&...) const { w->call(); } };
struct BC { template <class... A> void operator()(int, int, A&&...) const noexcept { } };
template <class S> struct LF { template <class... A> S operator()(A&&...) const noexcept { return S{}; } };
template <class S> struct LFT { template <class... A> S operator()(A&&...) const { w->call(); return S{}; } };
template <class A, class S> using ap_t = decltype(A::ap(std::declval<S>()));
template <class X, class E> concept Ok = ex::sender_in<X, E> && requires { typename ex::completion_signatures_of_t<X, E>; } && ex::sender_to<X, Rcv<ex::completion_signatures_of_t<X, E>, E>>;
extern int n_ok, n_skip;
template <class Make, class E> void add1(const std::string& nm) {
  using X = decltype(Make::make());
  if constexpr (Ok<X, E>) { n_ok++; reg().push_back({nm, [](int) { run_expr<E>(Make::make()); }}); }
  else { n_skip++; if (getenv("C28_SKIPS")) fprintf(stderr, "skip %s\n", nm.c_str()); } }
template <class L> struct M0 { static auto make() { return L{}; } };
template <class M, class A> struct M1 { static auto make() { return A::ap(M::make()); } };
template <class M, class A> struct M1s { static auto make() { return A::ap(Spy<decltype(M::make())>{M::make()}); } };
}
#define AD(N, ...) struct N { static constexpr const char* name = #N; template <class S> static auto ap(S s) { return __VA_ARGS__; } };
