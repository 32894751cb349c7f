// The library's own schedulers with real threads: what their senders advertise against where, when and how they complete.
#include <stdexec/execution.hpp>
#include <exec/static_thread_pool.hpp>
#include <exec/single_thread_context.hpp>
#include <exec/timed_thread_scheduler.hpp>
#include <exec/trampoline_scheduler.hpp>
#include <exec/inline_scheduler.hpp>
#include <exec/any_sender_of.hpp>
#include <exec/completion_behavior.hpp>
#include "vsched.h"
#include <thread>
#include <atomic>
#include <semaphore>
#include <set>
#include <cstring>
namespace ex = stdexec;
namespace c28r {
template <class... A> void bad2(const char* f, A... a) { char b[600]; snprintf(b, sizeof b, f, a...); if (const char* o = getenv("C28_SURVEY")) { static std::set<std::string> seen; if (seen.insert(b).second) if (FILE* x = fopen(o, "a")) { fprintf(x, "%s\n", b); fclose(x); } return; } vs::fail("%s", b); }
using Tid = std::thread::id;
struct LoopThread { ex::run_loop loop; std::thread th{[this] { loop.run(); }}; ~LoopThread() { loop.finish(); th.join(); } auto sched() { return loop.get_scheduler(); } };
using AnyS = exec::any_scheduler<exec::any_sender<exec::any_receiver<ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>, exec::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept>>>>;
// the contexts; one worker each, so a scheduler stands for a thread
struct Real { LoopThread a, b; exec::static_thread_pool p{1}, q{1}; exec::single_thread_context s; exec::timed_thread_context t; Tid ta = a.th.get_id(), tb = b.th.get_id(), tp, tq, ts, tt;
  Real() { auto id = [](auto sch) { return std::get<0>(*ex::sync_wait(ex::then(ex::schedule(sch), [] { return std::this_thread::get_id(); }))); };
    tp = id(p.get_scheduler()); tq = id(q.get_scheduler()); ts = id(s.get_scheduler()); tt = id(t.get_scheduler()); } };
Real* R;
Tid t_start;
// scheduler -> thread (the default id: "the thread that started it")
template <class S> bool thread_of(const S& s, Tid& out) {
  if constexpr (std::same_as<S, decltype(R->a.sched())>) { out = s == R->a.sched() ? R->ta : s == R->b.sched() ? R->tb : s == R->s.get_scheduler() ? R->ts : Tid(); return true; }
  else if constexpr (std::same_as<S, decltype(R->p.get_scheduler())>) { out = s == R->p.get_scheduler() ? R->tp : s == R->q.get_scheduler() ? R->tq : Tid(); return true; }
  else if constexpr (std::same_as<S, decltype(R->t.get_scheduler())>) { out = R->tt; return true; }
  else if constexpr (std::same_as<S, ex::inline_scheduler> || std::same_as<S, exec::trampoline_scheduler>) { out = t_start; return true; }
  else return false; }
struct Claim { bool inl = false, alwaysAsync = false, affine = false, has = false; Tid on; };
template <class T, class S, class E> Claim claim(const S& s, const E& e) {
  Claim c; auto at = ex::get_env(s);
  auto b = ex::__get_completion_behavior<T, S, E>();
  c.inl = b.value == ex::__completion_behavior::__inline_completion.value; c.alwaysAsync = exec::completion_behavior::is_always_asynchronous(b); c.affine = exec::completion_behavior::is_affine(b);
  if constexpr (requires { ex::get_completion_scheduler<T>(at, e); }) c.has = thread_of(ex::get_completion_scheduler<T>(at, e), c.on);
  return c; }
struct Env { ex::inplace_stop_token t; auto query(ex::get_stop_token_t) const noexcept { return t; } auto query(ex::get_start_scheduler_t) const noexcept { return R->a.sched(); } auto query(ex::get_scheduler_t) const noexcept { return R->a.sched(); } };
struct EnvU { auto query(ex::get_start_scheduler_t) const noexcept { return R->a.sched(); } auto query(ex::get_scheduler_t) const noexcept { return R->a.sched(); } };
struct Seen { const char* what; const char* chan = ""; Claim v, e, s; Tid start, end; bool inside = false; int n = 0; bool sig = true; std::atomic<bool> starting{false}; std::binary_semaphore done{0}, left{0}; };
template <class Sig, class Sigs> struct In; template <class Sig, class... X> struct In<Sig, ex::completion_signatures<X...>> : std::bool_constant<(std::same_as<Sig, X> || ...)> { };
template <class Sigs, class E> struct Rcv { using receiver_concept = ex::receiver_tag; Seen* s; E e;
  template <class Sig> void hit(const char* c) const noexcept { Seen* k = s; k->chan = c; k->n++; k->end = std::this_thread::get_id(); k->inside = k->starting.load() && k->end == k->start; k->sig = In<Sig, Sigs>::value; k->done.release(); }
  void set_value(auto&&... a) && noexcept { hit<ex::set_value_t(std::decay_t<decltype(a)>...)>("set_value"); }
  void set_error(auto&& a) && noexcept { hit<ex::set_error_t(std::decay_t<decltype(a)>)>("set_error"); }
  void set_stopped() && noexcept { hit<ex::set_stopped_t()>("set_stopped"); }
  E get_env() const noexcept { return e; } };
template <class E, class X> void run_x(X x, const char* what, bool stop) {
  if (const char* f = getenv("C28_ONLY")) if (!strstr(what, f)) return;
  using Sigs = ex::completion_signatures_of_t<X, E>;
  ex::inplace_stop_source ss; if (stop) ss.request_stop();
  Seen k; k.what = what; E e = [&] { if constexpr (std::same_as<E, Env>) return Env{ss.get_token()}; else return E{}; }();
  // started on the thread of run_loop a, as the environment says
  struct Go { using receiver_concept = ex::receiver_tag; std::function<void()>* f; void set_value() && noexcept { (*f)(); } void set_stopped() && noexcept { } };
  std::function<void()> f;
  auto go = ex::connect(ex::schedule(R->a.sched()), Go{&f});
  { k.start = R->ta; t_start = R->ta; k.v = claim<ex::set_value_t>(x, e); k.e = claim<ex::set_error_t>(x, e); k.s = claim<ex::set_stopped_t>(x, e);
    auto op = ex::connect((X&&) x, Rcv<Sigs, E>{&k, e});
    f = [&] { k.starting = true; ex::start(op); k.starting = false; k.left.release(); };
    ex::start(go); k.left.acquire(); k.done.acquire(); }
  const Claim& c = k.chan[4] == 'v' ? k.v : k.chan[4] == 'e' ? k.e : k.s;
  if (k.n != 1) bad2("%s: %d completions", what, k.n);
  if (!k.sig) bad2("%s: %s is not among the completion signatures", what, k.chan);
  if (c.inl && !k.inside) bad2("%s: %s is advertised as inline; it completes outside of start", what, k.chan);
  if (c.alwaysAsync && k.inside) bad2("%s: %s is advertised as asynchronous; it completes inside start", what, k.chan);
  if (c.affine && k.end != k.start) bad2("%s: %s is advertised as completing where it was started; it completes on another thread", what, k.chan);
  if (c.has && c.on != k.end) bad2("%s: %s completes on a thread which is not that of the advertised completion scheduler", what, k.chan);
  vs::nontrivial(!k.inside); vs::label(k.chan); if (c.has) vs::label("completion scheduler checked");
}
// a coroutine which awaits the sender must go on only after the completion, and where it was
template <class X> ex::task<int> awaits(X x, int* st) { *st = 1; co_await std::move(x); *st = std::this_thread::get_id() == R->ta ? 2 : 3; co_return 7; }
template <class X> void run_task(X x, const char* what, bool stop) {
  ex::inplace_stop_source ss; if (stop) ss.request_stop(); int st = 0; Seen k; k.what = what;
  using T = ex::task<int>; using Sigs = ex::completion_signatures_of_t<T, Env>;
  struct Go { using receiver_concept = ex::receiver_tag; std::function<void()>* f; void set_value() && noexcept { (*f)(); } void set_stopped() && noexcept { } };
  std::function<void()> f; auto go = ex::connect(ex::schedule(R->a.sched()), Go{&f});
  { auto op = ex::connect(awaits((X&&) x, &st), Rcv<Sigs, Env>{&k, Env{ss.get_token()}});
    k.start = R->ta; f = [&] { k.starting = true; ex::start(op); k.starting = false; k.left.release(); };
    ex::start(go); k.left.acquire(); k.done.acquire(); }
  if (k.n != 1) bad2("task: co_await %s: %d completions", what, k.n);
  if (st == 3) bad2("task: co_await %s resumes the coroutine on another thread", what);
  if (!stop && (st != 2 || k.chan[4] != 'v')) bad2("task: co_await %s: the coroutine does not go on with a value (%d, %s)", what, st, k.chan);
  if (k.chan[4] == 'v' && st != 2) bad2("task: co_await %s: a value before the coroutine went on", what);
  if (k.end != R->ta) bad2("task: co_await %s: the task completes on another thread", what);
  vs::nontrivial(!k.inside); vs::label("awaited in a task"); }
struct Ent { std::string n; void (*f)(const char*, bool); };
std::vector<Ent>& ents() { static std::vector<Ent> v; return v; }
// instances of findings listed for C28 (continues_on to a scheduler that completes inline, the stopped channel of starts_on and of continues_on)
bool listed(const std::string& n, bool stoppable) {
  static const std::set<std::string> both{"schedule(pool)|continues_on(inline_scheduler)", "schedule(pool)|continues_on(trampoline_scheduler)"};
  return both.count(n) || n.find("|upon_stopped") != n.npos || (stoppable && (n.find("starts_on(") == 0 && n.find("run_loop b))") != n.npos || n.find("just|continues_on(timed") == 0)); }
template <bool Task = true, class Mk> void add(std::string n, Mk) {
  using X = decltype(Mk()());
  if constexpr (ex::sender_in<X, Env>) if (!listed(n, true)) ents().push_back({n + " (stoppable)", [](const char* w, bool s) { run_x<Env>(Mk()(), w, s); }});
  if constexpr (ex::sender_in<X, EnvU>) if (!listed(n, false)) ents().push_back({n + " (unstoppable)", [](const char* w, bool) { run_x<EnvU>(Mk()(), w, false); }});
  if constexpr (Task) ents().push_back({n, [](const char* w, bool s) { run_task(Mk()(), w, s); }}); }
template <bool Task = true, class M> void each(std::string n, M) { // M()() is a scheduler
  add<Task>("schedule(" + n + ")", [] { return ex::schedule(M()()); });
  add<Task>("schedule(" + n + ")|then", [] { return ex::then(ex::schedule(M()()), []() noexcept { return 1; }); });
  add<Task>("schedule(" + n + ")|continues_on(run_loop b)", [] { return ex::continues_on(ex::schedule(M()()), R->b.sched()); });
  add<Task>("just|continues_on(" + n + ")", [] { return ex::continues_on(ex::just(1), M()()); });
  add<Task>("schedule(pool)|continues_on(" + n + ")", [] { return ex::continues_on(ex::schedule(R->q.get_scheduler()), M()()); });
  add<Task>("starts_on(" + n + ", just)", [] { return ex::starts_on(M()(), ex::just()); });
  add<Task>("starts_on(" + n + ", schedule(run_loop b))", [] { return ex::starts_on(M()(), ex::schedule(R->b.sched())); });
  add<Task>("on(" + n + ", just)", [] { return ex::on(M()(), ex::just(2)); });
  add<Task>("affine(schedule(" + n + "))", [] { return ex::affine(ex::schedule(M()())); });
  add<Task>("let_value(schedule(" + n + "), just)", [] { return ex::let_value(ex::schedule(M()()), []() noexcept { return ex::just(); }); });
  add<Task>("when_all(schedule(" + n + "))", [] { return ex::when_all(ex::schedule(M()())); });
  add<false>("bulk(schedule(" + n + "))", [] { return ex::bulk(ex::schedule(M()()), ex::par, 3, [](int) noexcept { }); });
  add<false>("just|continues_on(" + n + ")|bulk", [] { return ex::bulk(ex::continues_on(ex::just(1), M()()), ex::par, 3, [](int, int&) noexcept { }); });
  add<Task>("unstoppable(schedule(" + n + "))", [] { return ex::unstoppable(ex::schedule(M()())); }); }
const int reg_ = [] {
  each("run_loop a", [] { return R->a.sched(); }); each("run_loop b", [] { return R->b.sched(); });
  each("static_thread_pool", [] { return R->p.get_scheduler(); }); each("single_thread_context", [] { return R->s.get_scheduler(); });
  each("timed_thread_context", [] { return R->t.get_scheduler(); }); each("inline_scheduler", [] { return ex::inline_scheduler{}; });
  each("trampoline_scheduler", [] { return exec::trampoline_scheduler{}; }); each("any_scheduler", [] { return AnyS(R->p.get_scheduler()); });
  each<false>("task_scheduler", [] { return ex::task_scheduler(R->b.sched()); });
  add("let_value(just, schedule(run_loop b))", [] { return ex::let_value(ex::just(), []() noexcept { return ex::schedule(R->b.sched()); }); });
  add("let_stopped(just_stopped, schedule(pool))", [] { return ex::let_stopped(ex::just_stopped(), []() noexcept { return ex::schedule(R->p.get_scheduler()); }); });
  add("schedule_after(timed_thread_context)", [] { return exec::schedule_after(R->t.get_scheduler(), std::chrono::microseconds(50)); });
  add("schedule_after(timed_thread_context)|continues_on(run_loop b)", [] { return ex::continues_on(exec::schedule_after(R->t.get_scheduler(), std::chrono::microseconds(1)), R->b.sched()); });
  return 0; }();
}
namespace c28 { using namespace c28r;
vs::Case make_real(vs::Gen& g) { std::vector<std::pair<Ent*, bool>> l; std::string d; int n = g.range(1, 12); for (int i = 0; i < n; i++) { Ent* e = &ents()[(size_t) g.below((uint32_t) ents().size())]; bool s = g.chance(30); l.push_back({e, s}); d += e->n + (s ? " stopped; " : "; "); }
  return {[l] { static Real* r = new Real; R = r; for (auto& [e, s] : l) e->f(e->n.c_str(), s); }, d}; }
}
