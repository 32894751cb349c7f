#include "c27.hpp"
#include <stdexec/__detail/__task.hpp>
namespace {
struct Node { int arena, kind, end; bool hop, catches, envq; std::vector<int> kids; int value; }; // kind 0 free function, 1 lambda, 2 member function; end 0 value 1 exception 2 stopped
struct Prog { std::vector<Node> n; int envArena; bool bigSched; };
const Prog* prog;
struct TE { using allocator_type = LA<std::byte>; };
using T = ex::task<int, TE>;
struct Local : Tracked { explicit Local(const Node* n) { may_throw(); int a = w->arena_of(this); if (a != n->arena) vs::fail("the frame of a coroutine (kind %d) called with arena %d is in arena %d", n->kind, n->arena, a); } };
T call(int i);
struct BigSched { using scheduler_concept = ex::scheduler_tag; long pad[20]{}; Tracked t;
  struct S { using sender_concept = ex::sender_tag; using completion_signatures = ex::completion_signatures<ex::set_value_t()>; template <class R> struct Op { using operation_state_concept = ex::operation_state_tag; R r; void start() & noexcept { ex::set_value((R&&) r); } }; template <class R> Op<R> connect(R r) const { return {(R&&) r}; }
    struct E { template <class... A> auto query(ex::get_completion_scheduler_t<ex::set_value_t>, A&&...) const noexcept { return BigSched{}; } }; E get_env() const noexcept { return {}; } };
  S schedule() const noexcept { return {}; } bool operator==(const BigSched&) const noexcept { return true; } };
#define BODY \
  Local l(&n); int sum = n.value; \
  if (n.envq) { auto a = co_await ex::read_env(ex::get_allocator); if (a.id != prog->envArena) vs::fail("a task's environment has an allocator of arena %d, the awaiting environment has arena %d", a.id, prog->envArena); } \
  if (n.hop) co_await ex::schedule(ex::inline_scheduler{}); \
  for (int k : n.kids) { Local m(&n); if (n.catches) { try { sum += co_await call(k); } catch (Boom&) { sum += 100; } catch (std::bad_alloc&) { sum += 1000; } } else sum += co_await call(k); } \
  if (n.end == 1) throw Boom{-7}; if (n.end == 2) co_await ex::just_stopped(); co_return sum;
T freeT(std::allocator_arg_t, LA<int>, const Node& n) { BODY }
T freeD(const Node& n) { BODY }
T freeL(std::allocator_arg_t, LA<long double>, const Node& n, std::unique_ptr<int>) { BODY }
struct M { int x = 0; T run(std::allocator_arg_t, LA<int>, const Node& n) { BODY } T runD(const Node& n) const { BODY } };
M m;
T call(int i) { const Node& n = prog->n[(size_t) i]; 
  if (n.kind == 1) { static auto l = [](std::allocator_arg_t, LA<int>, const Node& n) -> T { BODY }; static auto ld = [](const Node& n) -> T { BODY }; if (n.arena >= 0) return l(std::allocator_arg, LA<int>(n.arena), n); return ld(n); }
  if (n.kind == 2) return n.arena >= 0 ? m.run(std::allocator_arg, LA<int>(n.arena), n) : m.runD(n);
  return n.arena < 0 ? freeD(n) : i & 1 ? freeL(std::allocator_arg, LA<long double>(n.arena), n, nullptr) : freeT(std::allocator_arg, LA<int>(n.arena), n); }
struct Env { LA<long> a; auto query(ex::get_allocator_t) const noexcept { return a; } auto query(ex::get_start_scheduler_t) const noexcept { return ex::inline_scheduler{}; } auto query(ex::get_scheduler_t) const noexcept { return ex::inline_scheduler{}; } };
struct EnvB { LA<long> a; auto query(ex::get_allocator_t) const noexcept { return a; } auto query(ex::get_start_scheduler_t) const noexcept { return BigSched{}; } auto query(ex::get_scheduler_t) const noexcept { return BigSched{}; } };
}
namespace c27 {
vs::Case make_task(vs::Gen& g) {
  auto p = std::make_shared<Prog>(); p->envArena = g.range(0, 3); p->bigSched = g.chance(30); int n = g.range(1, 7);
  for (int i = 0; i < n; i++) { Node x; x.arena = g.chance(75) ? g.range(0, 4) : -1; x.kind = g.range(0, 2); x.end = g.chance(25) ? g.range(1, 2) : 0; x.hop = g.chance(40); x.catches = g.chance(30); x.envq = g.chance(50); x.value = i + 1; p->n.push_back(x); if (i) p->n[(size_t) g.range(0, i - 1)].kids.push_back(i); }
  int failAt = g.chance(35) ? g.range(0, 9) : -1, throwAt = g.chance(25) ? g.range(0, 9) : -1; int use = g.chance(80) ? 0 : g.range(1, 2); // 1: never connected, 2: connected, not started
  std::string d = sfmt("env=%d big=%d fail=%d throw=%d use=%d", p->envArena, p->bigSched, failAt, throwAt, use); for (auto& x : p->n) { d += sfmt(" {a%d k%d e%d%s%s%s", x.arena, x.kind, x.end, x.hop ? " hop" : "", x.catches ? " catch" : "", x.envq ? " env" : ""); for (int k : x.kids) d += sfmt(" %d", k); d += "}"; }
  return {[p, failAt, throwAt, use] { World wd; w = &wd; wd.failAt = failAt; wd.throwAt = throwAt; prog = p.get(); int res = -1, val = 0; bool oom = false;
    auto go = [&](auto env) { try { auto t = call(0); if (use == 1) return; auto op = ex::connect(std::move(t), FinR<decltype(env)>{&res, &val, env}); if (use == 2) return; ex::start(op); drain(); if (res == -1) vs::fail("the task never completes"); } catch (std::bad_alloc&) { oom = true; } };
    if (p->bigSched) go(EnvB{LA<long>(p->envArena)}); else go(Env{LA<long>(p->envArena)});
    // the model: who throws what
    bool seenOom = oom || res == 4; bool anyCatch = false, anyEnd = false; for (auto& x : p->n) { anyCatch |= x.catches; anyEnd |= x.end != 0; }
    if (wd.failed && !seenOom && !anyCatch) vs::fail("an allocation fails and the task completes with %d", res); if (seenOom && !wd.failed) vs::fail("no allocation fails and the task reports one");
    if (wd.threw && res != 3 && !anyCatch) vs::fail("a body throws and the task completes with %d", res);
    if (!wd.failed && !wd.threw && use == 0 && !anyEnd) { int s = 0; for (auto& x : p->n) s += x.value; if (res != 0 || val != s) vs::fail("the task completes with (%d, %d) instead of the value %d", res, val, s); }
    if (use == 0 && !wd.failed && !wd.threw && !anyEnd) { int cnt[8] = {}; for (auto& x : p->n) if (x.arena >= 0) cnt[x.arena]++; for (int a = 0; a < 5; a++) if (a != p->envArena && wd.perArena[a] != cnt[a]) vs::fail("arena %d is given %d allocations, %d coroutines use it", a, wd.perArena[a], cnt[a]); if (p->bigSched && wd.perArena[p->envArena] <= cnt[p->envArena]) vs::fail("the copy of the start scheduler is not allocated with the task's allocator"); }
    if (seenOom) vs::label("allocation failed"); vs::label(p->bigSched ? "big scheduler" : "inline scheduler"); vs::nontrivial(wd.count > 0); prog = nullptr; finish(); }, d}; }
}
