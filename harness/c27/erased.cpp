#include "c27.hpp"
#include <stdexec/__detail/__any_allocator.hpp>
#include <stdexec/__detail/__task_scheduler.hpp>
#include <exec/function.hpp>
namespace {
struct alignas(64) Over { char c[64]; }; struct Big { long a[5]; };
// an allocator that does not fit into small buffers
template <class T> struct LB { using value_type = T; long pad[12]{}; int id; explicit LB(int i) : id(i) { } LB(const LB&) noexcept = default; LB& operator=(const LB&) noexcept = default; template <class U> LB(const LB<U>& o) noexcept : id(o.id) { }
  T* allocate(size_t n) { return (T*) arena_allocate(id, n, sizeof(T), alignof(T)); } void deallocate(T* p, size_t n) noexcept { arena_deallocate(id, p, n, sizeof(T), alignof(T)); } template <class U> friend bool operator==(const LB& a, const LB<U>& b) noexcept { return a.id == b.id; } };
template <class T> using AA = ex::__any_allocator<T>;
struct Op { int kind, t, s, u, n, arena; };
struct Mem { void* p; size_t n; int t; int arena; bool big; };
template <class T> struct Slot { std::optional<AA<T>> a; int arena = -1; bool big = false; };
template <class T> void fill(void* p, size_t n) { if ((uintptr_t) p % alignof(T)) vs::fail("__any_allocator returns memory that is not aligned for its value type (alignment %zu)", alignof(T)); std::memset(p, 0x11, n * sizeof(T)); }
struct AM { std::tuple<std::vector<Slot<std::byte>>, std::vector<Slot<int>>, std::vector<Slot<Big>>, std::vector<Slot<Over>>> s; std::vector<Mem> mem; };
template <class F> void with_t(int t, F f) { switch (t) { case 0: f(std::integral_constant<int, 0>{}); break; case 1: f(std::integral_constant<int, 1>{}); break; case 2: f(std::integral_constant<int, 2>{}); break; default: f(std::integral_constant<int, 3>{}); } }
template <int I> using Ty = std::tuple_element_t<I, std::tuple<std::byte, int, Big, Over>>;
}
namespace c27 {
vs::Case make_anyalloc(vs::Gen& g) {
  auto ops = std::make_shared<std::vector<Op>>(); int n = g.range(1, 25); for (int i = 0; i < n; i++) ops->push_back({g.range(0, 6), g.range(0, 3), g.range(0, 2), g.range(0, 2), g.range(1, 5), g.range(0, 2)}); int failAt = g.chance(20) ? g.range(0, 8) : -1;
  std::string d = sfmt("fail=%d", failAt); for (auto& o : *ops) d += sfmt(" %d.%d.%d.%d.%d.%d", o.kind, o.t, o.s, o.u, o.n, o.arena);
  return {[ops, failAt] { World wd; w = &wd; wd.failAt = failAt; { AM m; std::get<0>(m.s).resize(3); std::get<1>(m.s).resize(3); std::get<2>(m.s).resize(3); std::get<3>(m.s).resize(3); int used = 0;
    for (auto& o : *ops) with_t(o.t, [&]<int I>(std::integral_constant<int, I>) { using T = Ty<I>; auto& v = std::get<I>(m.s); auto& x = v[(size_t) o.s]; auto& y = v[(size_t) o.u];
      switch (o.kind) {
      case 0: x.a.emplace(LA<T>(o.arena)); x.arena = o.arena; x.big = false; break;
      case 1: x.a.emplace(LB<T>(o.arena)); x.arena = o.arena; x.big = true; break;
      case 2: if (y.a) { if (o.n & 1 || o.s == o.u) { x = y; } else { x.a.emplace(std::as_const(*y.a)); x.arena = y.arena; x.big = y.big; } } break;
      case 3: with_t((o.t + o.n) % 4, [&]<int J>(std::integral_constant<int, J>) { if constexpr (I != J) { auto& z = std::get<J>(m.s)[(size_t) o.u]; if (z.a) { x.a.emplace(*z.a); x.arena = z.arena; x.big = z.big; if (!x.a->has_value()) vs::fail("the converted allocator is empty"); AA<Ty<J>> back(*x.a); if (!(back == *z.a)) vs::fail("an allocator converted there and back is unequal to the original"); } } }); break;
      case 4: if (x.a) { int before = wd.count; bool f = wd.failed; try { T* p = x.a->allocate((size_t) o.n); fill<T>(p, (size_t) o.n); if (wd.arena_of(p) != x.arena) vs::fail("the memory comes from arena %d, the wrapped allocator is of arena %d", wd.arena_of(p), x.arena); if (wd.arena_of((char*) p + (size_t) o.n * sizeof(T) - 1) != x.arena) vs::fail("the wrapped allocator is asked for less memory than requested"); m.mem.push_back({p, (size_t) o.n, I, x.arena, x.big}); used++; } catch (std::bad_alloc&) { if (f || !wd.failed) vs::fail("bad_alloc although the wrapped allocator did not fail"); } if (wd.count == before) vs::fail("memory is not taken from the wrapped allocator"); } break;
      case 5: for (size_t i = 0; i < m.mem.size(); i++) if (m.mem[i].t == I && x.a && m.mem[i].arena == x.arena && m.mem[i].big == x.big) { x.a->deallocate((T*) m.mem[i].p, m.mem[i].n); m.mem.erase(m.mem.begin() + (long) i); break; } break;
      default: if (x.a && y.a && (*x.a == *y.a) != (x.arena == y.arena && x.big == y.big)) vs::fail("allocators of arenas %d and %d compare %s", x.arena, y.arena, *x.a == *y.a ? "equal" : "unequal"); AA<T> e; if (e.has_value()) vs::fail("a default constructed allocator has a value"); } });
    for (auto& b : m.mem) with_t(b.t, [&]<int I>(std::integral_constant<int, I>) { using T = Ty<I>; if (b.big) { AA<T> a{LB<T>(b.arena)}; a.deallocate((T*) b.p, b.n); } else { AA<T> a{LA<T>(b.arena)}; a.deallocate((T*) b.p, b.n); } });
    vs::nontrivial(used > 1); } finish(); }, d}; }
// ---- __memory_resource_adaptor_t and frame allocators ----
vs::Case make_adaptor(vs::Gen& g) {
  struct O { int res, bytes, al, kind; }; auto ops = std::make_shared<std::vector<O>>(); int n = g.range(1, 20); for (int i = 0; i < n; i++) ops->push_back({g.range(0, 5), g.chance(20) ? g.range(0, 3000) : g.range(1, 80), 1 << g.range(0, 8), g.range(0, 3)}); int failAt = g.chance(25) ? g.range(0, 8) : -1;
  std::string d = sfmt("fail=%d", failAt); for (auto& o : *ops) d += sfmt(" r%d %db a%d k%d", o.res, o.bytes, o.al, o.kind);
  return {[ops, failAt] { World wd; w = &wd; wd.failAt = failAt; { using AB = exec::__memory_resource_adaptor_t<LA<std::byte>>; using AL = exec::__memory_resource_adaptor_t<const LA<long double>&>; using AS = exec::__memory_resource_adaptor_t<std::allocator<int>>; using AR = exec::__memory_resource_adaptor_t<Res*>; using AP = exec::__memory_resource_adaptor_t<std::pmr::polymorphic_allocator<int>>;
    static_assert(std::same_as<AB, AL>); AB a0{LA<std::byte>(0)}, a0b{LA<int>(0)}; AL a1{LA<long double>(1)}; AS s{std::allocator<int>()}; Res r(3); AR ar(&r); AP ap{std::pmr::polymorphic_allocator<int>(&r)};
    std::pmr::memory_resource* R[] = {&a0, &a1, &s, &ar, &ap, &a0b}; int arena[] = {0, 1, -1, 3, 3, 0};
    if (&ar != &r) vs::fail("the adaptor of a resource pointer is not the resource"); if (!a0.is_equal(a0b) || a0.is_equal(a1) || a0.is_equal(s) || s.is_equal(a1) || a1.is_equal(r)) vs::fail("adaptors compare equal iff the adapted allocators do: violated");
    struct B { void* p; size_t n, al; int res; std::vector<unsigned char> c; }; std::vector<B> live; int k = 0;
    auto put = [&](void* p, size_t n, size_t al, int res) { if ((uintptr_t) p % al) vs::fail("memory requested with alignment %zu is misaligned", al); for (auto& b : live) if ((char*) p < (char*) b.p + b.n && (char*) b.p < (char*) p + n) vs::fail("two live blocks overlap"); std::vector<unsigned char> c(n); for (auto& x : c) x = (unsigned char) ++k; if (n) std::memcpy(p, c.data(), n); if (n && wd.arena_of(p) != arena[res]) vs::fail("the block comes from arena %d, the adapted allocator is of arena %d", wd.arena_of(p), arena[res]); live.push_back({p, n, al, res, std::move(c)}); };
    auto take = [&](size_t i) { auto b = std::move(live[i]); live.erase(live.begin() + (long) i); if (b.n && std::memcmp(b.p, b.c.data(), b.n)) vs::fail("the contents of a block changed"); int rr = b.res == 0 && (k & 1) ? 5 : b.res; R[rr]->deallocate(b.p, b.n, b.al); };
    for (auto& o : *ops) { bool before = wd.failed; try { if (o.kind < 2) put(R[o.res]->allocate((size_t) o.bytes, (size_t) o.al), (size_t) o.bytes, (size_t) o.al, o.res); else if (o.kind == 2) { std::pmr::polymorphic_allocator<Over> pa(R[o.res]); Over* p = pa.allocate((size_t) (o.bytes % 3 + 1)); put(p, sizeof(Over) * (size_t) (o.bytes % 3 + 1), alignof(Over), o.res); } else if (!live.empty()) take((size_t) o.bytes % live.size()); } catch (std::bad_alloc&) { if (before || !wd.failed) vs::fail("bad_alloc although the adapted allocator did not fail"); } }
    // frame allocators
    { exec::__frame_allocator_t<Res*> f(&r); using FT = std::allocator_traits<exec::__frame_allocator_t<Res*>>::template rebind_alloc<Over>; FT ft(f); try { Over* p = ft.allocate(2); if ((uintptr_t) p % 64 || wd.arena_of(p) != 3) vs::fail("the frame allocator of a resource does not allocate from it"); FT ft2 = ft; ft2.deallocate(p, 2); } catch (std::bad_alloc&) { if (!wd.failed) vs::fail("bad_alloc although the resource did not fail"); } }
    while (!live.empty()) take(live.size() - 1); vs::nontrivial(ops->size() > 2); } finish(); }, d}; }
}
// ---- task_scheduler ----
namespace {
int swhere; int rcvArena; bool useEnvAlloc; bool sawStart;
template <int Pad> struct Sch { using scheduler_concept = ex::scheduler_tag; int id; Tracked t; long pad[Pad]{}; explicit Sch(int i) : id(i) { } Sch(const Sch& o) noexcept : id(o.id), t(o.t) { }
  struct S { using sender_concept = ex::sender_tag; int id; 
    template <class Self, class Env> static consteval auto get_completion_signatures() { if constexpr (ex::unstoppable_token<ex::stop_token_of_t<Env>>) return ex::completion_signatures<ex::set_value_t()>{}; else return ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>{}; }
    template <class R> struct Op { using operation_state_concept = ex::operation_state_tag; R r; Tracked t; 
      void start() & noexcept { sawStart = true; swhere = w->arena_of(this); 
        // the wrapped operation allocates with the allocator it finds in its environment
        if (useEnvAlloc) { auto a = ex::get_allocator(ex::get_env(r)); using Al = typename std::allocator_traits<decltype(a)>::template rebind_alloc<Over>; Al al(a); try { Over* p = al.allocate(1); if ((uintptr_t) p % 64) vs::fail("the allocator in the wrapped operation's environment returns misaligned memory"); if (w->arena_of(p) != rcvArena) vs::fail("the allocator in the wrapped operation's environment uses arena %d, the receiver's is arena %d", w->arena_of(p), rcvArena); al.deallocate(p, 1); } catch (std::bad_alloc&) { if (!w->failed) vs::fail("bad_alloc although no allocation failed"); } }
        ex::set_value((R&&) r); } };
    template <class R> Op<R> connect(R r) const noexcept { return {(R&&) r}; }
    struct E { int id; template <class... A> auto query(ex::get_completion_scheduler_t<ex::set_value_t>, A&&...) const noexcept { return Sch(id); } }; E get_env() const noexcept { return {id}; } };
  S schedule() const noexcept { return {id}; } bool operator==(const Sch& o) const noexcept { return id == o.id; } };
struct SEnv { LA<int> a; ex::inplace_stop_token t; auto query(ex::get_allocator_t) const noexcept { return a; } auto query(ex::get_stop_token_t) const noexcept { return t; } };
struct SEnvU { LA<int> a; auto query(ex::get_allocator_t) const noexcept { return a; } };
}
namespace c27 {
vs::Case make_tsched(vs::Gen& g) {
  struct O { int kind, a, b, arena; }; auto ops = std::make_shared<std::vector<O>>(); int n = g.range(1, 14); for (int i = 0; i < n; i++) ops->push_back({g.range(0, 7), g.range(0, 2), g.range(0, 2), g.range(0, 2)}); int failAt = g.chance(25) ? g.range(0, 6) : -1; bool envA = g.chance(60);
  std::string d = sfmt("fail=%d envalloc=%d", failAt, envA); for (auto& o : *ops) d += sfmt(" %d.%d.%d.%d", o.kind, o.a, o.b, o.arena);
  return {[ops, failAt, envA] { World wd; w = &wd; wd.failAt = failAt; useEnvAlloc = envA; rcvArena = 4; int got = 0; { std::optional<ex::task_scheduler> s[3]; int id[3] = {-1, -1, -1}, ar[3] = {-1, -1, -1}; ex::inplace_stop_source ss;
    for (auto& o : *ops) { auto& x = s[o.a]; auto& y = s[o.b]; bool before = wd.failed; try { switch (o.kind) {
      case 0: x.reset(); x.emplace(Sch<1>(o.b), LA<char>(o.arena)); id[o.a] = o.b; ar[o.a] = o.arena; break;
      case 1: { int c = wd.perArena[o.arena]; x.reset(); x.emplace(Sch<30>(10 + o.b), LA<char>(o.arena)); if (wd.perArena[o.arena] == c) vs::fail("a scheduler that does not fit is not stored with the allocator"); id[o.a] = 10 + o.b; ar[o.a] = o.arena; break; }
      case 2: if (y && o.a != o.b) { x.emplace(*y); id[o.a] = id[o.b]; ar[o.a] = ar[o.b]; } break;
      case 3: if (x && y) { *x = *y; id[o.a] = id[o.b]; ar[o.a] = ar[o.b]; } break;
      case 4: if (y && o.a != o.b) { x.emplace(std::move(*y)); y.reset(); id[o.a] = id[o.b]; ar[o.a] = ar[o.b]; id[o.b] = -1; } break;
      case 5: if (x && y && (id[o.a] != id[o.b] || ar[o.a] == ar[o.b]) && (*x == *y) != (id[o.a] == id[o.b])) vs::fail("task schedulers compare %s", *x == *y ? "equal" : "unequal"); break;
      default: if (x) { int res = -1, val = 0; sawStart = false; swhere = -2; auto run = [&](auto env) { auto op = ex::connect(ex::schedule(*x), FinR<decltype(env)>{&res, &val, env}); ex::start(op); if (res == -1) vs::fail("a scheduled operation does not complete"); if (!sawStart && !wd.failed) vs::fail("the wrapped scheduler is not used"); if (swhere != -2 && swhere != -1 && swhere != ar[o.a]) vs::fail("the wrapped operation is placed in arena %d, the allocator of the task_scheduler is arena %d", swhere, ar[o.a]); got++; }; if (o.kind == 6) run(SEnvU{LA<int>(4)}); else run(SEnv{LA<int>(4), ss.get_token()}); } }
    } catch (std::bad_alloc&) { if (before || !wd.failed) vs::fail("bad_alloc although no allocation failed"); if (o.kind < 3) { id[o.a] = -1; s[o.a].reset(); } else if (o.kind == 3) { if (s[o.a]) s[o.a].reset(); id[o.a] = -1; } } }
    vs::nontrivial(got > 0 && wd.count > 0); } finish(); }, d}; }
}
// ---- functions and values with allocators inside operation states ----
namespace {
struct UA { using allocator_type = LA<std::byte>; LA<std::byte> a; int* p; int tag;
  UA(int t, LA<std::byte> a) : a(a), p(LA<int>(a).allocate(1)), tag(t) { *p = t; }
  UA(UA&& o) noexcept : a(o.a), p(std::exchange(o.p, nullptr)), tag(o.tag) { } UA(const UA& o) : UA(o.tag, o.a) { }
  UA(std::allocator_arg_t, LA<std::byte> x, UA&& o) : a(x), p(x == o.a ? std::exchange(o.p, nullptr) : LA<int>(x).allocate(1)), tag(o.tag) { if (p) *p = tag; } UA(std::allocator_arg_t, LA<std::byte> x, const UA& o) : UA(o.tag, x) { }
  ~UA() { if (p) LA<int>(a).deallocate(p, 1); } };
int fnArena;
template <class Snd> struct UF : UA { using UA::UA; UF(int t, LA<std::byte> a) : UA(t, a) { } UF(UF&&) noexcept = default; UF(const UF&) = default; UF(std::allocator_arg_t t, LA<std::byte> x, UF&& o) : UA(t, x, static_cast<UA&&>(o)) { } UF(std::allocator_arg_t t, LA<std::byte> x, const UF& o) : UA(t, x, static_cast<const UA&>(o)) { }
  template <class... V> auto operator()(V&&...) const { if (!p || *p != tag) vs::fail("the function object of an operation lost its contents"); fnArena = w->arena_of(p); if constexpr (std::is_void_v<Snd>) return 5; else return Snd(ex::just(5)); } };
}
namespace c27 {
vs::Case make_letfn(vs::Gen& g) {
  int alg = g.range(0, 4), home = g.range(0, 2), e = g.chance(75) ? g.range(0, 3) : -1, failAt = g.chance(30) ? g.range(0, 4) : -1; bool lv = g.chance(40); std::string d = sfmt("alg=%d home=%d env=%d fail=%d lvalue=%d", alg, home, e, failAt, lv);
  return {[alg, home, e, failAt, lv] { World wd; w = &wd; wd.failAt = failAt; int res = -1, val = 0; fnArena = -2; bool oom = false; using J = decltype(ex::just(5));
    auto run = [&](auto mk) { try { auto s = mk(); auto go = [&](auto env) { auto use = [&](auto&& snd) { auto op = ex::connect((decltype(snd)&&) snd, FinR<decltype(env)>{&res, &val, env}); ex::start(op); }; if (lv) use(std::as_const(s)); else use(std::move(s)); }; if (e < 0) go(ex::env<>{}); else go(AllocEnv{LA<std::byte>(e)}); } catch (std::bad_alloc&) { oom = true; } };
    struct JF { auto operator()(int) const { return ex::just(5); } }; LA<std::byte> h(home);
    switch (alg) { case 0: run([&] { return ex::just(1) | ex::let_value(UF<J>(9, h)); }); break; case 1: run([&] { return ex::just(1) | ex::then(UF<void>(9, h)); }); break; case 2: run([&] { return ex::just_error(1) | ex::let_error(UF<J>(9, h)); }); break; case 3: run([&] { return ex::just_stopped() | ex::let_stopped(UF<J>(9, h)); }); break; default: run([&] { return ex::just_error(1) | ex::upon_error(UF<void>(9, h)); }); }
    if (wd.failed != (oom || res == 4)) vs::fail("an allocation %s, the caller is %s", wd.failed ? "failed" : "did not fail", oom || res == 4 ? "told it did" : "not told");
    if (!wd.failed) { if (res != 0 || val != 5) vs::fail("the operation completes with (%d, %d)", res, val); int want = e < 0 ? home : e; if (fnArena != want) vs::fail("the function object in the operation uses arena %d, expected %d", fnArena, want); }
    vs::nontrivial(e >= 0 && e != home); finish(); }, d}; }
}
