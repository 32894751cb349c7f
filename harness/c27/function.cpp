#include "c27.hpp"
#include <exec/function.hpp>
#include <exec/get_frame_allocator.hpp>
namespace {
using Sigs = ex::completion_signatures<ex::set_value_t(int), ex::set_error_t(int), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
using PA = std::pmr::polymorphic_allocator<std::byte>;
using F0 = exec::function<ex::sender_tag(int, Val), Sigs>;
using F1 = exec::function<ex::sender_tag(int, Val), Sigs, exec::queries<PA(exec::get_frame_allocator_t) noexcept>>;
using F2 = exec::function<ex::sender_tag(int, Val), Sigs, exec::queries<LA<std::byte>(exec::get_frame_allocator_t) noexcept>>;
using F3 = exec::function<ex::sender_tag(int, Val), Sigs, exec::queries<LA<std::byte>(ex::get_allocator_t) noexcept>>;
using F4 = exec::function<ex::sender_tag(int, Val), Sigs, exec::queries<Res*(exec::get_frame_allocator_t) noexcept>>;
struct Cfg { int fn, env, mode, align, nest, failAt, throwAt, use, A, B; }; const Cfg* cf; int where; 
struct Fac { const Cfg* c; auto operator()(int v, Val x) const { (void) x; return Probe<Sigs, 8, NoAttrs>(c->mode, v, &where); } };
struct Fac64 { const Cfg* c; auto operator()(int v, Val x) const { (void) x; return Probe<Sigs, 64, NoAttrs>(c->mode, v, &where); } };
// a function whose sender is again a function: its operation state comes from the frame allocator of the outer one
template <class F> struct FacN { const Cfg* c; auto operator()(int v, Val x) const { if (c->align == 8) return F0(std::move(v), std::move(x), Fac{c}); return F0(std::move(v), std::move(x), Fac64{c}); } };
// environments: e0 none, e1 allocator, e2 frame allocator, e3 both (the frame allocator wins), e4 pmr resource, e5 derived resource, e6 polymorphic_allocator, e7 allocator of another type
struct E0 { }; struct E1 { LA<std::byte> a; auto query(ex::get_allocator_t) const noexcept { return a; } }; struct E2 { LA<std::byte> a; auto query(exec::get_frame_allocator_t) const noexcept { return a; } };
struct E3 { LA<std::byte> a, b; auto query(exec::get_frame_allocator_t) const noexcept { return a; } auto query(ex::get_allocator_t) const noexcept { return b; } };
struct E4 { Res* r; std::pmr::memory_resource* query(exec::get_frame_allocator_t) const noexcept { return r; } }; struct E5 { Res* r; Res* query(exec::get_frame_allocator_t) const noexcept { return r; } };
struct E6 { Res* r; PA query(exec::get_frame_allocator_t) const noexcept { return PA(r); } }; struct E7 { LA<long double> a; const LA<long double>& query(ex::get_allocator_t) const noexcept { return a; } };
struct E8 { Res* r; LA<int> b; PA query(exec::get_frame_allocator_t) const noexcept { return PA(r); } auto query(ex::get_allocator_t) const noexcept { return b; } };
}
namespace c27 {
vs::Case make_function(vs::Gen& g) {
  Cfg c{}; c.fn = g.range(0, 4); c.env = c.fn == 0 ? g.range(0, 8) : c.fn == 1 ? g.pick({6, 8}) : c.fn == 2 ? g.pick({2, 3}) : c.fn == 3 ? g.pick({1, 3, 7, 8}) : 5; c.mode = g.range(0, NMODES - 1); c.align = g.pick({8, 64}); c.nest = g.range(0, 2); c.failAt = g.chance(30) ? g.range(0, 3) : -1; c.throwAt = g.chance(30) ? g.range(0, 12) : -1; c.use = g.chance(80) ? 0 : g.range(1, 2); c.A = g.range(0, 2); c.B = 3;
  std::string d = sfmt("function %d env=%d mode=%d align=%d nest=%d fail=%d throw=%d use=%d A=%d", c.fn, c.env, c.mode, c.align, c.nest, c.failAt, c.throwAt, c.use, c.A);
  return {[c] { World wd; w = &wd; cf = &c; where = -2; wd.failAt = c.failAt; wd.throwAt = c.throwAt; int res = -1, val = 0; bool threw = false, oom = false; Res r(c.A);
    auto go = [&]<class F>(std::type_identity<F>, auto env) { try { F f = [&] { if (c.nest) return F(5, Val(3), FacN<F>{&c}); return c.align == 8 ? F(5, Val(3), Fac{&c}) : F(5, Val(3), Fac64{&c}); }(); if (c.use == 1) return;
        auto op = ex::connect(std::move(f), FinR<decltype(env)>{&res, &val, env}); if (c.use == 2) return; ex::start(op); drain(); if (res == -1) vs::fail("the function never completes"); } catch (Boom&) { threw = true; } catch (std::bad_alloc&) { oom = true; } };
    LA<std::byte> a(c.A), b(c.B); auto with_env = [&](auto f) { if constexpr (std::same_as<decltype(f), std::type_identity<F0>>) switch (c.env) { case 0: go(f, E0{}); break; case 1: go(f, E1{a}); break; case 2: go(f, E2{a}); break; case 3: go(f, E3{a, b}); break; case 4: go(f, E4{&r}); break; case 5: go(f, E5{&r}); break; case 6: go(f, E6{&r}); break; case 7: go(f, E7{LA<long double>(a)}); break; default: go(f, E8{&r, LA<int>(b)}); }
      else if constexpr (std::same_as<decltype(f), std::type_identity<F1>>) { if (c.env == 6) go(f, E6{&r}); else go(f, E8{&r, LA<int>(b)}); } else if constexpr (std::same_as<decltype(f), std::type_identity<F2>>) { if (c.env == 2) go(f, E2{a}); else go(f, E3{a, b}); }
      else if constexpr (std::same_as<decltype(f), std::type_identity<F3>>) { switch (c.env) { case 1: go(f, E1{a}); break; case 3: go(f, E3{a, b}); break; case 7: go(f, E7{LA<long double>(a)}); break; default: go(f, E8{&r, LA<int>(b)}); } } else go(f, E5{&r}); };
    if (c.fn == 0) with_env(std::type_identity<F0>{}); else if (c.fn == 1) with_env(std::type_identity<F1>{}); else if (c.fn == 2) with_env(std::type_identity<F2>{}); else if (c.fn == 3) with_env(std::type_identity<F3>{}); else with_env(std::type_identity<F4>{});
    // the frame allocator if the receiver has one, its allocator otherwise
    int want = c.env == 0 ? -1 : c.A;
    if (oom != wd.failed) vs::fail("an allocation %s, the caller is %s", wd.failed ? "failed" : "did not fail", oom ? "told it did" : "not told"); if ((oom || threw) && wd.starts) vs::fail("the work is started although connecting it failed");
    if (wd.threw && !threw && res != 3) vs::fail("an exception thrown by the user's code is lost (result %d)", res);
    if (wd.starts && where != want) vs::fail("the operation state is placed in arena %d, the receiver's allocator is arena %d", where, want);
    for (int i = 0; i < 5; i++) if (i != want && wd.perArena[i]) vs::fail("memory is taken from arena %d, the receiver's allocator is arena %d", i, want);
    if (c.use == 0 && !oom && !threw && !wd.threw) { int m = c.mode % 3; if (res != m) vs::fail("the function completes with %d, its sender with %d", res, m); }
    if (oom) vs::label("allocation failed"); vs::nontrivial(want >= 0 && wd.count > 0); finish(); }, d}; }
}
