#include "c27.hpp"
#include <exec/start_detached.hpp>
#include <exec/split.hpp>
#include <exec/ensure_started.hpp>
#include <stdexec/__detail/__counting_scopes.hpp>
namespace {
using SpawnSigs = ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>;
using FutSigs = ex::completion_signatures<ex::set_value_t(Val), ex::set_error_t(int), ex::set_stopped_t()>;
struct NullAssoc { constexpr operator bool() const noexcept { return true; } NullAssoc try_associate() const noexcept { return {}; } };
struct NullTok { template <class S> S&& wrap(S&& s) const noexcept { return (S&&) s; } NullAssoc try_associate() const noexcept { return {}; } };
template <class Snd, class Tok, class Env> void do_spawn(Snd s, Tok t, Env e) { ex::spawn(std::move(s), t, e); }
struct Cfg { int site, envA, sndA, tok, mode, align, failAt, throwAt, use; bool alt; };
struct StEnv { ex::inline_scheduler query(ex::get_start_scheduler_t) const noexcept { return {}; } };
template <class S> bool joined(S& s) { int jr = -1, jv = 0; auto op = ex::connect(s.join(), FinR<StEnv>{&jr, &jv, StEnv{}}); ex::start(op); return jr == 0; }
// runs one program; returns whether it got past the initiating call. expect: arena the operation must be in
template <class Sigs, int AL, class Tok> void run_with(const Cfg& c, Tok tok, int& where, int& res, int& val) {
  auto go = [&](auto snd, auto env) {
    if constexpr (std::same_as<Sigs, SpawnSigs>) { if (c.site == 0) ex::spawn(std::move(snd), Tok(tok), env); else exec::start_detached(std::move(snd), env); }
    else { { auto fut = ex::spawn_future(std::move(snd), Tok(tok), env);
        if (c.use == 0) { } // dropped at once
        else if (c.use == 1) { auto op = ex::connect(std::move(fut), FinR<>{&res, &val}); ex::start(op); drain(); return; }
        else if (c.use == 2) { drain(); auto op = ex::connect(std::move(fut), FinR<>{&res, &val}); ex::start(op); return; }
        else if (c.use == 3) { auto op = ex::connect(std::move(fut), FinR<>{&res, &val}); (void) op; } // connected, never started
        else { drain(); } }
      drain(); } };
  auto env1 = [&](auto snd) { if (c.envA < 0) go(std::move(snd), ex::env<>{}); else if (c.alt) go(std::move(snd), AllocEnvL{LA<long double>(c.envA)}); else go(std::move(snd), AllocEnv{LA<std::byte>(c.envA)}); };
  if (c.sndA < 0) env1(Probe<Sigs, AL, NoAttrs>(c.mode, 7, &where)); else env1(Probe<Sigs, AL, AllocEnv>(c.mode, 7, &where, AllocEnv{LA<std::byte>(c.sndA)})); }
}
namespace c27 {
vs::Case make_spawn(vs::Gen& g) {
  Cfg c{}; c.site = g.range(0, 2); c.envA = g.chance(70) ? g.range(0, 2) : -1; c.sndA = g.chance(40) ? g.range(3, 4) : -1; c.tok = g.range(0, 2); c.mode = g.range(0, NMODES - 1); c.align = g.pick({8, 64}); c.failAt = g.chance(35) ? g.range(0, 2) : -1; c.throwAt = g.chance(30) ? g.range(0, 12) : -1; c.use = g.range(0, 4); c.alt = g.chance(40);
  if (c.site == 1) c.sndA = -1; // start_detached takes its allocator from the environment only
  const char* N[] = {"spawn", "start_detached", "spawn_future"};
  std::string d = sfmt("%s env=%d sender=%d scope=%d mode=%d align=%d fail=%d throw=%d use=%d alt=%d", N[c.site], c.envA, c.sndA, c.tok, c.mode, c.align, c.failAt, c.throwAt, c.use, c.alt);
  return {[c, N] { World wd; w = &wd; wd.failAt = c.failAt; wd.throwAt = c.throwAt; int where = -2, res = -1, val = 0; bool threw = false, oom = false;
    { std::optional<ex::simple_counting_scope> sc; std::optional<ex::counting_scope> cs; if (c.tok == 1) sc.emplace(); if (c.tok == 2) cs.emplace();
      auto call = [&](auto tok) { if (c.site != 2) { if (c.align == 8) run_with<SpawnSigs, 8>(c, tok, where, res, val); else run_with<SpawnSigs, 64>(c, tok, where, res, val); } else { if (c.align == 8) run_with<FutSigs, 8>(c, tok, where, res, val); else run_with<FutSigs, 64>(c, tok, where, res, val); } };
      try { if (c.tok == 0 || c.site == 1) call(NullTok{}); else if (c.tok == 1) call(sc->get_token()); else call(cs->get_token()); } catch (Boom&) { threw = true; } catch (std::bad_alloc&) { oom = true; }
      drain();
      if (c.tok) { bool done = false; int jr = -1, jv = 0; if (sc) done = joined(*sc); else done = joined(*cs); if (!done) vs::fail("the scope cannot be joined: an association was leaked"); } }
    int want = c.envA >= 0 ? c.envA : c.sndA;
    if (oom != wd.failed) vs::fail("%s: an allocation %s, the caller is %s", N[c.site], wd.failed ? "failed" : "did not fail", oom ? "told it did" : "not told");
    if (oom && wd.starts) vs::fail("%s: the work is started although its allocation failed", N[c.site]);
    // errors raised by the user's moves and connect are reported by the call, or through the future once the state exists
    if (wd.threw && !threw && res != 3 && !(c.site == 2 && c.use != 1 && c.use != 2)) vs::fail("%s: an exception thrown by the user's code is lost (result %d)", N[c.site], res);
    if (threw && wd.starts && c.site != 2) vs::fail("%s: the call throws although the work is started", N[c.site]);
    if (!oom && !threw) { if (want >= 0 && wd.starts == 1 && where != want) vs::fail("%s: the operation is placed in arena %d, the user's allocator is arena %d", N[c.site], where, want);
      if (want < 0 && wd.count) vs::fail("%s: memory is taken from an allocator that was not supplied", N[c.site]);
      if (wd.starts != 1) vs::fail("%s: the work is started %d times", N[c.site], wd.starts); }
    for (int a = 0; a < 5; a++) if (a != want && wd.perArena[a]) vs::fail("%s: memory is taken from arena %d, the chosen allocator is arena %d", N[c.site], a, want);
    vs::label(N[c.site]); if (oom) vs::label("allocation failed"); if (wd.threw) vs::label("threw"); vs::nontrivial(want >= 0 && (wd.count > 0)); finish(); }, d}; }
vs::Case make_shared_ops(vs::Gen& g) {
  struct P { int site, envA, mode, failAt, throwAt, copies, align; bool alt; std::vector<int> acts; }; P c{}; c.site = g.range(0, 1); c.envA = g.chance(80) ? g.range(0, 3) : -1; c.mode = g.range(0, NMODES - 1); c.failAt = g.chance(30) ? g.range(0, 2) : -1; c.throwAt = g.chance(30) ? g.range(0, 12) : -1; c.copies = c.site == 0 ? g.range(0, 3) : g.range(0, 1); c.align = g.pick({8, 64}); c.alt = g.chance(40); for (int i = 0; i < c.copies; i++) c.acts.push_back(g.range(0, 3)); // 0 start 1 connect only 2 drop 3 start after the completion
  std::string d = sfmt("%s env=%d mode=%d fail=%d throw=%d align=%d uses=", c.site ? "ensure_started" : "split", c.envA, c.mode, c.failAt, c.throwAt, c.align); for (int a : c.acts) d += sfmt("%d", a);
  return {[c] { World wd; w = &wd; wd.failAt = c.failAt; wd.throwAt = c.throwAt; int where = -2; bool threw = false, oom = false; int res[3] = {-1, -1, -1}, val[3] = {}; bool loud = false; 
    auto use = [&](auto&& shared) { using S = std::remove_cvref_t<decltype(shared)>; using O = ex::connect_result_t<S, FinR<>>; struct H { O op; H(S&& s, FinR<> r) : op(ex::connect((S&&) s, r)) { } };
      { std::vector<std::unique_ptr<H>> ops; std::vector<S> snds; if (c.site == 0) { for (int i = 0; i < c.copies; i++) if constexpr (std::copy_constructible<S>) snds.push_back(shared); } else if (c.copies) snds.push_back(std::move(shared)); { [[maybe_unused]] S tmp = std::move(shared); }
        for (int i = 0; i < c.copies; i++) { auto& s = snds[(size_t) i]; if (c.acts[(size_t) i] == 2) { ops.push_back(nullptr); continue; } ops.push_back(std::make_unique<H>(std::move(s), FinR<>{&res[i], &val[i]})); if (c.acts[(size_t) i] == 0) ex::start(ops.back()->op); }
        snds.clear(); drain(); for (int i = 0; i < c.copies; i++) if (c.acts[(size_t) i] == 3) ex::start(ops[(size_t) i]->op); drain(); } };
    auto go = [&](auto env) { auto m = [&](auto snd) { if (c.site == 0) use(exec::split(std::move(snd), env)); else use(exec::ensure_started(std::move(snd), env)); }; using Sg = ex::completion_signatures<ex::set_value_t(Val), ex::set_error_t(int), ex::set_stopped_t()>; if (c.align == 8) m(Probe<Sg, 8, NoAttrs>(c.mode, 7, &where)); else m(Probe<Sg, 64, NoAttrs>(c.mode, 7, &where)); };
    try { if (c.envA < 0) go(ex::env<>{}); else if (c.alt) go(AllocEnvL{LA<long double>(c.envA)}); else go(AllocEnv{LA<std::byte>(c.envA)}); } catch (Boom&) { threw = true; } catch (std::bad_alloc&) { oom = true; }
    drain();
    if (oom != wd.failed) vs::fail("an allocation %s, the caller is %s", wd.failed ? "failed" : "did not fail", oom ? "told it did" : "not told"); if (oom && wd.starts) vs::fail("the work is started although its allocation failed");
    bool started = false; for (int i = 0; i < c.copies; i++) { int a = c.acts[(size_t) i]; if (a == 0 || a == 3) { started = true; if (!threw && !oom && res[i] == -1) vs::fail("copy %d is started and never completed", i); if (res[i] == 3) loud = true; } else if (res[i] != -1) vs::fail("copy %d completes without being started", i); }
    if (!threw && !oom) { bool must = c.site == 1 || started; if ((wd.starts == 1) != must) vs::fail("the work is started %d times", wd.starts); if (c.envA >= 0 && wd.starts && where != c.envA) vs::fail("the operation is placed in arena %d, the user's allocator is arena %d", where, c.envA);
      for (int i = 0; i < c.copies; i++) if (res[i] >= 0 && res[i] < 3) { int m = c.mode % 3; if (res[i] != m) vs::fail("copy %d completes with %d, the work with %d", i, res[i], m); if (m < 2 && val[i] != 7) vs::fail("copy %d delivers a wrong value", i); } }
    if (wd.threw && !threw && !loud && started) vs::fail("an exception thrown by the user's code is lost");
    vs::label(c.site ? "ensure_started" : "split"); if (oom) vs::label("allocation failed"); vs::nontrivial(c.envA >= 0); finish(); }, d}; }
}
