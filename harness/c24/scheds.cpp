#include "c24.hpp"
#if defined(__clang__) || defined(__GNUC__)
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#endif
namespace c24 {
namespace {
// K: 0 small, polls the token; 1 large scheduler, large operation when stoppable, waits for stop; 2 operation over-aligned when stoppable, polls; 3 huge operation when stoppable, waits; 4 may fail
template <int K> struct Sched;
template <int K> inline constexpr bool waits_k = K == 1 || K == 3;
template <int K, bool Stoppable> struct SPad {}; template <> struct SPad<1, true> { char b[80]; }; template <> struct alignas(32) SPad<2, true> {}; template <> struct SPad<3, true> { char b[400]; };
struct NoWait {};
template <int K, class R> struct SOp : SPad<K, !ex::unstoppable_token<ex::stop_token_of_t<ex::env_of_t<R>>>> { using operation_state_concept = ex::operation_state_tag; using Tok = ex::stop_token_of_t<ex::env_of_t<R>>; static constexpr bool stoppable = !ex::unstoppable_token<Tok>;
  R r; Own own; [[no_unique_address]] std::conditional_t<stoppable && waits_k<K>, Wait<Tok>, NoWait> w;
  SOp(R r, Own o) : r((R&&) r), own(std::move(o)) { vs::Ghost g; st()->ops++; } SOp(SOp&&) = delete; ~SOp() { vs::Ghost g; st()->ops--; }
  void start() & noexcept { auto& x = st()->sc[(size_t) own.get()]; if ((uintptr_t) this % alignof(SOp)) vs::fail("a wrapped schedule operation is misaligned");
    { vs::Ghost g; auto& t = *st(); if (t.started) vs::fail("the wrapped operation is started twice"); t.started = true; auto&& env = ex::get_env(r);
      if constexpr (requires { get_tag(env); }) t.seenTag = get_tag(env); if constexpr (requires { get_tag2(env, 3); }) t.seenTag2 = get_tag2(env, 3); }
    auto tok = ex::get_stop_token(ex::get_env(r)); bool q = tok.stop_requested(), p = tok.stop_possible(); { vs::Ghost g; st()->seenReq = q; st()->seenPossible = p; }
    if (x.mode == INL) { poll(); return; } if (x.mode == DEFER) { st()->post(x.ctx, [this] { poll(); }); return; }
    if constexpr (stoppable && waits_k<K>) w.go(tok, x.mode == STOPDEF ? x.ctx : -1, this, [](void* p, bool b) { ((SOp*) p)->complete(b); });
    else { std::lock_guard g(st()->m); st()->held.push_back([this] { poll(); }); st()->waiter = true; st()->mcv.notify_all(); } }
  void poll() { if constexpr (stoppable) if (ex::get_stop_token(ex::get_env(r)).stop_requested()) { { vs::Ghost g; st()->told = true; } complete(true); return; } complete(false); }
  void complete(bool stopped) { auto& x = st()->sc[(size_t) own.get()]; (void) x; if constexpr (stoppable) if (stopped) { ex::set_stopped((R&&) r); return; }
    if constexpr (K == 4) if (x.kind == EPTR) { ex::set_error((R&&) r, std::make_exception_ptr(Err{x.id + 300})); return; }
    ex::set_value((R&&) r); } };
template <int K> struct SSnd { using sender_concept = ex::sender_tag; Own own; int grp;
  template <class Self, class... E> static consteval auto get_completion_signatures() { if constexpr (K == 4) return ex::completion_signatures<ex::set_value_t(), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>{}; else if constexpr (sizeof...(E) == 1 && (ex::unstoppable_token<ex::stop_token_of_t<E>> && ...)) return ex::completion_signatures<ex::set_value_t()>{}; else return ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>{}; }
  struct Attr { Sched<K> s; template <class... A> Sched<K> query(ex::get_completion_scheduler_t<ex::set_value_t>, A&&...) const noexcept { return s; } int query(get_attr_t) const noexcept { return s.own.get() + 7; } };
  Attr get_env() const noexcept; template <class R> auto connect(R r) && { chk(); return SOp<K, R>((R&&) r, std::move(own)); } template <class R> auto connect(R r) const& { chk(); return SOp<K, R>((R&&) r, own); }
  void chk() const { Script& s = st()->sc[(size_t) own.get()]; if (K == 4 && s.throwConnect) throw Err{s.id + 500}; } };
template <int K> struct Sched : Pad<K == 1 ? 1 : 0> { using scheduler_concept = ex::scheduler_tag; Own own; int grp; Sched(int id, int grp) : own(id), grp(grp) {}
  SSnd<K> schedule() const noexcept { return {own, grp}; } bool operator==(const Sched& o) const noexcept { own.get(); o.own.get(); return grp == o.grp; }
  ex::forward_progress_guarantee query(ex::get_forward_progress_guarantee_t) const noexcept { return fpg(grp); } static ex::forward_progress_guarantee fpg(int g) { return g == 0 ? ex::forward_progress_guarantee::concurrent : g == 1 ? ex::forward_progress_guarantee::parallel : ex::forward_progress_guarantee::weakly_parallel; }
  int query(get_tag_t) const noexcept { return own.get() + 9; } int query(get_tag2_t, int i) const { return own.get() * 100 + i; } };
template <int K> auto SSnd<K>::get_env() const noexcept -> Attr { Sched<K> s(own.get(), grp); return {s}; }

using ITok = ex::inplace_stop_token; using SSigs = ex::completion_signatures<ex::set_value_t(), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
using AS0 = exec::any_scheduler<exec::any_sender<exec::any_receiver<SSigs>>>;
using AS1 = exec::any_scheduler<exec::any_sender<exec::any_receiver<SSigs, exec::queries<ITok(ex::get_stop_token_t) noexcept>>>>;
using AS2 = exec::any_scheduler<exec::any_sender<exec::any_receiver<SSigs, exec::queries<ITok(ex::get_stop_token_t) noexcept, int(get_tag_t) noexcept, int(get_tag2_t, int)>>, exec::queries<int(get_attr_t) noexcept>>, exec::queries<ex::forward_progress_guarantee(ex::get_forward_progress_guarantee_t) noexcept, int(get_tag_t) noexcept, int(get_tag2_t, int)>>;
using TS = ex::task_scheduler;
using LG = exec::any_receiver_ref<SSigs, ex::get_stop_token.signature<ITok() noexcept>>::any_sender<>::any_scheduler<get_tag.signature<int() noexcept>>;
template <class W> inline constexpr bool s_stop = !std::is_same_v<W, AS0>;
template <class W> inline constexpr bool s_tag = std::is_same_v<W, AS2>;
template <class W> inline constexpr bool s_any = !std::is_same_v<W, TS>;
template <class W> W make_s(int id, int k, int grp, bool nest) {
  auto mk = [&]<int K>(std::integral_constant<int, K>) -> W { if constexpr (!s_any<W>) return W(Sched<K>(id, grp)); else if constexpr (std::is_same_v<W, AS2> || std::is_same_v<W, LG> || K == 4) return W(Sched<K>(id, grp)); else { if (nest) return W(TS(Sched<K>(id, grp))); return W(Sched<K>(id, grp)); } };
  switch (k) { case 0: return mk(std::integral_constant<int, 0>{}); case 1: return mk(std::integral_constant<int, 1>{}); case 2: return mk(std::integral_constant<int, 2>{}); case 3: return mk(std::integral_constant<int, 3>{}); default: if constexpr (s_any<W>) return mk(std::integral_constant<int, 4>{}); else return mk(std::integral_constant<int, 0>{}); } }
enum { MAKE, MOVEC, MOVEA, COPYC, COPYA, SWAP, RESET, EQ, SCHED, DROPSND, RUN, RUNSND, QUERY, DEFLT };
static const char* ON[] = {"make", "move-construct", "move-assign", "copy-construct", "copy-assign", "swap", "reset", "equal", "schedule", "drop-sender", "run", "run-sender", "query", "default"};
struct Op { int o, i, j, k, grp, nest; Script sc; int tok, ext, tag; bool destroyOp, start, lv; };
struct Hist { std::vector<Op> ops; int w; };
struct M { int id = NONE, k = 0, grp = 0; bool nest = false; bool operator==(const M& o) const { return id == o.id && k == o.k && grp == o.grp && nest == o.nest; } };
static bool same(const M& a, const M& b) { return a.k == b.k && a.grp == b.grp && a.nest == b.nest; }
template <class W, class Snd> void run_snd(Snd&& snd, const M& m, const Op& o) {
  auto& s = *st(); Script sc = s.sc[(size_t) m.id]; Stop ss; s.tok = o.tok; s.tag = o.tag;
  switch (o.tok) { case 0: run_one(std::forward<Snd>(snd), ex::never_stop_token{}, ss, o.ext, o.destroyOp, o.start); break; case 1: run_one(std::forward<Snd>(snd), ss.a.get_token(), ss, o.ext, o.destroyOp, o.start); break; case 2: run_one(std::forward<Snd>(snd), FTok{ss.b.get_token()}, ss, o.ext, o.destroyOp, o.start); break; default: run_one(std::forward<Snd>(snd), ss.c.get_token(), ss, o.ext, o.destroyOp, o.start); }
  if (sc.throwConnect && m.k == 4) { if (!s.threw || s.res.a != sc.id + 500) vs::fail("connecting the wrapper does not report what connecting the wrapped sender threw"); return; }
  if (s.threw) vs::fail("connecting threw"); if (!o.start) { if (s.started || s.done) vs::fail("connecting started the operation"); return; }
  if (!s.started) vs::fail("the wrapped schedule operation is never started"); if (!s.done) vs::fail("no completion");
  bool vis = s_stop<W> && o.tok, stopped = s.told;
  if (stopped && !(vis && s.req)) vs::fail("the wrapped schedule operation sees a stop request although none is visible to it");
#ifndef C24_MT
  if (vis && o.ext == 1 && !stopped && m.k != 9) vs::fail("a stop request made before the start does not reach the wrapped schedule operation");
  if (vis && s.req && !stopped && ((m.k == 1 || m.k == 3) && sc.mode >= WAITSTOP)) vs::fail("the stop request does not reach the wrapped schedule operation");
#endif
  Res want{VOID_, 0, 0, 0}; if (stopped) want.k = STOPPED; else if (m.k == 4 && sc.kind == EPTR) want = {EPTR, sc.id + 300, 0, 0};
  Res got = s.res; int ctx = got.ctx; got.ctx = 0; if (!(got == want)) vs::fail("the wrapped schedule operation completes with (%d, %d), the wrapper delivered (%d, %d)", want.k, want.a, got.k, got.a);
  if (sc.mode == INL && ctx != 0) vs::fail("an inline completion is delivered on context %d", ctx); if (sc.mode == DEFER && ctx != sc.ctx) vs::fail("a completion on context %d is delivered on context %d", sc.ctx, ctx);
  if (s.seenTag != (s_tag<W> ? o.tag : -1) || s.seenTag2 != (s_tag<W> ? o.tag * 10 + 3 : -1)) vs::fail("the wrapped operation sees tags %d, %d in its environment (the receiver's tag is %d)", s.seenTag, s.seenTag2, o.tag);
  if (vis && !s.seenPossible) vs::fail("the wrapped operation's stop token cannot be stopped");
  vs::label(stopped ? "stopped" : "completed"); if (vis && s.req) vs::label("stop_visible"); }
template <class W> void run_hist(const Hist& h) {
  auto& s = *st(); std::optional<W> sl[NSLOT]; M m[NSLOT]; using Snd = decltype(std::declval<W&>().schedule()); std::optional<Snd> sn[2]; M sm[2]; int effective = 0;
  enum { EMPTY = -3 };
  for (auto& o : h.ops) { int i = o.i, j = o.j; if (getenv("C24_LOG")) fprintf(stderr, "%s %d %d\n", ON[o.o], i, j);
    switch (o.o) {
    case MAKE: { Script sc = o.sc; sc.id = (int) s.sc.size(); int k = !s_any<W> && o.k == 4 ? 0 : o.k; if (k != 4) sc.kind = VOID_, sc.throwConnect = false; s.sc.push_back(sc); bool nest = o.nest && s_any<W> && !std::is_same_v<W, AS2> && !std::is_same_v<W, LG> && k != 4; sl[i].reset(); sl[i].emplace(make_s<W>(sc.id, k, o.grp, nest)); m[i] = {sc.id, k, o.grp, nest}; break; }
    case DEFLT: if constexpr (std::default_initializable<W>) { sl[i].reset(); sl[i].emplace(); m[i] = {EMPTY}; } break;
    case MOVEC: if (m[i].id >= 0 && i != j) { sl[j].reset(); sl[j].emplace(std::move(*sl[i])); m[j] = m[i]; m[i] = {HUSK}; effective++; if (o.start) { sl[i].reset(); m[i] = {}; } } break;
    case MOVEA: if (m[i].id >= 0 && m[j].id != NONE && i != j) { *sl[j] = std::move(*sl[i]); m[j] = m[i]; m[i] = {HUSK}; effective++; if (o.start) { sl[i].reset(); m[i] = {}; } } break;
    case COPYC: if (m[i].id >= 0 && i != j) { sl[j].reset(); sl[j].emplace(std::as_const(*sl[i])); m[j] = m[i]; effective++; } break;
    case COPYA: if (m[i].id >= 0 && m[j].id != NONE) { auto& src = std::as_const(*sl[i]); *sl[j] = src; m[j] = m[i]; effective++; } break;
    case SWAP: if (m[i].id >= 0 && m[j].id >= 0 && i != j) { if constexpr (requires { sl[i]->swap(*sl[j]); }) sl[i]->swap(*sl[j]); else std::swap(*sl[i], *sl[j]); std::swap(m[i], m[j]); effective++; } break;
    case RESET: sl[i].reset(); m[i] = {}; break;
    case EQ: { auto ok = [](const M& x) { return x.id >= 0 || x.id == EMPTY; }; if (ok(m[i]) && ok(m[j])) { bool want = m[i].id == EMPTY || m[j].id == EMPTY ? m[i].id == m[j].id : same(m[i], m[j]); const W &a = *sl[i], &b = *sl[j]; if ((a == b) != want || (a != b) == want) vs::fail("two wrappers compare %s although the wrapped schedulers are %s", want ? "unequal" : "equal", want ? "equal" : "unequal"); effective++; } break; }
    case SCHED: if (m[i].id >= 0) { int q = j % 2; sn[q].reset(); sn[q].emplace(from_fn{[&]() -> Snd { return ex::schedule(std::as_const(*sl[i])); }}); sm[q] = m[i]; effective++; if (!(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(*sn[q])) == *sl[i])) vs::fail("the completion scheduler of a schedule sender differs from its scheduler");
      if constexpr (std::is_same_v<W, AS2>) if (int a = get_attr(ex::get_env(*sn[q])); a != m[i].id + 7) vs::fail("the wrapper answers %d to an attribute query, the wrapped sender %d", a, m[i].id + 7); } break;
    case DROPSND: sn[j % 2].reset(); sm[j % 2] = {}; break;
    case RUN: if (m[i].id >= 0) { run_snd<W>(ex::schedule(*sl[i]), m[i], o); effective++; } break;
    case RUNSND: { int q = j % 2; if (sm[q].id >= 0) { M x = sm[q]; if constexpr (requires(const Snd& c) { ex::connect(c, Rcvr<ex::never_stop_token>{}); }) if (o.lv) { run_snd<W>(std::as_const(*sn[q]), x, o); effective++; break; }
      { Snd y(std::move(*sn[q])); sn[q].reset(); sm[q] = {}; run_snd<W>(std::move(y), x, o); } effective++; } break; }
    case QUERY: if (m[i].id >= 0) { const W& w = *sl[i]; if constexpr (std::is_same_v<W, AS2> || std::is_same_v<W, TS>) if (ex::get_forward_progress_guarantee(w) != Sched<0>::fpg(m[i].grp)) vs::fail("the wrapper reports another forward progress guarantee than the wrapped scheduler");
      if constexpr (std::is_same_v<W, AS2> || std::is_same_v<W, LG>) if (int t = get_tag(w); t != m[i].id + 9) vs::fail("the wrapper answers %d to a query, the wrapped scheduler %d", t, m[i].id + 9); if constexpr (std::is_same_v<W, AS2>) if (int t = get_tag2(w, o.tag); t != m[i].id * 100 + o.tag) vs::fail("the wrapper answers %d to a query, the wrapped scheduler %d", t, m[i].id * 100 + o.tag);
      if (!(ex::get_completion_scheduler<ex::set_value_t>(w) == w)) vs::fail("a scheduler's completion scheduler differs from it"); effective++; } break;
    }
    std::map<int, int> want; for (auto& x : m) if (x.id >= 0) want[x.id]++; for (auto& x : sm) if (x.id >= 0) want[x.id]++;
    for (auto& [id, n] : s.own) if (n > 0 && !want.count(id)) vs::fail("%d instances of the wrapped scheduler %d are alive although no wrapper owns it", n, id);
    for (auto& [id, n] : want) if (n > 0 && s.own[id] < 1) vs::fail("no instance of the wrapped scheduler %d is alive, %d wrappers own it", id, n); } // copies may share one instance
  for (auto& x : sl) x.reset(); for (auto& x : sn) x.reset(); for (auto& [id, n] : s.own) if (n) vs::fail("%d wrapped schedulers with id %d are leaked", n, id);
#ifndef C24_MT
  vs::nontrivial(effective >= 2);
#endif
}
static const char* WN[] = {"any_scheduler<>", "any_scheduler<stop>", "any_scheduler<stop,tags>", "task_scheduler", "legacy any_scheduler"};
} // namespace
vs::Case make_scheds(vs::Gen& g) {
  auto h = std::make_shared<Hist>(); h->w = g.range(0, 4); int n = g.range(2, 10); std::string d = sfmt("%s:", WN[h->w]);
  for (int k = 0; k < n; k++) { Op o{}; o.o = k == 0 ? (int) MAKE : g.pick({MAKE, MAKE, MOVEC, MOVEA, COPYC, COPYA, SWAP, RESET, EQ, EQ, SCHED, SCHED, DROPSND, RUN, RUN, RUNSND, RUNSND, QUERY, DEFLT}); o.i = g.range(0, NSLOT - 1); o.j = g.range(0, NSLOT - 1); o.k = g.range(0, 4); o.grp = g.range(0, 2); o.nest = g.chance(25);
    if (k == n - 1) o.o = RUN, o.i = h->ops.empty() ? 0 : h->ops[(size_t) g.below(h->ops.size())].i;
    o.sc.kind = g.pick({(int) VOID_, (int) EPTR}); o.sc.mode = g.range(0, NM - 1); o.sc.ctx = g.range(0, NCTX - 1); o.sc.throwConnect = g.chance(8); o.tok = g.range(0, 3); o.ext = o.tok ? g.range(0, 2) : 0; o.tag = g.range(1, 50); o.destroyOp = g.chance(50); o.start = !g.chance(8); o.lv = g.chance(40);
#ifdef C24_MT
    if (o.tok == 3) o.tok = 1;
#endif
    d += sfmt(" %s(%d", ON[o.o], o.i); if (o.o == MAKE) d += sfmt(" k=%d grp=%d mode=%d ctx=%d kind=%d%s%s", o.k, o.grp, o.sc.mode, o.sc.ctx, o.sc.kind, o.nest ? " nest" : "", o.sc.throwConnect ? " throws" : ""); else if (o.o == RUN || o.o == RUNSND) d += sfmt(" snd=%d tok=%d ext=%d%s%s%s", o.j % 2, o.tok, o.ext, o.destroyOp ? " destroy-op" : "", o.start ? "" : " drop", o.lv ? " lvalue" : ""); else if (o.o != RESET && o.o != QUERY && o.o != DEFLT) d += sfmt("->%d%s", o.j, o.start ? " reset" : ""); d += ")";
    h->ops.push_back(o); }
  return {[h] { auto s = std::make_unique<St>(); { vs::Ghost g; st() = s.get(); }
    switch (h->w) { case 0: run_hist<AS0>(*h); break; case 1: run_hist<AS1>(*h); break; case 2: run_hist<AS2>(*h); break; case 3: run_hist<TS>(*h); break; default: run_hist<LG>(*h); }
    vs::label(WN[h->w]); vs::Ghost g; st() = nullptr; }, d}; }
}
