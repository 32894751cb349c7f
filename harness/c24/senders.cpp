#include "c24.hpp"
namespace c24 {
namespace {
using ITok = ex::inplace_stop_token;
using Q0 = exec::queries<>;
using Q1 = exec::queries<ITok(ex::get_stop_token_t) noexcept>;
using Q2 = exec::queries<ITok(ex::get_stop_token_t) noexcept, int(get_tag_t) noexcept, int(get_tag2_t, int)>;
using A0 = exec::any_sender<exec::any_receiver<Sigs, Q0>>;
using A1 = exec::any_sender<exec::any_receiver<Sigs, Q1>>;
using A2 = exec::any_sender<exec::any_receiver<Sigs, Q2>, exec::queries<int(get_attr_t) noexcept>>;
using VS_ = exec::variant_sender<Probe<0>, Probe<1>, Probe<2>, Probe<3>>;
using VM = exec::variant_sender<Probe<4>, A2, Probe<1>>;
using F0 = exec::function<ex::sender_tag(Val, int), Sigs>;
using F2 = exec::function<ex::sender_tag(Val, int), Sigs, exec::queries<int(get_tag_t) noexcept, int(get_tag2_t, int)>>; // a function with a stop-token query cannot be connected (compile error)
using FM = exec::function<ex::sender_tag(Val), Sigs>;
// an any_receiver around the receiver
template <class Q> struct ViaRcvr { using sender_concept = ex::sender_tag; using completion_signatures = Sigs; VS_ p;
  template <class R> auto connect(R r) && { return ex::connect(std::move(p), exec::any_receiver<Sigs, Q>(std::move(r))); } };
// a wrapper around a wrapper: any_receiver is final, so an adaptor has to sit between two any_senders
template <class R> struct ThinR { using receiver_concept = ex::receiver_tag; R r; template <class... A> void set_value(A&&... a) noexcept { ex::set_value((R&&) r, (A&&) a...); } template <class E> void set_error(E&& e) noexcept { ex::set_error((R&&) r, (E&&) e); } void set_stopped() noexcept { ex::set_stopped((R&&) r); } auto get_env() const noexcept -> ex::env_of_t<R> { return ex::get_env(r); } };
template <class S> struct Thin { using sender_concept = ex::sender_tag; using completion_signatures = Sigs; S s; template <class R> auto connect(R r) && { return ex::connect(std::move(s), ThinR<R>{(R&&) r}); } decltype(auto) get_env() const noexcept { return ex::get_env(s); } };
template <class W> struct Tr { static constexpr bool stop = true, tag = true, adapts = true, copy = std::copy_constructible<W>; };
template <> struct Tr<A0> { static constexpr bool stop = false, tag = false, adapts = true, copy = false; };
template <> struct Tr<F0> { static constexpr bool stop = false, tag = false, adapts = true, copy = true; };
template <> struct Tr<A1> { static constexpr bool stop = true, tag = false, adapts = true, copy = false; };
template <> struct Tr<F2> { static constexpr bool stop = false, tag = true, adapts = true, copy = true; };
template <> struct Tr<FM> { static constexpr bool stop = false, tag = false, adapts = true, copy = true; };
template <class W> struct mk;
template <class T> struct id_t { using type = T; };
template <class F> auto by_size(int z, F f) { switch (z) { case 0: return f(std::integral_constant<int, 0>{}); case 1: return f(std::integral_constant<int, 1>{}); case 2: return f(std::integral_constant<int, 2>{}); case 3: return f(std::integral_constant<int, 3>{}); default: return f(std::integral_constant<int, 4>{}); } }
template <class W> W make_w(int id, int z, int nest) {
  if constexpr (std::is_same_v<W, VS_>) return by_size(z % 4, [&](auto Z) -> W { if constexpr (Z.value < 4) return W(Probe<Z.value>(id)); else return W(Probe<0>(id)); });
  else if constexpr (std::is_same_v<W, VM>) { switch (z % 3) { case 0: return W(Probe<4>(id)); case 1: return W(make_w<A2>(id, z, 0)); default: return W(Probe<1>(id)); } }
  else if constexpr (std::is_same_v<W, F0> || std::is_same_v<W, F2>) return by_size(z, [&](auto Z) -> W { return W(Val(id), 5, [](Val v, int five) { VS_ASSERT(five == 5); return Probe<decltype(Z)::value>(v.get()); }); });
  else if constexpr (std::is_same_v<W, FM>) return by_size(z, [&](auto Z) -> W { return W(Val(id), [](Val v) { return Probe<decltype(Z)::value>(v.get()); }); });
  else if constexpr (std::is_same_v<W, ViaRcvr<Q2>>) return W{make_w<VS_>(id, z, 0)};
  else { if (nest) { if constexpr (std::is_same_v<W, A2>) return W(Thin<A2>{make_w<A2>(id, z, nest - 1)}); else if constexpr (std::is_same_v<W, A1>) { if (nest > 1) return W(Thin<A0>{make_w<A0>(id, z, 0)}); return W(Thin<A1>{make_w<A1>(id, z, 0)}); } else return W(Thin<A0>{make_w<A0>(id, z, nest - 1)}); }
    return by_size(z, [&](auto Z) -> W { return W(Probe<Z.value>(id)); }); } }
struct Op { int o, i, j, z, nest; Script sc; int tok, ext, tag; bool destroyOp, start; };
enum { MAKE, MOVEC, MOVEA, COPYC, COPYA, SWAP, RESET, RUN, ATTR, CONNLV };
static const char* ON[] = {"make", "move-construct", "move-assign", "copy-construct", "copy-assign", "swap", "reset", "run", "attr", "connect-lvalue"};
struct Hist { std::vector<Op> ops; int w; };
template <class W> void check_owners(std::optional<W>* sl, int* m, bool exactFn) { (void) sl; auto& s = *st(); std::map<int, int> want; for (int i = 0; i < NSLOT; i++) if (m[i] >= 0) want[m[i]]++;
  if (exactFn) want.clear(); // a function has not made its sender yet
  for (auto& [id, n] : s.own) { int w = want.count(id) ? want[id] : 0; if (n != w) vs::fail("the wrapped object %d has %d live instances, %d wrappers own it", id, n, w); }
  for (auto& [id, n] : want) if (s.own[id] != n) vs::fail("the wrapped object %d is gone although a wrapper owns it", id); }
template <class W, class Tok> void run_tok(W&& w, Tok tok, Stop& ss, const Op& o) { run_one(std::forward<W>(w), tok, ss, o.ext, o.destroyOp, o.start); }
template <class W> void do_run(W&& w, const Script& sc, Op o, bool nestedNoStop) {
  auto& s = *st(); using D = std::decay_t<W>; Stop ss; s.tok = o.tok; s.tag = o.tag; int t0 = s.target;
  if constexpr (std::is_same_v<D, VM>) { s.tok = o.tok = o.tok % 2; if (!o.tok) o.ext = 0; } // as one of several senders, an any_sender only accepts an inplace_stop_token
  if constexpr (std::is_same_v<D, ViaRcvr<Q2>>) { s.tok = o.tok = 1; run_tok(std::forward<W>(w), ss.a.get_token(), ss, o); } // an any_receiver does not adapt stop tokens
  else switch (o.tok) { case 0: run_tok(std::forward<W>(w), ex::never_stop_token{}, ss, o); break; case 1: run_tok(std::forward<W>(w), ss.a.get_token(), ss, o); break; default: if constexpr (!std::is_same_v<D, VM>) { if (o.tok == 2) run_tok(std::forward<W>(w), FTok{ss.b.get_token()}, ss, o); else run_tok(std::forward<W>(w), ss.c.get_token(), ss, o); } }
  if (sc.throwConnect) { if (!s.threw || s.res.a != sc.id + 500) vs::fail("connecting the wrapper does not report what connecting the wrapped sender threw"); return; }
  if (s.threw) vs::fail("connecting threw"); if (!o.start) { if (s.started || s.done) vs::fail("connecting started the operation"); return; }
  if (!s.done) vs::fail("no completion");
  bool vis = Tr<D>::stop && !nestedNoStop && o.tok;
  Res want{sc.kind, 0, 0, 0}; switch (sc.kind) { case VAL: want.a = sc.id + 100; break; case TWO: want.a = sc.id + 200; want.b = sc.id + 201; break; case REF: want.a = t0 + 1; want.b = s.cref; break; case EPTR: want.a = sc.id + 300; break; case EINT: want.a = sc.id + 400; }
  bool waits = sc.mode >= WAITSTOP; bool mayStop = waits && vis && s.req;
  Res got = s.res; int ctx = got.ctx; got.ctx = 0;
  bool stopped = waits && s.told; if (stopped && !(vis && s.req)) vs::fail("the wrapped sender is told to stop although no stop request is visible to it");
#ifndef C24_MT
  if (mayStop && !stopped) vs::fail("the stop request does not reach the wrapped sender");
#endif
  Res w2 = stopped ? Res{STOPPED, 0, 0, 0} : want;
  if (!(got == w2)) vs::fail("the wrapped sender completes with (%d, %d, %d), the wrapper delivered (%d, %d, %d)", w2.k, w2.a, w2.b, got.k, got.a, got.b);
  if (sc.mode == INL && ctx != 0) vs::fail("an inline completion is delivered on context %d", ctx);
  if (sc.mode == DEFER && ctx != sc.ctx) vs::fail("a completion on context %d is delivered on context %d", sc.ctx, ctx);
  if (stopped && sc.mode == STOPDEF && ctx != sc.ctx) vs::fail("a completion on context %d is delivered on context %d", sc.ctx, ctx);
  if (s.seenTag != (Tr<D>::tag ? o.tag : -1) || s.seenTag2 != (Tr<D>::tag ? o.tag * 10 + 3 : -1)) vs::fail("the wrapped sender sees tags %d, %d in its environment (the receiver's tag is %d)", s.seenTag, s.seenTag2, o.tag);
  if (vis && !s.seenPossible) vs::fail("the wrapped sender's stop token cannot be stopped");
  if (!vis && s.seenPossible && !Tr<D>::adapts) vs::fail("the wrapped sender's stop token is stoppable although the receiver's is not");
#ifndef C24_MT
  if (s.seenReq != (vis && o.ext == 1)) { if (!(o.ext == 2 && vis)) vs::fail("the wrapped sender sees stop_requested() == %d at its start", s.seenReq); }
#endif
  vs::label(stopped ? "stopped" : "completed"); if (vis && s.req) vs::label("stop_visible"); }
template <class W> void run_hist(const Hist& h) {
  auto& s = *st(); std::optional<W> sl[NSLOT]; int m[NSLOT] = {NONE, NONE, NONE}; int z[NSLOT] = {}, nest[NSLOT] = {}; constexpr bool fn = std::is_same_v<W, F0> || std::is_same_v<W, F2> || std::is_same_v<W, FM>; int effective = 0;
  for (auto& o : h.ops) { int i = o.i, j = o.j; if (getenv("C24_LOG")) fprintf(stderr, "%s %d %d\n", ON[o.o], i, j);
    switch (o.o) {
    case MAKE: { Script sc = o.sc; sc.id = (int) s.sc.size(); s.sc.push_back(sc); sl[i].reset(); sl[i].emplace(make_w<W>(sc.id, o.z, o.nest)); m[i] = sc.id; z[i] = o.z; nest[i] = o.nest; break; }
    case MOVEC: if (m[i] >= 0 && i != j) { sl[j].reset(); sl[j].emplace(std::move(*sl[i])); m[j] = m[i]; z[j] = z[i]; nest[j] = nest[i]; m[i] = HUSK; effective++; if (o.start) { sl[i].reset(); m[i] = NONE; } } break;
    case MOVEA: if constexpr (std::is_move_assignable_v<W>) if (m[i] >= 0 && m[j] != NONE && i != j) { *sl[j] = std::move(*sl[i]); m[j] = m[i]; z[j] = z[i]; nest[j] = nest[i]; m[i] = HUSK; effective++; if (o.start) { sl[i].reset(); m[i] = NONE; } } break;
    case COPYC: if constexpr (std::copy_constructible<W>) if (m[i] >= 0 && i != j) { sl[j].reset(); sl[j].emplace(std::as_const(*sl[i])); m[j] = m[i]; z[j] = z[i]; nest[j] = nest[i]; effective++; } break;
    case COPYA: if constexpr (std::is_copy_assignable_v<W>) if (m[i] >= 0 && m[j] != NONE) { auto& src = std::as_const(*sl[i]); *sl[j] = src; m[j] = m[i]; z[j] = z[i]; nest[j] = nest[i]; effective++; } break;
    case SWAP: if (m[i] >= 0 && m[j] >= 0) { if constexpr (requires { sl[i]->swap(*sl[j]); }) sl[i]->swap(*sl[j]); else if constexpr (std::is_move_assignable_v<W> && std::is_move_constructible_v<W>) { if (i == j) break; std::swap(*sl[i], *sl[j]); } else break; std::swap(m[i], m[j]); std::swap(z[i], z[j]); std::swap(nest[i], nest[j]); effective++; } break;
    case RESET: sl[i].reset(); m[i] = NONE; break;
    case ATTR: if (m[i] >= 0) if constexpr (requires { get_attr(ex::get_env(*sl[i])); }) if (int a = get_attr(ex::get_env(*sl[i])); a != m[i] + 7) vs::fail("the wrapper answers %d to an attribute query, the wrapped sender %d", a, m[i] + 7); break;
    case RUN: if (m[i] >= 0) { Script sc = s.sc[(size_t) m[i]]; bool noStop = (std::is_same_v<W, A1> && nest[i] > 1); { W w(std::move(*sl[i])); sl[i].reset(); m[i] = NONE; do_run(std::move(w), sc, o, noStop); } effective++; } break;
    case CONNLV: if constexpr (std::copy_constructible<W> && requires(const W& w) { ex::connect(w, Rcvr<ex::never_stop_token>{}); }) if (m[i] >= 0) { Script sc = s.sc[(size_t) m[i]]; do_run(std::as_const(*sl[i]), sc, o, false); effective++; } break;
    }
    check_owners(sl, m, fn); }
  for (auto& x : sl) x.reset(); for (auto& [id, n] : s.own) if (n) vs::fail("%d wrapped objects with id %d are leaked", n, id); if (s.vals) vs::fail("%d values are leaked", s.vals);
#ifndef C24_MT
  vs::nontrivial(effective >= 2);
#endif
}
static const char* WN[] = {"any_sender<>", "any_sender<stop>", "any_sender<stop,tags,attr>", "variant_sender", "variant_sender(move-only,any)", "function<>", "function<tags>", "function(move-only arg)", "any_receiver"};
} // namespace
vs::Case make_senders(vs::Gen& g) {
  auto h = std::make_shared<Hist>(); h->w = g.range(0, 8); int n = g.range(2, 10); std::string d = sfmt("%s:", WN[h->w]);
  for (int k = 0; k < n; k++) { Op o{}; o.o = k == 0 ? (int) MAKE : g.pick({MAKE, MAKE, MOVEC, MOVEA, MOVEA, COPYC, COPYA, SWAP, RESET, RUN, RUN, RUN, ATTR, CONNLV}); o.i = g.range(0, NSLOT - 1); o.j = g.range(0, NSLOT - 1); o.z = g.range(0, 4); o.nest = g.chance(70) ? 0 : g.range(1, 2);
    if (k == n - 1) o.o = RUN, o.i = h->ops.empty() ? 0 : h->ops[(size_t) g.below(h->ops.size())].i;
    o.sc.kind = g.range(0, NK - 1); o.sc.mode = g.range(0, NM - 1); o.sc.ctx = g.range(0, NCTX - 1); o.sc.throwConnect = g.chance(8); o.tok = g.range(0, 3); o.ext = o.tok ? g.range(0, 2) : 0; o.tag = g.range(1, 50); o.destroyOp = g.chance(50); o.start = !g.chance(8);
#ifdef C24_MT
    if (o.tok == 3) o.tok = 1;
#endif
    d += sfmt(" %s(%d", ON[o.o], o.i); if (o.o == MAKE) d += sfmt(" kind=%d mode=%d ctx=%d size=%d nest=%d%s", o.sc.kind, o.sc.mode, o.sc.ctx, o.z, o.nest, o.sc.throwConnect ? " throws" : ""); else if (o.o == RUN || o.o == CONNLV) d += sfmt(" tok=%d ext=%d%s%s", o.tok, o.ext, o.destroyOp ? " destroy-op" : "", o.start ? "" : " drop"); else if (o.o != RESET && o.o != ATTR) d += sfmt("->%d%s", o.j, o.start ? " reset" : ""); d += ")";
    h->ops.push_back(o); }
  return {[h] { auto s = std::make_unique<St>(); { vs::Ghost g; st() = s.get(); }
    switch (h->w) { case 0: run_hist<A0>(*h); break; case 1: run_hist<A1>(*h); break; case 2: run_hist<A2>(*h); break; case 3: run_hist<VS_>(*h); break; case 4: run_hist<VM>(*h); break; case 5: run_hist<F0>(*h); break; case 6: run_hist<F2>(*h); break; case 7: run_hist<FM>(*h); break; default: run_hist<ViaRcvr<Q2>>(*h); }
    vs::label(WN[h->w]); vs::Ghost g; st() = nullptr; }, d}; }
}
