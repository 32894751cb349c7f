// bulk through a task_scheduler: the backend's own bulk (a domain) or the default one, backend failures, throwing functions
#include "c24.hpp"
namespace c24 {
namespace {
struct BK { int n = 0, outcome = 0, ran = 0, chunk = 1, mode = 0, ctx = 0; bool reverse = false; } bk; // outcome 0 value 1 error 2 stopped; ran: items run before a failure
struct BSched;
struct bdomain : ex::default_domain {
  template <class Sndr, class Env> requires (ex::__sender_for<Sndr, ex::bulk_chunked_t> || ex::__sender_for<Sndr, ex::bulk_unchunked_t>)
  static auto transform_sender(ex::set_value_t, Sndr&& sndr, const Env&); };
template <class Tag, class Child, class F> struct BSnd { using sender_concept = ex::sender_tag; Child c; size_t n; F f;
  template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::completion_signatures<ex::set_value_t(), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>{}; }
  template <class R> struct Op { using operation_state_concept = ex::operation_state_tag; R r; size_t n; F f; Op(R r, size_t n, F f) : r((R&&) r), n(n), f((F&&) f) { vs::Ghost g; st()->ops++; } Op(Op&&) = delete; ~Op() { vs::Ghost g; st()->ops--; }
    void start() & noexcept { { vs::Ghost g; st()->started = true; if (n != (size_t) bk.n) vs::fail("the backend is asked for %zu items instead of %d", n, bk.n); } go(bk.reverse ? (long) n : 0); }
    void items(size_t b, size_t e) { if constexpr (std::is_same_v<Tag, ex::bulk_chunked_t>) f(b, e); else for (; b < e; ++b) f(b); }
    void go(long at) { // one chunk per step
      long lim = bk.outcome ? std::min<long>(bk.ran, (long) n) : (long) n;
      long done = bk.reverse ? (long) n - at : at; if (done >= lim) { fin(); return; }
      long c = std::min<long>(bk.chunk, lim - done); auto step = [this, at, c] { if (bk.reverse) { items((size_t) (at - c), (size_t) at); go(at - c); } else { items((size_t) at, (size_t) (at + c)); go(at + c); } };
      if (bk.mode == DEFER) st()->post((bk.ctx + (int) done) % NCTX, step); else step(); }
    void fin() { auto end = [this] { if (bk.outcome == 0) ex::set_value((R&&) r); else if (bk.outcome == 1) ex::set_error((R&&) r, std::make_exception_ptr(Err{77})); else ex::set_stopped((R&&) r); };
      if (bk.mode == DEFER) st()->post(bk.ctx, end); else end(); } };
  template <class R> auto connect(R r) && { return Op<R>((R&&) r, n, (F&&) f); } };
struct BSched { using scheduler_concept = ex::scheduler_tag; Own own; bool operator==(const BSched&) const noexcept { return true; }
  template <class R> struct Op { using operation_state_concept = ex::operation_state_tag; R r; Own own; Op(R r, Own o) : r((R&&) r), own(std::move(o)) { vs::Ghost g; st()->ops++; } Op(Op&&) = delete; ~Op() { vs::Ghost g; st()->ops--; } void start() & noexcept { auto e = [this] { if constexpr (!ex::unstoppable_token<ex::stop_token_of_t<ex::env_of_t<R>>>) if (ex::get_stop_token(ex::get_env(r)).stop_requested()) { { vs::Ghost g; st()->told = true; } ex::set_stopped((R&&) r); return; } ex::set_value((R&&) r); }; if (bk.mode == DEFER) st()->post(bk.ctx, e); else e(); } };
  struct Attr { Own own; template <class... A> BSched query(ex::get_completion_scheduler_t<ex::set_value_t>, A&&...) const noexcept { return BSched{own}; } };
  struct Snd { using sender_concept = ex::sender_tag; Own own; template <class Self, class... E> static consteval auto get_completion_signatures() { if constexpr (sizeof...(E) == 1 && (ex::unstoppable_token<ex::stop_token_of_t<E>> && ...)) return ex::completion_signatures<ex::set_value_t()>{}; else return ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>{}; }
    Attr get_env() const noexcept { return {own}; } template <class R> auto connect(R r) && { return Op<R>((R&&) r, std::move(own)); } template <class R> auto connect(R r) const& { return Op<R>((R&&) r, own); } };
  Snd schedule() const noexcept { return {own}; }
  auto query(ex::get_completion_domain_t<ex::set_value_t>) const noexcept { return bdomain{}; } };
template <class Sndr, class Env> requires (ex::__sender_for<Sndr, ex::bulk_chunked_t> || ex::__sender_for<Sndr, ex::bulk_unchunked_t>)
auto bdomain::transform_sender(ex::set_value_t, Sndr&& sndr, const Env&) { auto& [tag, data, child] = sndr; auto& [pol, shape, fn] = data; using Tag = std::decay_t<decltype(tag)>; using C = std::decay_t<decltype(child)>; using F = std::decay_t<decltype(fn)>; return BSnd<Tag, C, F>{ex::__forward_like<Sndr>(child), (size_t) shape, ex::__forward_like<Sndr>(fn)}; }
struct Cfg { int alg, pol, n, pred, throwAt, tok, ext; bool destroyOp, start; BK b; };
template <class Tok> void run(const Cfg& c, Tok tok, Stop& ss) {
  auto& s = *st(); int id = (int) s.sc.size(); s.sc.push_back({}); ex::task_scheduler ts(BSched{Own(id)}); std::vector<int> hits((size_t) c.n); int calls = 0, thrown = 0; bool alive = true;
  auto item = [&](int i, int v) { vs::Ghost g; if (!alive || s.done) vs::fail("the bulk function is called after the operation completed"); calls++; if (i < 0 || i >= c.n) vs::fail("index %d is out of range", i); if (hits[(size_t) i]++) vs::fail("index %d is visited twice", i); if (v != 55) vs::fail("the bulk function gets another value (%d)", v); if (c.throwAt == i) { thrown++; throw Err{900 + i}; } };
  auto predv = [&]() -> Val { if (c.pred == 1) throw Err{800}; return Val(55); };
  auto go = [&](auto snd) { run_one(std::move(snd), tok, ss, c.ext, c.destroyOp, c.start); };
  auto base = ex::schedule(ts) | ex::then(predv);
  auto un = [&](int i, Val& v) { item(i, v.get()); }; auto ch = [&](int b, int e, Val& v) { for (; b < e; ++b) item(b, v.get()); };
  auto with = [&](auto pol) { if (c.alg == 0) go(base | ex::bulk_chunked(pol, c.n, ch)); else if (c.alg == 1) go(base | ex::bulk_unchunked(pol, c.n, un)); else go(base | ex::bulk(pol, c.n, un)); };
  if (c.pol == 0) with(ex::seq); else with(ex::par);
  alive = false; if (!c.start) { if (s.started || s.done) vs::fail("connecting started the operation"); return; }
  if (!s.done) vs::fail("no completion");
  Res want{VAL, 55, 0, 0}; if (s.told) want = {STOPPED, 0, 0, 0}; else if (c.pred == 1) want = {EPTR, 800, 0, 0}; else if (c.b.outcome == 1) want = {EPTR, 77, 0, 0}; else if (c.b.outcome == 2) want = {STOPPED, 0, 0, 0}; else if (thrown) want = {EPTR, 900 + c.throwAt, 0, 0};
  bool begun = !s.told && c.pred == 0;
  if (s.told && !(c.tok && s.req)) vs::fail("stopped without a stop request");
  Res got = s.res; got.ctx = 0; if (!(got == want)) vs::fail("the backend completes with (%d, %d), the task_scheduler's bulk delivered (%d, %d)", want.k, want.a, got.k, got.a);
  int total = 0; for (int x : hits) total += x; if (!begun && total) vs::fail("the bulk function is called although the bulk work does not start");
  if (begun && c.b.outcome == 0 && !thrown && total != c.n) vs::fail("%d of %d indices are visited", total, c.n);
  if (begun && c.throwAt >= 0 && c.b.outcome == 0 && !thrown) vs::fail("an index is not visited");
  vs::label(begun ? "bulk" : "not_begun"); if (c.b.outcome) vs::label("backend_fails"); if (thrown) vs::label("fn_throws"); }
}
vs::Case make_bulk(vs::Gen& g) {
  Cfg c{}; c.alg = g.range(0, 2); c.pol = g.range(0, 3) ? 1 : 0; c.n = g.range(0, 9); c.pred = g.chance(12); c.throwAt = c.n && g.chance(30) ? g.range(0, c.n - 1) : -1; c.tok = g.range(0, 3); c.ext = c.tok ? g.range(0, 2) : 0; c.destroyOp = g.chance(50); c.start = !g.chance(5);
#ifdef C24_MT
  if (c.tok == 3) c.tok = 1;
#endif
  c.b = {0, g.pick({0, 0, 0, 1, 2}), g.range(0, 9), g.range(1, 4), g.chance(60) ? (int) DEFER : (int) INL, g.range(0, 1), g.chance(40)}; if (c.b.outcome == 2 && !c.tok) c.b.outcome = 1; // not stoppable: a backend may not complete with set_stopped
  c.b.n = c.pol == 0 && c.n ? 1 : c.n; if (c.pol == 0 && c.b.outcome) c.b.ran %= 2;
  std::string d = sfmt("bulk: alg=%d pol=%d n=%d pred=%d throwAt=%d tok=%d ext=%d%s%s backend: outcome=%d ran=%d chunk=%d mode=%d ctx=%d%s", c.alg, c.pol, c.n, c.pred, c.throwAt, c.tok, c.ext, c.destroyOp ? " destroy-op" : "", c.start ? "" : " drop", c.b.outcome, c.b.ran, c.b.chunk, c.b.mode, c.b.ctx, c.b.reverse ? " reverse" : "");
  return {[c] { auto s = std::make_unique<St>(); { vs::Ghost g; st() = s.get(); } bk = c.b; Stop ss; s->tok = c.tok;
    switch (c.tok) { case 0: run(c, ex::never_stop_token{}, ss); break; case 1: run(c, ss.a.get_token(), ss); break; case 2: run(c, FTok{ss.b.get_token()}, ss); break; default: run(c, ss.c.get_token(), ss); }
    for (auto& [id, n] : s->own) if (n) vs::fail("%d wrapped schedulers with id %d are leaked", n, id); if (s->vals) vs::fail("%d values are leaked", s->vals);
#ifndef C24_MT
    vs::nontrivial(c.n >= 2 && c.start);
#endif
    vs::Ghost g; st() = nullptr; }, d}; }
}
