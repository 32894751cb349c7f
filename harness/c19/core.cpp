#include "c19.hpp"
namespace c19 {
// ---------------- reference interpreter (consumes the log) ----------------
struct Out { int k, v; };
struct Interp {
  St& s; size_t pos = 0; bool q = false; // q: stop has been requested at this point of the log
  const Prog& p = s.p;
  std::string show(const Ev& e) { return sfmt("%c(frame %d, stmt %d, value %d) on context %d", e.what, e.n, e.i, e.v, e.ctx); }
  const Ev* peek() { while (pos < s.log.size() && s.log[pos].what == 'Q') { q = true; pos++; } return pos < s.log.size() ? &s.log[pos] : nullptr; }
  void expect(char w, int n, int i, int v, int ctx) { const Ev* e = peek(); if (!e) vs::fail("expected %c(frame %d, stmt %d, value %d) on context %d, but nothing happened", w, n, i, v, ctx);
    if (e->what != w || e->n != n || e->i != i || e->v != v || (ctx >= 0 && e->ctx != ctx)) vs::fail("expected %c(frame %d, stmt %d, value %d) on context %d; got %s", w, n, i, v, ctx, show(*e).c_str());
    pos++; }
  bool hopZ(int c) { const Ev* e = peek(); if (e && e->what == 'Z' && e->n == c && e->ctx == c && q) { pos++; return true; } return false; }
  Out leaf(int n, int i) { auto& x = p.f[n].st[i]; const Ev* e = peek(); if (x.throwConnect) { expect('T', n, i, 0, -1); return {E, x.err}; }
    if (!e || e->what != 'L' || e->n != n || e->i != i) vs::fail("expected the completion of the sender awaited by frame %d, stmt %d; got %s", n, i, e ? show(*e).c_str() : "nothing");
    int k = e->v; pos++;
    if (x.op == LEAFINL || x.mode == INL || x.mode == DEFER) VS_ASSERT(k == x.kind);
    else if (k == S && x.kind != S) { if (!q) vs::fail("a sender is stopped although stop was not requested"); }
#ifndef C19_MT
    else if (q && p.tok && k != S) vs::fail("frame %d, stmt %d: the awaited sender was not told about the stop request", n, i);
#endif
    if (k == V && x.op == LEAFTWO) return x.throwMove ? Out{E, x.err} : Out{V, x.err * 7 + x.err + 1};
    if (k == V && x.op == LEAFVOID) return {V, 0};
    if (k == V && x.throwMove) return {E, x.err};
    return {k, k == S ? 0 : x.err}; }
  Out stmt(int n, int i, int& cur, std::vector<std::pair<int, int>>& chain, bool& resched) {
    auto& x = p.f[n].st[i]; Out o{V, 0};
    switch (x.op) {
    case LEAF: case LEAFINL: case LEAFVOID: case LEAFTWO: o = leaf(n, i); break;
    case CHILD: o = frame(x.child, cur); break;
    case OPT: case UPON: o = frame(x.child, cur); if (o.k == S) o = {V, -5}; break;
    case THEN: o = frame(x.child, cur); if (o.k == V) { expect('t', n, i, 0, known(cur)); o.v += 1000; } break;
    case STARTS_ON: if (hopZ(x.ctx)) o = {S, 0}; else { o = frame(x.child, x.ctx); } break;
    case ON: if (hopZ(x.ctx)) { o = {S, 0}; } else { o = frame(x.child, x.ctx); } if (p.f[n].kind != EXEC && hopZ(cur)) o = {S, 0}; break;
    case SCHED: if (hopZ(x.ctx)) o = {S, 0}; break;
    case AWAIT: { int b = x.sub & 7; if (b == 5 || b == 6) { expect('T', n, i, 0, -1); o = {E, x.err}; } else { expect('L', n, i, x.kind, -1); o = b == 7 || x.kind == E ? Out{E, x.err} : Out{V, x.err}; } break; }
    case EXIT: case EXITJUST: case DISP: chain.push_back({i, cur}); break;
    case RESCHED: if (!resched) { resched = true; chain.push_back({-1, cur}); } if (x.throwConnect) { o = {E, x.err}; failedResched = true; } else cur = x.ctx; break;
    }
    return o; }
  bool failedResched = false; bool lastUnknown = false; // the last frame completed on a context the property does not determine
  int known(int c) { return lastUnknown ? -1 : c; }
  Out frame(int n, int own) {
    auto& f = p.f[n]; int cur = own, acc = n * 100; std::vector<std::pair<int, int>> chain; bool resched = false; Out r{V, 0}; bool ended = false;
    for (int i = 0; i < (int) f.st.size() && !ended; i++) {
      expect('R', n, i, 0, cur); lastUnknown = false; Out o = stmt(n, i, cur, chain, resched); int v = o.v;
      if (o.k == S || (o.k == E && !f.st[i].catches)) { r = o; ended = true; break; }
      expect(o.k == V ? 'V' : 'C', n, i, v, cur); acc = (acc * 3 + v) % 100003; }
    if (!ended) { expect('E', n, f.end, 0, cur);
      switch (f.end) { case RET: r = {V, acc}; break; case RETTHROWMOVE: r = {E, n * 10 + 8}; break; case THROW: case YERR: case RERR: r = {E, n * 10 + 7}; break; default: r = {S, 0}; } }
    bool unk = failedResched; failedResched = false;
    for (size_t k = chain.size(); k-- > 0;) { auto [i, c] = chain[k]; int where = unk ? -1 : cur; if (i < 0) { cur = c; unk = false; continue; }
      auto& x = f.st[i];
      if (x.op == EXIT) { expect('X', n, i, n * 10 + i, where); if (x.mode == DEFER) { const Ev* e = peek(); if (!e || e->what != 'L') vs::fail("the exit action of frame %d, stmt %d does not await its sender", n, i); pos++; expect('x', n, i, 0, c); } cur = c; unk = false; }
      else if (x.op == EXITJUST) { expect('X', n, i, 0, where); if (x.sub) unk = true; }
      else if (x.sub == (r.k == V ? 0 : r.k == E ? 1 : 2)) expect('X', n, i, 0, where); }
    lastUnknown = unk; return r; }
};

// a stop token of a type the library does not know
struct FTok { ex::inplace_stop_token t; bool stop_requested() const noexcept { return t.stop_requested(); } bool stop_possible() const noexcept { return t.stop_possible(); } bool operator==(const FTok&) const = default;
  template <class F> struct callback_type { ex::inplace_stop_callback<F> cb; template <class G> callback_type(FTok t, G&& g) noexcept : cb(t.t, (G&&) g) {} }; };
struct FSource { ex::inplace_stop_source s; FTok get_token() { return {s.get_token()}; } void request_stop() { s.request_stop(); } };
// ---------------- root ----------------
template <class Tok> struct Env { Tok tok; auto query(ex::get_stop_token_t) const noexcept -> Tok { return tok; } Sched query(ex::get_start_scheduler_t) const noexcept { return {0}; } Sched query(ex::get_scheduler_t) const noexcept { return {0}; } };
template <class Tok> struct Rcvr { using receiver_concept = ex::receiver_tag; Tok tok; int pad = 0;
  void fin(int k, int v) noexcept { std::function<void()> d; { vs::Ghost g; auto& s = *st(); if (s.done) vs::fail("the root operation completes twice"); s.done = true; s.log.push_back({'D', k, 0, v, curctx}); d = std::move(s.destroy); }
    if (d) d(); std::lock_guard g(st()->m); st()->quit = true; st()->cv.notify_all(); st()->mcv.notify_all(); }
  void set_value(Val&& v) noexcept { int x = v.get(); fin(V, x); }
  void set_error(std::exception_ptr e) noexcept { int c = code_of(e); e = nullptr; fin(E, c); }
  void set_error(int e) noexcept { fin(E, e); }
  void set_stopped() noexcept { fin(S, 0); }
  Env<Tok> get_env() const noexcept { return {tok}; } };
static void request(ex::inplace_stop_source& a, FSource& b) { { vs::Ghost g; st()->extReq = true; st()->log.push_back({'Q', 0, 0, 0, EXT}); } if (st()->p.tok == 2) b.request_stop(); else a.request_stop(); }
static void idle(ex::inplace_stop_source& a, FSource& b) { auto& s = *st(); if (s.p.tok && !s.extReq) { request(a, b); return; }
  std::deque<std::function<void()>> h; { std::lock_guard g(s.m); h.swap(s.held); } if (h.empty()) vs::fail("the task never completes"); if (s.p.tok) vs::fail("a sender awaited by the task was not told about the stop request"); for (auto& e : h) s.post(1, e); }
#ifndef C19_MT
static void drive(ex::inplace_stop_source& a, FSource& b) {
  auto& s = *st(); for (int n = 0;; n++) { if (n > 3000) vs::fail("endless"); int ne = 0, c[NCTX]; for (int k = 0; k < NCTX; k++) if (!s.q[k].empty()) c[ne++] = k;
    if (!ne) { if (s.done) return; idle(a, b); continue; }
    if (s.p.ext == 2 && !s.extReq && !s.done && vs::choose(5) == 0) { request(a, b); continue; }
    int k = c[vs::choose((uint32_t) ne)]; auto e = std::move(s.q[k].front()); s.q[k].pop_front(); curctx = k; e(); curctx = EXT; } }
#else
static void drive(ex::inplace_stop_source& a, FSource& b) {
  auto& s = *st(); std::vector<std::thread> t;
  for (int k = 0; k < NCTX; k++) t.emplace_back([&s, k] { curctx = k; for (;;) { std::function<void()> e; { std::unique_lock l(s.m); while (s.q[k].empty() && !s.quit) { s.waiting++; s.mcv.notify_all(); s.cv.wait(l); s.waiting--; } if (s.q[k].empty()) return; e = std::move(s.q[k].front()); s.q[k].pop_front(); } e(); } });
  auto empty = [&] { for (auto& q : s.q) if (!q.empty()) return false; return true; };
  if (s.p.ext == 2) { vs::idle((int) vs::choose(10)); request(a, b); }
  for (;;) { { std::unique_lock l(s.m); while (!s.quit && !(empty() && s.waiting == NCTX)) s.mcv.wait(l); if (s.quit) break; } idle(a, b); }
  for (auto& x : t) x.join(); curctx = EXT; }
#endif
template <class Tok, class Mk> void run_root(Tok tok, ex::inplace_stop_source& a, FSource& b, Mk mk) {
  auto& s = *st(); auto conn = [&] { return ex::connect(mk(0), Rcvr<Tok>{tok}); }; using Op = decltype(conn());
  if (s.p.dropTask) { auto t = mk(0); auto u = std::move(t); return; }
  auto* o = new std::optional<Op>; bool* gone = new bool(false); o->emplace(from_fn{conn});
  if (!s.p.connectOnly) { if (s.p.destroyOp) { vs::Ghost g; s.destroy = [o, gone] { *gone = true; delete o; }; }
    if (s.p.ext == 1) request(a, b);
    s.post(0, [o] { ex::start(**o); }); drive(a, b); }
  if (!*gone) delete o; delete gone; }
template <class Tok> void run_tok(Tok tok, ex::inplace_stop_source& a, FSource& b) { switch (st()->p.f[0].kind) { case STD: run_root(tok, a, b, [](int n) { return frame_s(n); }); break; case STDE: run_root(tok, a, b, [](int n) { return frame_e(n); }); break; default: run_root(tok, a, b, [](int n) { return frame_x(n); }); } }

// ---------------- generator ----------------
static const char* ON_[] = {"leaf", "void", "two", "inl", "child", "opt", "upon", "then", "starts_on", "on", "sched", "await", "exit", "exitjust", "disp", "resched", "read"};
static const char* EN_[] = {"ret", "ret-throw", "throw", "stop", "yield-err", "ret-err", "ret-stop", "yield-stop"};
static void gen_frame(vs::Gen& g, Prog& p, int n, int depth, bool calm) {
  int k = p.f[n].kind; bool X = k == EXEC; int cnt = g.range(depth == 0 ? 1 : 0, 4); int firstc = -1; (void) firstc;
  for (int i = 0; i < cnt; i++) { Stmt s; 
    int r = (int) g.below(100); bool nest = depth < 3 && p.f.size() < 7;
    if (r < 28) s.op = g.pick({LEAF, LEAF, LEAFVOID, LEAFTWO, LEAFINL});
    else if (r < 62 && nest) s.op = g.pick({CHILD, CHILD, CHILD, OPT, UPON, THEN, STARTS_ON, ON});
    else if (r < 68) s.op = SCHED; else if (r < 76) s.op = AWAIT; else if (r < 82) s.op = READ;
    else if (X) s.op = g.pick({EXIT, EXIT, EXITJUST, DISP, DISP, RESCHED}); else s.op = LEAF;
    s.err = 1000 + n * 50 + i * 3; s.ctx = g.range(0, NCTX - 1); s.catches = g.chance(35);
    if (s.op <= LEAFINL) { s.kind = calm || g.chance(60) ? (int) V : g.range(1, 2); s.sub = g.range(0, 2); s.mode = s.op == LEAFINL ? (int) INL : g.range(0, 3); s.stopPosts = g.chance(30); if (!calm) { s.throwConnect = g.chance(8); s.throwMove = g.chance(8) && (!X || s.op == LEAFINL || s.mode == INL); } if (s.op == LEAFINL && s.kind == S && g.chance(50)) s.kind = V; }
    if (s.op == AWAIT) { s.sub = g.range(0, 7) | (g.chance(50) ? 8 : 0) | (g.chance(50) ? 16 : 0); if (calm && (s.sub & 7) > 4) s.sub &= ~7; s.kind = calm || g.chance(80) ? V : E; s.mode = g.chance(40) ? INL : DEFER; }
    if (s.op == RESCHED && !calm && g.chance(20)) { s.throwConnect = true; s.catches = false; s.sub = g.range(0, 2); } if (s.op == EXIT) s.mode = g.chance(50) ? DEFER : INL;
    if (s.op == EXITJUST) s.sub = g.chance(40); if (s.op == DISP) s.sub = g.range(0, 2);
    if (s.op >= CHILD && s.op <= ON) { Frame c; c.parent = n; bool any = s.op == STARTS_ON || s.op == ON; 
      c.kind = any || k == STDE ? g.range(0, 2) : k == STD ? g.pick({(int) STD, (int) EXEC}) : (int) EXEC; s.child = (int) p.f.size(); p.f.push_back(c); p.f[n].st.push_back(s); gen_frame(g, p, s.child, depth + 1, calm); }
    else p.f[n].st.push_back(s); }
  auto& f = p.f[n]; if (!calm && g.chance(35)) f.end = k == EXEC ? g.pick({(int) THROW, (int) STOP, (int) RETTHROWMOVE}) : k == STD ? g.pick({(int) THROW, (int) STOP, (int) RSTOP, (int) YSTOP, (int) RETTHROWMOVE}) : g.pick({(int) THROW, (int) STOP, (int) YERR, (int) RERR, (int) YERR, (int) RERR, (int) RSTOP, (int) YSTOP, (int) RETTHROWMOVE});
}
static std::string show(const Prog& p) { std::string r; const char* KN[] = {"task", "task<E>", "exec::task"}; const char* M = "idsw"; const char* K = "ves";
  for (int n = 0; n < (int) p.f.size(); n++) { r += sfmt("F%d:%s{", n, KN[p.f[n].kind]); for (auto& s : p.f[n].st) { r += s.catches ? "try " : ""; r += ON_[s.op]; if (s.op <= LEAFINL) r += sfmt("(%c%c%d@%d%s%s%s)", K[s.kind], M[s.mode], s.sub, s.ctx, s.throwConnect ? " throw-connect" : "", s.throwMove ? " throw-move" : "", s.stopPosts ? " posts" : ""); else if (s.child >= 0) r += sfmt("(F%d@%d)", s.child, s.ctx); else if (s.op == AWAIT || s.op == DISP || s.op == EXITJUST) r += sfmt("(%d%c%c@%d)", s.sub, K[s.kind], M[s.mode], s.ctx); else r += sfmt("(@%d%c)", s.ctx, M[s.mode]); r += "; "; } r += EN_[p.f[n].end]; r += "} "; }
  r += sfmt("ext=%d tok=%d%s%s%s", p.ext, p.tok, p.destroyOp ? " destroy-op" : "", p.connectOnly ? " connect-only" : "", p.dropTask ? " drop" : ""); return r; }
static vs::Case make2(std::shared_ptr<Prog> p, bool known);
vs::Case make_known(vs::Gen& g) { // an exec::task awaits, from another context, a value whose move throws
  auto p = std::make_shared<Prog>(); Frame f; f.kind = EXEC; p->f.push_back(f); Stmt s; s.mode = DEFER; s.ctx = g.range(1, NCTX - 1); s.throwMove = true; s.err = 1000; s.catches = g.chance(50); p->f[0].st.push_back(s); return make2(p, true); }
vs::Case make(vs::Gen& g) {
  auto p = std::make_shared<Prog>(); Frame f; f.kind = g.range(0, 2); p->f.push_back(f); bool calm = g.chance(30); gen_frame(g, *p, 0, 0, calm);
  p->tok = g.range(0, 2); p->ext = p->tok ? g.range(0, 2) : 0; p->destroyOp = g.chance(50); p->connectOnly = g.chance(3); p->dropTask = !p->connectOnly && g.chance(3);
  return make2(p, false); }
static vs::Case make2(std::shared_ptr<Prog> p, bool known) {
  return {[p, known] {
    auto s = std::make_unique<St>(); s->p = *p; { vs::Ghost g; st() = s.get(); }
    { ex::inplace_stop_source a; FSource b; if (p->tok == 1) run_tok(a.get_token(), a, b); else if (p->tok == 2) run_tok(b.get_token(), a, b); else run_tok(ex::never_stop_token{}, a, b); }
    vs::Ghost g; for (auto& q : s->q) q.clear(); s->held.clear(); s->destroy = nullptr;
    if (!s->alive.empty()) vs::fail("%zu locals are never destroyed", s->alive.size()); if (s->frames) vs::fail("%d coroutine frames are never destroyed", s->frames);
    if (!p->connectOnly && !p->dropTask) { if (known) for (auto& e : s->log) if ((e.what == 'C' || e.what == 'D') && e.ctx != 0) vs::fail("exec::task: awaiting a value whose move throws resumes the coroutine on the completing context");
      if (getenv("C19_LOG")) for (auto& e : s->log) fprintf(stderr, "%s\n", Interp{*s}.show(e).c_str());
      Interp in{*s}; Out o = in.frame(0, 0); in.expect('D', o.k, 0, o.v, in.known(0)); if (in.peek()) vs::fail("unexpected %s after the end", in.show(*in.peek()).c_str());
      vs::label(o.k == V ? "value" : o.k == E ? "error" : "stopped"); if (p->f.size() > 1) vs::label("nested"); for (auto& f : p->f) for (auto& x : f.st) vs::label(ON_[x.op]); }
    else VS_ASSERT(s->log.empty() || s->log[0].what == 'Q');
    if (s->vals) vs::fail("%d values are leaked", s->vals);
#ifndef C19_MT
    vs::nontrivial(s->log.size() >= 6);
#endif
    st() = nullptr; }, show(*p)};
}
}
int main(int c, char** v) { return vs::run_main(c, v, {{"coro", c19::make, 60}, {"exec_throwmove", c19::make_known, 1}}); }
