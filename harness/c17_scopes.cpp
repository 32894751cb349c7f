// C17: counting scopes - associations succeed iff not closed, every join completes once and only when nothing is associated.
#include "vs_senders.hpp"
namespace {
// A scheduler that runs on a worker thread.
struct WSched {
  using scheduler_concept = ex::scheduler_t; Worker* w;
  template <class R> struct Op final : VTask { using operation_state_concept = ex::operation_state_t; Worker* w; R r; Op(Worker* w, R r) : w(w), r(std::move(r)) {} void start() & noexcept { w->post(this); } void run() noexcept override { ex::set_value(std::move(r)); } };
  struct S { using sender_concept = ex::sender_t; using completion_signatures = ex::completion_signatures<ex::set_value_t()>; Worker* w; template <class R> Op<R> connect(R r) const { return Op<R>(w, std::move(r)); }
    struct E { Worker* w; WSched query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return {w}; } template<class...A> WSched query(ex::get_completion_scheduler_t<ex::set_value_t>, A&&...) const noexcept { return {w}; } }; E get_env() const noexcept { return {w}; } };
  S schedule() const noexcept { return {w}; }
  bool operator==(const WSched&) const = default;
};
struct JEnv { WSched s; WSched query(ex::get_scheduler_t) const noexcept { return s; } WSched query(ex::get_start_scheduler_t) const noexcept { return s; } };
struct JRes { ghost<int> count, tid{-1}; std::function<void()> on_done; std::mutex m; std::condition_variable cv; bool done = false;
  void finish() { VS_ASSERT(count.add(1) == 1, "join completed twice"); tid.set(vs::tid()); if (on_done) on_done(); std::unique_lock l(m); done = true; cv.notify_all(); }
  void wait() { std::unique_lock l(m); while (!done) cv.wait(l); } };
struct JRcv { using receiver_concept = ex::receiver_t; JRes* r; WSched s; auto get_env() const noexcept { return JEnv{s}; } void set_value() noexcept { r->finish(); } void set_stopped() noexcept { vs::fail("join stopped"); } template <class E> void set_error(E&&) noexcept { vs::fail("join failed"); } };

enum Op { ASSOC, COPY, RELEASE, CLOSE, STOP, JOIN, SEND, SEND_COPY, SEND_DROP };
struct Step { int op; ChildSpec c; bool destroy; };
struct P { bool counting; std::vector<std::vector<Step>> th; bool worker_join; bool die; };
std::string show(const P& p) {
  static const char* nm[] = {"assoc", "copy", "release", "close", "stop", "join", "send", "send-copy", "send-drop"};
  std::string s = sfmt("%s%s%s", p.counting ? "counting_scope" : "simple_counting_scope", p.worker_join ? " joins-on-worker" : "", p.die ? " destroyed-in-join" : "");
  for (auto& t : p.th) { s += " |"; for (auto& x : t) { s += sfmt(" %s", nm[x.op]); if (x.op >= SEND) s += sfmt("(%s%s)", show(x.c).c_str(), x.destroy ? " !" : ""); } }
  return s;
}
template <class Scope> void run(const P& p) {
  auto scope = std::make_unique<Scope>(); auto w = std::make_unique<Worker>(); auto jw = std::make_unique<Worker>();
  ghost<int> engaged, joined, closed, joins_started; ghost<int> stop_begun;
  bool any_close = false, any_join = false; for (auto& t : p.th) for (auto& x : t) { any_close |= x.op == CLOSE; any_join |= x.op == JOIN; }
  using A = decltype(scope->get_token().try_associate());
  struct Jop { JRes r; std::function<void()> del; };
  std::deque<Jop> jops; std::deque<Ledger> Ls; std::deque<Result> Rs; std::vector<std::pair<ChildSpec, std::pair<Ledger*, Result*>>> sends;
  std::mutex pm;
  auto on_join = [&] {
    VS_ASSERT(engaged.get() == 0, "join completed while an association is alive");
    if (!p.die) { A a = scope->get_token().try_associate(); VS_ASSERT(!a, "association succeeded after join completed"); }
    joined.add(1);
  };
  auto start_join = [&](Jop* j) {
    j->r.on_done = on_join;
    auto s = scope->join(); auto* box = make_op(std::move(s), JRcv{&j->r, WSched{p.worker_join ? jw.get() : jw.get()}}); j->del = [box] { delete box; };
    int before = vs::tid(); joins_started.add(1);
    ex::start(box->op);
    (void) before;
  };
  auto thread = [&](const std::vector<Step>& steps) {
    std::vector<A> held; bool my_close = false, my_joined = false, my_stop = false; std::vector<std::function<void()>> later;
    // reference: what this thread knows for certain
    auto note_in = [&](bool ok) { if (ok) { VS_ASSERT(!my_close, "association succeeded after close on the same thread"); VS_ASSERT(!my_joined); engaged.add(1); } };
    for (auto& x : steps) switch (x.op) {
      case ASSOC: { A a = scope->get_token().try_associate(); note_in((bool) a); if (!a && !any_close && !any_join) vs::fail("an open scope refused an association"); if (a) held.push_back(std::move(a)); break; }
      case COPY: { if (held.empty()) break; A a = held.back().try_associate(); note_in((bool) a); if (!a && !any_close) vs::fail("a scope with a live association that nobody closed refused an association"); if (a) held.push_back(std::move(a)); break; }
      case RELEASE: { if (held.empty()) break; engaged.add(-1); held.pop_back(); break; }
      case CLOSE: scope->close(); my_close = true; closed.set(1); break;
      case STOP: stop_begun.set(1); if constexpr (requires { scope->request_stop(); }) scope->request_stop(); my_stop = true; break;
      case JOIN: { Jop* j; { std::unique_lock l(pm); jops.emplace_back(); j = &jops.back(); } start_join(j); later.push_back([j] { j->r.wait(); }); break; }
      case SEND: case SEND_COPY: case SEND_DROP: {
        Ledger* L; Result* R; { std::unique_lock l(pm); Ls.emplace_back(); Rs.emplace_back(); L = &Ls.back(); R = &Rs.back(); }
        ex::inplace_stop_source src; bool pre_stop = my_stop;
        auto s = std::make_unique<decltype(ex::associate(Child{x.c, L, w.get()}, scope->get_token()))>(ex::associate(Child{x.c, L, w.get()}, scope->get_token()));
        if (x.op == SEND_DROP) { s.reset(); VS_ASSERT(L->started.get() == 0); break; }
        if (x.op == SEND_COPY) { auto c = std::make_unique<std::decay_t<decltype(*s)>>(*s); s = std::move(c); }
        auto* box = make_op(std::move(*s), Rcv<>{R, src.get_token()}); s.reset();
        // the association (if any) lives as long as the operation state: count it while the child runs
        R->on_done = [&] { if (L->started.get()) engaged.add(-1); };
        if (x.destroy) R->after = [box] { delete box; };
        bool closed_for_me = my_close;
        int e0 = L->connected.get();
        if (e0) engaged.add(1);           // connected child <=> admitted
        if (closed_for_me) VS_ASSERT(!e0, "associate admitted work after close"); if (!e0 && !any_close && !any_join) vs::fail("associate refused work although the scope is open");
        ex::start(box->op); R->wait(); if (!x.destroy) delete box;
        VS_ASSERT(L->started.get() == (e0 ? 1 : 0), "associated work runs if and only if it was admitted");
        if (!e0) VS_ASSERT(R->chan.get() == CH_STOPPED, "refused work must complete as stopped");
        else VS_ASSERT(R->chan.get() == L->chan.get(), "result changed");
        if (e0 && p.counting && pre_stop) VS_ASSERT(L->stop_at_start.get() == 1, "work started after request_stop does not see the request");
        if (L->saw_stop.get()) VS_ASSERT(p.counting && stop_begun.get(), "stop delivered to associated work although nobody requested it");
        break; }
    }
    while (!held.empty()) { engaged.add(-1); held.pop_back(); }
    for (auto& f : later) f();
    if (!later.empty()) { A a = scope->get_token().try_associate(); VS_ASSERT(!a, "association succeeded after this thread's join completed"); }
  };
  std::vector<std::function<void()>> fs; for (auto& t : p.th) fs.push_back([&, &t = t] { thread(t); });
  vs_threads(std::move(fs));
  VS_ASSERT(engaged.get() == 0);
  // final join: with nothing associated it completes at once
  { Jop& j = jops.emplace_back(); start_join(&j); VS_ASSERT(j.r.count.get() == 1, "join of a scope without associations did not complete immediately"); }
  for (auto& j : jops) { j.r.wait(); VS_ASSERT(j.r.count.get() == 1); j.del(); }
  scope.reset(); jw->close(); w->close();
}
vs::Case make(vs::Gen& g) {
  P p; p.counting = g.chance(50); p.worker_join = true; p.die = false;
  int nt = g.range(1, 3); bool anystop = false;
  for (int i = 0; i < nt; i++) {
    std::vector<Step> t; int n = g.range(1, nt == 1 ? 8 : 4);
    for (int k = 0; k < n; k++) { Step x{}; static const int tab[] = {ASSOC, ASSOC, ASSOC, COPY, RELEASE, RELEASE, CLOSE, JOIN, JOIN, SEND, SEND_COPY, SEND_DROP, STOP}; x.op = tab[g.below(13)]; x.destroy = g.chance(50); if (x.op >= SEND) x.c = gen_child(g, 10 + k, false); if (x.op == STOP) { if (!p.counting) x.op = ASSOC; else anystop = true; } t.push_back(x); }
    p.th.push_back(t);
  }
  (void) anystop;
  vs::Case c; c.desc = show(p); c.body = [p] { if (p.counting) run<ex::counting_scope>(p); else run<ex::simple_counting_scope>(p); };
  return c;
}
// waiters: children that only end when the scope is stopped; a join is pending meanwhile; the scope dies as soon as join completes
struct Q { int n; std::vector<int> mode; bool stop_first; bool close; };
vs::Case make_wait(vs::Gen& g) {
  Q q; q.n = g.range(1, 3); for (int i = 0; i < q.n; i++) q.mode.push_back((int) g.below(3)); q.stop_first = g.chance(30); q.close = g.chance(30);
  vs::Case c; c.desc = sfmt("counting_scope n=%d stop-first=%d close=%d modes", q.n, q.stop_first, q.close); for (int m : q.mode) c.desc += sfmt(" %d", m);
  c.body = [q] {
    auto scope = std::make_unique<ex::counting_scope>(); auto w = std::make_unique<Worker>(); auto jw = std::make_unique<Worker>();
    std::vector<Ledger> L(q.n); std::vector<std::unique_ptr<Result>> R; std::vector<std::unique_ptr<ex::inplace_stop_source>> src;
    for (int i = 0; i < q.n; i++) { R.push_back(std::make_unique<Result>()); src.push_back(std::make_unique<ex::inplace_stop_source>()); }
    if (q.stop_first) scope->request_stop();
    for (int i = 0; i < q.n; i++) {
      ChildSpec cs; cs.mode = M_WAITSTOP; cs.stoppable = true; cs.val = i;
      auto* box = make_op(ex::associate(Child{cs, &L[i], w.get()}, scope->get_token()), Rcv<>{R[i].get(), src[i]->get_token()});
      if (q.mode[i] == 0) R[i]->on_done = [&, i] { src[i].reset(); }; R[i]->after = [box] { delete box; };
      ex::start(box->op);
    }
    std::vector<std::function<void()>> fs;
    bool need = false; for (int m : q.mode) need |= m != 2;
    for (int i = 0; i < q.n; i++) if (q.mode[i] && !q.stop_first) fs.push_back([&, i] { src[i]->request_stop(); });   // through its own receiver
    if (!q.stop_first && need) fs.push_back([&] { scope->request_stop(); });
    if (q.close) fs.push_back([&] { scope->close(); });
    auto* s = scope.get(); ghost<int> gone;
    fs.push_back([&] { JRes r; auto* box = make_op(s->join(), JRcv{&r, WSched{jw.get()}}); ex::start(box->op); r.wait(); for (int i = 0; i < q.n; i++) VS_ASSERT(L[i].live.get() == 0, "join completed while associated work is alive"); delete box; });
    vs_threads(std::move(fs));
    scope.reset();
    for (int i = 0; i < q.n; i++) { VS_ASSERT(R[i]->count.get() == 1); VS_ASSERT(R[i]->chan.get() == CH_STOPPED); VS_ASSERT(L[i].stop_at_start.get() == (q.stop_first ? 1 : 0)); }
    jw->close(); w->close();
  };
  return c;
}
// join completes -> the scope is destroyed at once by the completing thread while the last disassociation is still returning
vs::Case make_die(vs::Gen& g) {
  int n = g.range(1, 3), nj = g.range(0, 2); bool counting = g.chance(50), copy = g.chance(30);
  vs::Case c; c.desc = sfmt("%s holders=%d extra-joins=%d copy=%d, scope destroyed by the last join", counting ? "counting_scope" : "simple_counting_scope", n, nj, copy);
  auto body = [=]<class Scope>(Scope*) {
    auto scope = std::make_unique<Scope>(); auto jw = std::make_unique<Worker>(); using A = decltype(scope->get_token().try_associate());
    std::vector<A> held; for (int i = 0; i < n; i++) held.push_back(scope->get_token().try_associate()); for (auto& a : held) VS_ASSERT((bool) a);
    auto data = std::make_unique<int[]>(n); std::atomic<int> left{1 + nj}; ghost<int> alive; alive.set(n);
    std::vector<std::function<void()>> fs; auto* s = scope.get();
    for (int i = 0; i < n; i++) fs.push_back([&, i] { if (copy) { A b = held[i].try_associate(); VS_ASSERT((bool) b || true); } data[i] = i + 1; alive.add(-1); A a = std::move(held[i]); });
    std::vector<std::unique_ptr<JRes>> rs; std::vector<std::function<void()>> dels; for (int i = 0; i <= nj; i++) rs.push_back(std::make_unique<JRes>());
    for (int i = 0; i <= nj; i++) fs.push_back([&, i] { JRes& r = *rs[i]; auto* box = make_op(s->join(), JRcv{&r, WSched{jw.get()}});
      r.on_done = [&] { VS_ASSERT(alive.get() == 0, "join completed while an association is alive"); for (int k = 0; k < n; k++) VS_ASSERT(data[k] == k + 1, "join completed without the effects of an ended association"); if (left.fetch_sub(1) == 1) scope.reset(); }; ex::start(box->op); r.wait(); delete box; });
    vs_threads(std::move(fs)); VS_ASSERT(!scope); jw->close();
  };
  c.body = [=] { if (counting) body((ex::counting_scope*) nullptr); else body((ex::simple_counting_scope*) nullptr); };
  return c;
}
}
int main(int argc, char** argv) { return vs::run_main(argc, argv, {{"ops", make, 4}, {"wait", make_wait, 1}, {"die", make_die, 2}}); }
