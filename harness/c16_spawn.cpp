// C16: spawn and spawn_future - started at once iff the scope admits it, delivered once, association and memory released once.
#include "vs_senders.hpp"
namespace {
enum { NOSTOP, BEFORE, CONC }; enum { START, CONNECT_ONLY, DROP };
struct Ledger2 { ghost<int> allocs, frees, assoc_ok, assoc_refused, assoc_live; Ledger* L = nullptr; };
template <class T> struct Alloc {
  using value_type = T; Ledger2* l;
  explicit Alloc(Ledger2* l) : l(l) {}
  template <class U> Alloc(const Alloc<U>& o) noexcept : l(o.l) {}
  T* allocate(size_t n) { l->allocs.add(1); auto* p = (size_t*) ::operator new(n * sizeof(T) + 16); p[0] = n * sizeof(T); return (T*) (p + 2); }
  void deallocate(T* p, size_t n) noexcept { auto* q = (size_t*) p - 2; VS_ASSERT(q[0] == n * sizeof(T), "deallocate with a different size"); VS_ASSERT(l->frees.add(1) <= l->allocs.get()); ::operator delete(q); }
  template <class U> bool operator==(const Alloc<U>& o) const noexcept { return l == o.l; }
};
template <class A> struct Assoc {                // records when the association is given up
  A a{}; Ledger2* l = nullptr;
  Assoc() = default;
  Assoc(A x, Ledger2* l) : a(std::move(x)), l(l) {}
  Assoc(Assoc&& o) noexcept : a(std::move(o.a)), l(std::exchange(o.l, nullptr)) {}
  Assoc& operator=(Assoc o) noexcept { std::swap(a, o.a); std::swap(l, o.l); return *this; }
  ~Assoc() { if (a) { VS_ASSERT(l->assoc_live.add(-1) >= 0); if (l->assoc_live.get() == 0 && l->allocs.get()) { VS_ASSERT(l->frees.get() == l->allocs.get(), "association given up before the state was freed"); VS_ASSERT(l->L->live.get() == 0, "association given up before the work's state was destroyed"); } } }
  explicit operator bool() const noexcept { return (bool) a; }
  Assoc try_associate() const noexcept { auto n = a.try_associate(); if (n) l->assoc_live.add(1); return Assoc(std::move(n), l); }
};
template <class T> struct Token {
  T t; Ledger2* l;
  template <ex::sender S> decltype(auto) wrap(S&& s) const { return t.wrap((S&&) s); }
  auto try_associate() const noexcept { auto a = t.try_associate(); bool ok = (bool) a; if (ok) { l->assoc_live.add(1); l->assoc_ok.add(1); } else l->assoc_refused.add(1); return Assoc<decltype(a)>(std::move(a), l); }
};
struct Item { bool fut; ChildSpec c; int what, stop; bool destroy, dies, own_thread, late; };
struct P { bool counting, closed, close_conc, scope_stop, join_first; std::vector<Item> it; };
std::string show(const P& p) {
  std::string s = sfmt("%s%s%s%s%s:", p.counting ? "counting_scope" : "simple_counting_scope", p.closed ? " closed" : "", p.close_conc ? " close-concurrent" : "", p.scope_stop ? " request_stop-concurrent" : "", p.join_first ? " join-concurrent" : "");
  for (auto& i : p.it) { s += sfmt(" [%s %s", i.fut ? "future" : "spawn", show(i.c).c_str()); if (i.fut) s += sfmt(" %s%s%s%s%s%s", i.what == START ? "start" : i.what == CONNECT_ONLY ? "connect-only" : "drop", i.stop == BEFORE ? " stopped" : i.stop == CONC ? " stop-concurrent" : "", i.destroy ? " !" : "", i.dies ? " source-dies" : "", i.own_thread ? "" : " main-thread", i.late ? " late" : ""); s += "]"; }
  return s;
}
template <class Scope> void run(const P& p) {
  auto scope = std::make_unique<Scope>(); auto w = std::make_unique<Worker>(); size_t n = p.it.size();
  std::vector<Ledger> L(n); std::vector<Ledger2> A(n); std::vector<std::unique_ptr<Result>> R; std::vector<std::unique_ptr<ex::inplace_stop_source>> src;
  for (size_t i = 0; i < n; i++) { R.push_back(std::make_unique<Result>()); src.push_back(std::make_unique<ex::inplace_stop_source>()); A[i].L = &L[i]; }
  if (p.closed) scope->close();
  std::mutex m; std::condition_variable cv; int done = 0; std::atomic<int> spawned{0};
  auto one = [&](size_t i) {
    const Item& it = p.it[i]; Token<decltype(scope->get_token())> tok{scope->get_token(), &A[i]};
    auto env = ex::prop{ex::get_allocator, Alloc<char>(&A[i])};
    auto signal = [&]() noexcept { std::unique_lock l(m); done++; cv.notify_all(); };
    auto admitted = [&] {
      VS_ASSERT(A[i].assoc_ok.get() + A[i].assoc_refused.get() == 1, "one association attempt expected");
      bool ok = A[i].assoc_ok.get() == 1;
      if (p.closed) VS_ASSERT(!ok, "closed scope admitted work"); if (!p.closed && !p.close_conc && !p.join_first) VS_ASSERT(ok, "open scope refused work");
      VS_ASSERT(L[i].started.get() == (ok ? 1 : 0), "the work is started at once if and only if the scope admits it");
      if (ok) VS_ASSERT(L[i].begin_tid.get() == vs::tid(), "work started on another thread");
    };
    auto counted = [&](auto s) { return std::move(s) | ex::then([signal](int x) noexcept { signal(); return x; }) | ex::upon_stopped([signal]() noexcept { signal(); return -1; }); };
    if (!it.fut) {
      ex::spawn(counted(Child{it.c, &L[i], w.get()} | ex::upon_error([](VErr) noexcept { return -2; })) | ex::then([](int) noexcept {}), tok, env);
      admitted(); spawned.fetch_add(1);
      return;
    }
    if (it.stop == BEFORE) src[i]->request_stop();
    auto f0 = ex::spawn_future(Child{it.c, &L[i], w.get()}, decltype(tok)(tok), env);
    admitted(); spawned.fetch_add(1);
    auto f = std::make_unique<decltype(f0)>(std::move(f0));
    if (it.late) vs::idle(6);
    if (it.what == DROP) { f.reset(); return; }
    Result* r = R[i].get(); auto* sp = &src[i];
    r->on_done = [sp, dies = it.dies] { if (dies) sp->reset(); };
    auto* box = make_op(std::move(*f), Rcv<>{r, (*sp)->get_token()}); f.reset();
    if (it.what == CONNECT_ONLY) { delete box; return; }
    if (it.destroy) r->after = [box] { delete box; };
    ex::start(box->op); r->wait(); if (!it.destroy) delete box;
  };
  std::vector<std::function<void()>> fs; std::vector<size_t> here;
  for (size_t i = 0; i < n; i++) {
    if (p.it[i].own_thread) fs.push_back([&, i] { one(i); }); else here.push_back(i);
    if (p.it[i].fut && p.it[i].stop == CONC && p.it[i].what == START) fs.push_back([&, i] { src[i]->request_stop(); });
  }
  if (p.close_conc) fs.push_back([&] { scope->close(); });
  if (p.scope_stop) fs.push_back([&] { if constexpr (requires { scope->request_stop(); }) scope->request_stop(); });
  auto join = [&] {
    ex::sync_wait(scope->join());
    for (size_t i = 0; i < n; i++) if (A[i].assoc_ok.get()) { VS_ASSERT(A[i].assoc_live.get() == 0, "join completed while an association is alive"); VS_ASSERT(L[i].completed.get() == L[i].started.get() && L[i].live.get() == 0 && A[i].allocs.get() == A[i].frees.get(), "join completed while spawned work is alive"); }
  };
  if (!here.empty()) fs.push_back([&] { for (size_t i : here) one(i); });
  if (p.join_first) fs.push_back(join);
  vs_threads(std::move(fs));
  join(); scope.reset();                       // the last thread out must not touch the scope
  w->close();
  for (size_t i = 0; i < n; i++) {
    const Item& it = p.it[i]; bool ok = A[i].assoc_ok.get() == 1;
    VS_ASSERT(A[i].allocs.get() == 1 && A[i].frees.get() == 1, "the state is allocated and freed exactly once through the chosen allocator");
    VS_ASSERT(L[i].connected.get() == L[i].destroyed.get()); VS_ASSERT(L[i].started.get() == (ok ? 1 : 0)); VS_ASSERT(L[i].completed.get() == L[i].started.get());
    if (!it.fut) continue;
    if (it.what == START) {
      Result& r = *R[i]; VS_ASSERT(r.count.get() == 1); int ch = r.chan.get();
      if (!ok) { VS_ASSERT(ch == CH_STOPPED, "refused work must complete the future as stopped"); vs::label("refused"); continue; }
      if (it.stop != NOSTOP && ch == CH_STOPPED) { vs::label("future stopped"); continue; }
      VS_ASSERT(ch == L[i].chan.get(), "the future did not complete with the work's completion"); if (ch == CH_VALUE) VS_ASSERT(r.vals.size() == 1 && r.vals[0] == it.c.val, "wrong value"); if (ch == CH_ERROR) VS_ASSERT(r.err.get() == it.c.val, "wrong error");
    } else VS_ASSERT(R[i]->count.get() == 0);
    if (L[i].saw_stop.get()) { VS_ASSERT(it.what != START || it.stop != NOSTOP || p.scope_stop, "work was asked to stop although nobody requested it"); vs::label("work stopped"); }
  }
}
vs::Case make(vs::Gen& g) {
  P p; p.counting = g.chance(50); p.closed = g.chance(12); p.close_conc = !p.closed && g.chance(20); p.scope_stop = p.counting && g.chance(30); p.join_first = g.chance(35);
  int n = g.range(1, 2);
  for (int i = 0; i < n; i++) {
    Item it; it.fut = g.chance(70); int k = (int) g.below(10); it.what = k < 6 ? START : k < 8 ? CONNECT_ONLY : DROP; it.stop = it.fut && g.chance(50) ? g.range(1, 2) : 0; it.destroy = g.chance(50); it.dies = it.stop != CONC && g.chance(30); it.own_thread = g.chance(60); it.late = g.chance(30);
    it.c = gen_child(g, 40 + i, p.scope_stop || (it.fut && (it.what != START || it.stop)));
    p.it.push_back(it);
  }
  // work that only ends on request must not keep the main thread's other items waiting behind it
  vs::Case c; c.desc = show(p); c.body = [p] { if (p.counting) run<ex::counting_scope>(p); else run<ex::simple_counting_scope>(p); };
  return c;
}
// results: several signatures, values and errors whose decay-copy throws at a chosen copy; completed inside start or by another thread
struct CopyThrow { int id; };
struct Boom { int v = 0; bool armed = false; ghost<int>* live = nullptr;
  Boom(int x, bool a, ghost<int>* l) : v(x), armed(a), live(l) { live->add(1); }
  Boom(const Boom& o) : v(o.v), armed(false), live(o.live) { if (o.armed) throw CopyThrow{o.v}; live->add(1); }
  Boom(Boom&& o) : Boom(static_cast<const Boom&>(o)) {}
  ~Boom() { live->add(-1); } };
struct MBase { virtual void go() noexcept = 0; };
struct MCtl { int kind; int armed; ghost<int> live; std::atomic<MBase*> slot{nullptr}; bool deferred; };
struct MSnd { using sender_concept = ex::sender_t;
  using completion_signatures = ex::completion_signatures<ex::set_value_t(const Boom&, int), ex::set_value_t(int, const Boom&, const Boom&), ex::set_value_t(const Boom&), ex::set_value_t(int), ex::set_value_t(), ex::set_error_t(const Boom&), ex::set_error_t(int), ex::set_stopped_t()>;
  MCtl* c;
  template <class R> struct op final : MBase { using operation_state_concept = ex::operation_state_t; R r; MCtl* c; op(R rr, MCtl* cc) : r(std::move(rr)), c(cc) {}
    void start() noexcept { if (c->deferred) c->slot.store(this); else go(); }
    void go() noexcept override { MCtl* k = c; auto& L = k->live; Boom a(5, k->armed == 1, &L), b(6, k->armed == 2, &L); const Boom &ca = a, &cb = b;
      switch (k->kind) { case 0: ex::set_value(std::move(r), ca, 9); break; case 1: ex::set_value(std::move(r), 8, ca, cb); break; case 2: ex::set_value(std::move(r), ca); break; case 3: ex::set_value(std::move(r), 7); break; case 4: ex::set_value(std::move(r)); break; case 5: ex::set_error(std::move(r), ca); break; case 6: ex::set_error(std::move(r), 4); break; default: ex::set_stopped(std::move(r)); } } };
  template <class R> op<R> connect(R r) const { return {std::move(r), c}; } };
struct MRcv { using receiver_concept = ex::receiver_t; std::string* out;
  static std::string one(int v) { return sfmt(" i%d", v); } static std::string one(const Boom& b) { return sfmt(" b%d", b.v); }
  template <class... A> void set_value(A&&... a) noexcept { *out += "V"; ((*out += one(a)), ...); *out += ";"; }
  void set_error(std::exception_ptr e) noexcept { try { std::rethrow_exception(e); } catch (const CopyThrow& t) { *out += sfmt("X%d;", t.id); } catch (...) { *out += "X?;"; } }
  void set_error(int e) noexcept { *out += sfmt("E i%d;", e); } void set_error(const Boom& b) noexcept { *out += "E" + one(b) + ";"; }
  void set_stopped() noexcept { *out += "S;"; } };
vs::Case make_results(vs::Gen& g) {
  struct Q { int kind, armed, what; bool deferred; } q; q.kind = (int) g.below(8); q.armed = (int) g.below(3); q.deferred = g.chance(50); q.what = (int) g.below(3);
  static const char* K[] = {"value(T,int)", "value(int,T,T)", "value(T)", "value(int)", "value()", "error(T)", "error(int)", "stopped"}; static const char* W[] = {"start before", "start after", "drop"};
  vs::Case c; c.desc = sfmt("spawn_future %s%s%s, %s completion", K[q.kind], q.armed ? sfmt(" copy of value %d throws", q.armed).c_str() : "", q.deferred ? " deferred" : "", W[q.what]);
  c.body = [q] {
    std::string out; MCtl ctl; ctl.kind = q.kind; ctl.armed = q.armed; ctl.deferred = q.deferred; ex::counting_scope scope;
    bool hasA = q.kind <= 2 || q.kind == 5, hasB = q.kind == 1, thr = (q.armed == 1 && hasA) || (q.armed == 2 && hasB); static const char* OK[] = {"V b5 i9;", "V i8 b5 b6;", "V b5;", "V i7;", "V;", "E b5;", "E i4;", "S;"};
    {
      auto f = std::make_unique<decltype(ex::spawn_future(MSnd{&ctl}, scope.get_token()))>(ex::spawn_future(MSnd{&ctl}, scope.get_token()));
      auto go = [&] { if (auto* o = ctl.slot.exchange(nullptr)) o->go(); };
      if (q.what == 1) go();
      std::thread t; if (q.what == 0 && q.deferred) t = std::thread(go);
      if (q.what == 2) { f.reset(); go(); }
      else { { auto op = ex::connect(std::move(*f), MRcv{&out}); f.reset(); ex::start(op); if (t.joinable()) t.join(); } }
    }
    ex::sync_wait(scope.join());
    std::string want = q.what == 2 ? "" : thr ? sfmt("X%d;", q.armed == 1 ? 5 : 6) : OK[q.kind];
    if (out != want) vs::fail("the future delivered '%s' instead of '%s'", out.c_str(), want.c_str());
    VS_ASSERT(ctl.live.get() == 0, "stored results leaked"); vs::nontrivial(true); if (thr) vs::label("copy throws");
  };
  return c;
}
}
int main(int argc, char** argv) { return vs::run_main(argc, argv, {{"spawn", make, 4}, {"results", make_results, 1}}); }
