// C05: when_all / when_all_with_variant under every explored interleaving.
#include "vs_senders.hpp"
namespace {
struct Params {
  int n, kind, workers, stop; bool destroy_in_completion, source_dies; std::vector<ChildSpec> c; std::vector<int> w; bool nested;
};
template <class S> void drive(const Params& p, S s, std::vector<Ledger>& L, Result& R) {
  auto srcp = std::make_unique<ex::inplace_stop_source>(); auto& src = *srcp;
  auto* box = make_op(std::move(s), Rcv<>{&R, src.get_token()});
  if (p.destroy_in_completion) R.after = [box] { delete box; };
  R.on_done = [&] {
    for (int i = 0; i < p.n; i++) {
      VS_ASSERT(L[i].started.get() == 1, "when_all completed but a child was never started");
      VS_ASSERT(L[i].completed.get() == 1, "when_all completed before a child had completed");
    }
    if (p.source_dies) srcp.reset(); // a receiver's stop token need not outlive the completion
  };
  std::vector<std::function<void()>> fs;
  fs.push_back([&] { ex::start(box->op); });
  if (p.stop == 1) fs.push_back([&] { src.request_stop(); });
  if (p.stop == 2) src.request_stop();
  vs_threads(std::move(fs));
  R.wait();
  if (!p.destroy_in_completion) delete box;
}
void check(const Params& p, std::vector<Ledger>& L, Result& R, bool stop_requested) {
  VS_ASSERT(R.count.get() == 1);
  int nerr = 0, nstop = 0; for (int i = 0; i < p.n; i++) { VS_ASSERT(L[i].completed.get() == 1); VS_ASSERT(L[i].destroyed.get() == 1); nerr += L[i].chan.get() == CH_ERROR; nstop += L[i].chan.get() == CH_STOPPED; }
  int ch = R.chan.get();
  if (nerr) {
    VS_ASSERT(ch == CH_ERROR, "a child failed but when_all did not complete with set_error");
    int k = R.err.get(); VS_ASSERT(k >= 0 && k < p.n && L[k].chan.get() == CH_ERROR, "the error is not one of the children's errors");
    // no other child's error may have been completely reported before the winner began reporting
    bool flat = p.nested == false && (p.kind < 2 || p.n == 2); // a nested when_all reports only when it completes
    if (flat) for (int i = 0; i < p.n; i++) if (i != k && L[i].chan.get() == CH_ERROR) VS_ASSERT(!(L[i].end_at.get() < L[k].begin_at.get()), "a later error was delivered instead of the first one reported");
    vs::label("error");
  } else if (nstop) {
    VS_ASSERT(ch == CH_STOPPED, "a child was stopped (no error) but when_all did not complete with set_stopped"); vs::label("stopped");
  } else if (ch == CH_STOPPED) {
    VS_ASSERT(stop_requested, "set_stopped although every child succeeded and nobody requested stop"); vs::label("stopped-by-request");
  } else {
    VS_ASSERT(ch == CH_VALUE, "every child succeeded but when_all did not complete with set_value");
    VS_ASSERT((int) R.vals.size() == p.n, "wrong number of values");
    for (int i = 0; i < p.n; i++) VS_ASSERT(R.vals[i] == i, "values are not the in-order concatenation of the children's values");
    vs::label("value");
  }
  // the first failure or stop requests stop: a stoppable child that started after another child's failure was
  // completely reported must have seen the request when it started. (Not asserted when an outer stop request runs
  // concurrently: that request may have claimed the duty of forwarding the stop and not have reached the children yet.)
  bool flat = p.kind < 2 || p.n == 2;
  // Only asserted when both happen on one thread (otherwise nothing orders the two). Likewise only the first failing child owns that duty, so it is asserted for failures that precede all others.
  if (flat && p.stop != 1) for (int i = 0; i < p.n; i++) if (L[i].chan.get() != CH_VALUE) {
    bool first = true; for (int k = 0; k < p.n; k++) if (k != i && L[k].chan.get() != CH_VALUE && L[k].begin_at.get() < L[i].end_at.get()) first = false;
    if (first) for (int j = 0; j < p.n; j++) if (j != i && L[i].end_at.get() < L[j].begin_at.get() && L[i].end_tid.get() == L[j].begin_tid.get()) VS_ASSERT(L[j].stop_at_start.get(), "a child started after another child had failed did not see a stop request");
  }
}
ex::sender auto mk1(std::vector<Child>& c) { return ex::when_all(c[0]); }

vs::Case make(vs::Gen& g) {
  Params p; p.n = g.range(2, 4); p.kind = (int) g.below(4); p.workers = g.range(1, 3);
  p.stop = (int) g.below(3); p.destroy_in_completion = g.chance(50); p.source_dies = p.stop != 1 && g.chance(30); p.nested = false;
  bool wait_ok = p.stop != 0;
  for (int i = 0; i < p.n; i++) { p.c.push_back(gen_child(g, i, wait_ok)); p.w.push_back((int) g.below(p.workers)); }
  vs::Case cs; cs.desc = sfmt("kind=%d n=%d workers=%d stop=%s%s:", p.kind, p.n, p.workers, p.stop == 0 ? "no" : p.stop == 1 ? "concurrent" : "before", p.destroy_in_completion ? " destroy-in-completion" : "") + (p.source_dies ? " source-dies-in-completion" : "");
  for (int i = 0; i < p.n; i++) cs.desc += " " + show(p.c[i]) + sfmt("@%d", p.w[i]);
  cs.body = [p] {
    std::vector<Ledger> L(p.n); std::vector<std::unique_ptr<Worker>> ws; for (int i = 0; i < p.workers; i++) ws.push_back(std::make_unique<Worker>());
    Result R;
    std::vector<Child> c; for (int i = 0; i < p.n; i++) c.push_back(Child{p.c[i], &L[i], ws[p.w[i]].get()});
    auto go = [&](auto s) { drive(p, std::move(s), L, R); };
    switch (p.kind * 4 + p.n) {
      case 2: case 4 * 2 + 2: go(ex::when_all(c[0], c[1])); break;
      case 3: go(ex::when_all(c[0], c[1], c[2])); break;
      case 4: go(ex::when_all(c[0], c[1], c[2], c[3])); break;
      case 4 + 2: go(ex::when_all_with_variant(c[0], c[1])); break;
      case 4 + 3: go(ex::when_all_with_variant(c[0], c[1], c[2])); break;
      case 4 + 4: go(ex::when_all_with_variant(c[0], c[1], c[2], c[3])); break;
      case 8 + 3: go(ex::when_all(ex::when_all(c[0], c[1]), c[2])); break;
      case 8 + 4: go(ex::when_all(ex::when_all(c[0], c[1]), ex::when_all(c[2], c[3]))); break;
      case 12 + 2: go(ex::when_all(ex::then(c[0], [](int x) { return x; }), ex::let_value(c[1], [](int& x) { return ex::just(x); }))); break;
      case 12 + 3: go(ex::when_all(c[0], ex::when_all(c[1], c[2]))); break;
      case 12 + 4: go(ex::when_all(c[0], ex::when_all(c[1], ex::when_all(c[2], c[3])))); break;
    }
    for (auto& w : ws) w->close();
    check(p, L, R, p.stop != 0);
  };
  return cs;
}
// children that can only succeed or only fail, or never stop: other branches of the completion computation
template <int Sig> struct NChild {
  using sender_concept = ex::sender_t;
  using completion_signatures = std::conditional_t<Sig == 0, ex::completion_signatures<ex::set_value_t(int)>, std::conditional_t<Sig == 1, ex::completion_signatures<ex::set_value_t(int), ex::set_error_t(VErr)>, ex::completion_signatures<ex::set_value_t(int), ex::set_stopped_t()>>>;
  ChildSpec c; Ledger* L; Worker* w;
  template <class R> struct Fwd { using receiver_concept = ex::receiver_t; R r; auto get_env() const noexcept { return ex::get_env(r); }
    void set_value(int i) noexcept { ex::set_value(std::move(r), int(i)); }
    void set_error(VErr e) noexcept { if constexpr (Sig == 1) ex::set_error(std::move(r), std::move(e)); else std::terminate(); }
    void set_stopped() noexcept { if constexpr (Sig == 2) ex::set_stopped(std::move(r)); else std::terminate(); } };
  template <class R> auto connect(R r) const { return ChildOp<Fwd<R>>(c, L, w, Fwd<R>{std::move(r)}); }
};
vs::Case make_narrow(vs::Gen& g) {
  Params p; p.n = 2; p.kind = (int) g.below(5); p.workers = g.range(1, 2); p.stop = (int) g.below(3); p.destroy_in_completion = g.chance(50); p.source_dies = p.stop != 1 && g.chance(30);
  static const int sig[5][2] = {{0, 0}, {0, 1}, {1, 1}, {0, 2}, {1, 2}};
  for (int i = 0; i < 2; i++) { ChildSpec c; int s = sig[p.kind][i]; c.val = i; c.mode = g.chance(80) ? M_WORKER : M_INLINE; c.chan = s == 0 || g.chance(50) ? CH_VALUE : s == 1 ? CH_ERROR : CH_STOPPED; c.stoppable = s == 2 && g.chance(50); p.c.push_back(c); p.w.push_back((int) g.below(p.workers)); }
  vs::Case cs; cs.desc = sfmt("signature-kind=%d workers=%d stop=%s%s: %s %s", p.kind, p.workers, p.stop == 0 ? "no" : p.stop == 1 ? "concurrent" : "before", (std::string(p.destroy_in_completion ? " destroy-in-completion" : "") + (p.source_dies ? " source-dies-in-completion" : "")).c_str(), show(p.c[0]).c_str(), show(p.c[1]).c_str());
  cs.body = [p] {
    std::vector<Ledger> L(p.n); std::vector<std::unique_ptr<Worker>> ws; for (int i = 0; i < p.workers; i++) ws.push_back(std::make_unique<Worker>());
    Result R;
    auto go = [&](auto s) { drive(p, std::move(s), L, R); };
    auto C = [&]<int S>(std::integral_constant<int, S>, int i) { return NChild<S>{p.c[i], &L[i], ws[p.w[i]].get()}; };
    std::integral_constant<int, 0> s0; std::integral_constant<int, 1> s1; std::integral_constant<int, 2> s2;
    switch (p.kind) {
      case 0: go(ex::when_all(C(s0, 0), C(s0, 1))); break;
      case 1: go(ex::when_all(C(s0, 0), C(s1, 1))); break;
      case 2: go(ex::when_all(C(s1, 0), C(s1, 1))); break;
      case 3: go(ex::when_all(C(s0, 0), C(s2, 1))); break;
      case 4: go(ex::when_all(C(s1, 0), C(s2, 1))); break;
    }
    for (auto& w : ws) w->close();
    check(p, L, R, p.stop != 0);
    if (p.kind < 3) VS_ASSERT(R.chan.get() != CH_STOPPED, "set_stopped although no child can be stopped");
  };
  return cs;
}
}
int main(int argc, char** argv) { return vs::run_main(argc, argv, {{"when_all", make, 3}, {"narrow", make_narrow, 1}}); }
