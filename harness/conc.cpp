// C01 / C06 / C25: adaptors whose children complete on several threads, with concurrent stop requests. Every pipeline's
// result is a function of what its children did, so the interleaving never matters to the oracle.
#include "vs_senders.hpp"
#include <exec/when_any.hpp>
#include <exec/sequence.hpp>
#include <exec/finally.hpp>
#include <exec/repeat_until.hpp>
#include <exec/unless_stop_requested.hpp>
#include <exec/fork_join.hpp>
#include <exec/any_sender_of.hpp>
#include <exec/variant_sender.hpp>
#include <exec/materialize.hpp>
namespace {
// ---- a scheduler onto a Worker, with a ledger ----
struct WSched {
  using scheduler_concept = ex::scheduler_t;
  ChildSpec c; Ledger* L; Worker* w;
  bool operator==(const WSched& o) const noexcept { return w == o.w; }
  template <class R> struct Fwd { using receiver_concept = ex::receiver_t; R r; auto get_env() const noexcept { return ex::get_env(r); }
    void set_value(int) noexcept { ex::set_value(std::move(r)); }
    void set_error(VErr e) noexcept { ex::set_error(std::move(r), std::move(e)); }
    void set_stopped() noexcept { ex::set_stopped(std::move(r)); } };
  struct Env; struct Sndr;
  Sndr schedule() const noexcept;
};
struct WSched::Env { ChildSpec c; Ledger* L; Worker* w; template <class T, class... E> requires (!std::same_as<T, ex::set_error_t>) WSched query(ex::get_completion_scheduler_t<T>, const E&...) const noexcept { return {c, L, w}; } };
struct WSched::Sndr {
  using sender_concept = ex::sender_t;
  using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_error_t(VErr), ex::set_stopped_t()>;
  ChildSpec c; Ledger* L; Worker* w;
  template <class R> auto connect(R r) const { return ChildOp<Fwd<R>>(c, L, w, Fwd<R>{std::move(r)}); }
  Env get_env() const noexcept { return {c, L, w}; }
};
WSched::Sndr WSched::schedule() const noexcept { return {c, L, w}; }

enum Pipe { P_LETV, P_LETE, P_LETS, P_SEQ, P_FIN, P_CONT, P_STARTSON, P_STOPWHEN, P_ANY2, P_ANY3, P_REPEAT, P_UNLESS, P_FORK, P_ERASE, P_ERASE_FUSED, P_ANYLET, P_ANYALL, P_LETANY, P_SWANY, P_MAT, P_CONTANY, P_STOPSTOP, P_N };
const char* PN[] = {"let_value", "let_error", "let_stopped", "sequence", "finally", "continues_on", "starts_on", "stop_when", "when_any2", "when_any3", "repeat_until", "unless_stop_requested", "fork_join", "any_sender", "any_sender under stop_when", "when_any(let_value, c)", "when_any(when_all, c)", "let_value(when_any)", "stop_when(when_any)", "dematerialize(materialize)", "continues_on(when_any)", "stop_when(stop_when)"};
struct Params { int pipe, workers, stop, stop2, rounds; bool destroy, dies; std::vector<ChildSpec> c; std::vector<int> w; };
struct Out { int chan = -1; std::vector<int> vals; int err = -1; bool started = true; };
// the other ways a child can be driven in the model
struct M {
  const Params& p; std::vector<Ledger>& L; bool used[4] = {};
  Out r(int i) { used[i] = true; Out o; o.started = L[i].started.get() > 0; o.chan = L[i].chan.get(); if (o.chan == CH_VALUE) o.vals = {p.c[i].val}; if (o.chan == CH_ERROR) o.err = p.c[i].val; return o; }
  Out v(int i) { Out o = r(i); o.vals.clear(); return o; }
};
bool same(const Out& a, const Out& b) { return a.chan == b.chan && a.vals == b.vals && a.err == b.err; }
std::string show(const Out& o) { std::string s = o.chan == CH_VALUE ? "value(" : o.chan == CH_ERROR ? "error(" : o.chan == CH_STOPPED ? "stopped(" : "none("; for (int x : o.vals) s += sfmt("%d ", x); if (o.chan == CH_ERROR) s += sfmt("%d", o.err); return s + ")"; }

template <class S, class Tok> void drive(const Params& p, S s, std::vector<Ledger>& L, Result& R, Tok tok, std::unique_ptr<ex::inplace_stop_source>& src, std::unique_ptr<ex::inplace_stop_source>& src2, M& m) {
  auto* box = make_op(std::move(s), Rcv<Tok>{&R, tok});
  if (p.destroy) R.after = [box] { delete box; };
  R.on_done = [&] {
    for (size_t i = 0; i < L.size(); i++) VS_ASSERT(L[i].completed.get() == L[i].started.get(), "the operation completed while a child it had started was still running");
    if (p.dies) { src.reset(); src2.reset(); } // stop tokens need not outlive the completion
  };
  for (auto& l : L) VS_ASSERT(l.started.get() == 0, "connect started a child");
  std::vector<std::function<void()>> fs;
  fs.push_back([&] { ex::start(box->op); });
  if (p.stop == 1) fs.push_back([&] { src->request_stop(); });
  if (p.stop == 2) src->request_stop();
  if (p.stop2 == 1) fs.push_back([&] { src2->request_stop(); });
  if (p.stop2 == 2) src2->request_stop();
  vs_threads(std::move(fs));
  R.wait();
  if (!p.destroy) delete box;
  (void) m;
}
// when_any over the outcomes of its children, given the interval in which each child delivered
void want_any(const Params& p, std::vector<Ledger>& L, std::vector<std::vector<int>> last, std::vector<Out> o, const Out& got, bool stop) {
  bool none = true, all = true;
  for (auto& x : o) { none &= !x.started; all &= x.started; }
  if (!all) { VS_ASSERT(none && stop, "when_any started some of its children only"); VS_ASSERT(got.chan == CH_STOPPED, "when_any, stopped before it started its children, did not complete with set_stopped"); vs::label("any-stopped-early"); return; }
  if (got.chan == CH_STOPPED && stop) { vs::label("any-stopped"); return; }
  bool ok = false;
  for (size_t i = 0; i < o.size(); i++) if (same(o[i], got)) {
    bool first = true; // no other child may have completely delivered before this one began to deliver
    for (size_t k = 0; k < o.size(); k++) if (k != i) { long e = 0, b = 0; for (int x : last[k]) e = std::max(e, L[x].end_at.get()); for (int x : last[i]) b = std::max(b, L[x].rep_at.get()); if (e < b) first = false; }
    if (first) ok = true;
  }
  if (!ok) { std::string s; for (auto& x : o) s += " " + show(x); vs::fail("when_any delivered %s, children completed with%s: not the first completion", show(got).c_str(), s.c_str()); }
  vs::label("any-first"); (void) p;
}

vs::Case make(vs::Gen& g, std::vector<int> pipes) {
  Params p; p.pipe = pipes[g.below((uint32_t) pipes.size())]; p.workers = g.range(1, 3); p.stop = (int) g.below(3); p.stop2 = (int) g.below(3); p.rounds = g.range(1, 3);
  p.destroy = g.chance(50);
  bool two = p.pipe == P_STOPWHEN || p.pipe == P_SWANY || p.pipe == P_STOPSTOP || p.pipe == P_ERASE_FUSED;
  if (!two) p.stop2 = 0;
  p.dies = p.stop != 1 && p.stop2 != 1 && g.chance(30);
  bool wait_ok = p.stop != 0 || p.stop2 != 0;
  if (p.pipe == P_ERASE_FUSED || p.pipe == P_ERASE) wait_ok = p.stop != 0 || p.stop2 != 0;
  bool any = p.pipe == P_ANY2 || p.pipe == P_ANY3 || p.pipe == P_ANYLET || p.pipe == P_ANYALL || p.pipe == P_LETANY || p.pipe == P_SWANY || p.pipe == P_CONTANY;
  for (int i = 0; i < 4; i++) { p.c.push_back(gen_child(g, i, wait_ok || (any && i == 1))); p.w.push_back((int) g.below(p.workers)); }
  if (p.pipe == P_ANYLET && !wait_ok) p.c[1].mode = M_WORKER; // both arms could wait for a stop that nobody requests
  if (p.pipe == P_CONTANY && !wait_ok && p.c[2].mode == M_WAITSTOP) p.c[2].mode = M_WORKER;
  vs::Case cs; cs.desc = sfmt("%s workers=%d stop=%d stop2=%d rounds=%d%s%s:", PN[p.pipe], p.workers, p.stop, p.stop2, p.rounds, p.destroy ? " destroy-in-completion" : "", p.dies ? " sources-die-in-completion" : "");
  for (int i = 0; i < 4; i++) cs.desc += " " + ::show(p.c[i]) + sfmt("@%d", p.w[i]);
  cs.body = [p] {
    std::vector<Ledger> L(4); std::vector<std::unique_ptr<Worker>> ws; for (int i = 0; i < p.workers; i++) ws.push_back(std::make_unique<Worker>());
    Result R; M m{p, L};
    auto src = std::make_unique<ex::inplace_stop_source>(), src2 = std::make_unique<ex::inplace_stop_source>();
    std::vector<Child> c; for (int i = 0; i < 4; i++) c.push_back(Child{p.c[i], &L[i], ws[p.w[i]].get()});
    auto sched = [&](int i) { return WSched{p.c[i], &L[i], ws[p.w[i]].get()}; };
    auto nil = ex::then([](int) {});
    int rounds = 0;
    auto go = [&](auto s) { drive(p, std::move(s), L, R, src->get_token(), src, src2, m); };
    auto TKf = [&] { return src2->get_token(); };
    bool stop = p.stop != 0, stop_any = stop || p.stop2 != 0;
    using Sigs = ex::completion_signatures<ex::set_value_t(int), ex::set_error_t(VErr), ex::set_stopped_t()>;
    using AnyS = exec::any_sender<exec::any_receiver<Sigs, exec::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept>>>;
    switch (p.pipe) {
      case P_LETV: go(ex::let_value(c[0], [&](int&) { return c[1]; })); break;
      case P_LETE: go(ex::let_error(c[0], [&](auto&&) { return c[1]; })); break;
      case P_LETS: go(ex::let_stopped(c[0], [&] { return c[1]; })); break;
      case P_SEQ: go(exec::sequence(c[0] | nil, c[1] | nil, c[2])); break;
      case P_FIN: go(exec::finally(c[0], c[1] | nil)); break;
      case P_CONT: go(ex::continues_on(c[0], sched(1))); break;
      case P_STARTSON: go(ex::starts_on(sched(0), c[1])); break;
      case P_STOPWHEN: go(ex::__stop_when(c[0], TKf())); break;
      case P_ANY2: go(exec::when_any(c[0], c[1])); break;
      case P_ANY3: go(exec::when_any(c[0], c[1], c[2])); break;
      case P_REPEAT: go(exec::repeat_until(c[0] | ex::then([&](int) { return ++rounds >= p.rounds; }))); break;
      case P_UNLESS: go(exec::unless_stop_requested(c[0])); break;
      case P_FORK: go(exec::fork_join(c[0], ex::let_value([&](const int&) { return c[1]; }), ex::let_value([&](const int&) { return c[2]; }))); break;
      case P_ERASE: go(AnyS(c[0])); break;
      case P_ERASE_FUSED: go(ex::__stop_when(AnyS(c[0]), TKf())); break;
      case P_ANYLET: go(exec::when_any(ex::let_value(c[0], [&](int&) { return c[1]; }), c[2])); break;
      case P_ANYALL: go(exec::when_any(ex::when_all(c[0], c[1]) | ex::then([](int a, int) { return a; }), c[2])); break;
      case P_LETANY: go(ex::let_value(exec::when_any(c[0], c[1]), [&](int&) { return c[2]; })); break;
      case P_SWANY: go(ex::__stop_when(exec::when_any(c[0], c[1]), TKf())); break;
      case P_MAT: go(exec::dematerialize(exec::materialize(c[0]))); break;
      case P_CONTANY: go(ex::continues_on(exec::when_any(c[0], c[1]), sched(2))); break;
      case P_STOPSTOP: go(ex::__stop_when(ex::__stop_when(c[0], TKf()), TKf())); break;
    }
    for (auto& w : ws) w->close();
    VS_ASSERT(R.count.get() == 1, "the operation did not complete exactly once");
    Out got; got.chan = R.chan.get(); got.vals = R.vals; if (got.chan == CH_ERROR) got.err = R.err.get();
    Out want; bool decided = true;
    auto then = [&](Out a, auto f) { return a.chan == CH_VALUE ? f() : a; };
    switch (p.pipe) {
      case P_LETV: want = then(m.r(0), [&] { return m.r(1); }); break;
      case P_LETE: want = m.r(0); if (want.chan == CH_ERROR) want = m.r(1); break;
      case P_LETS: want = m.r(0); if (want.chan == CH_STOPPED) want = m.r(1); break;
      case P_SEQ: want = then(m.v(0), [&] { return then(m.v(1), [&] { return m.r(2); }); }); break;
      case P_FIN: { Out a = m.r(0), b = m.r(1); want = b.chan == CH_VALUE ? a : b; break; }
      case P_CONT: { Out a = m.r(0), b = m.v(1); want = b.chan == CH_VALUE ? a : b; break; }
      case P_STARTSON: want = then(m.v(0), [&] { return m.r(1); }); break;
      case P_STOPWHEN: case P_MAT: case P_ERASE: case P_ERASE_FUSED: case P_STOPSTOP: want = m.r(0); break;
      case P_REPEAT: { want = m.v(0); if (stop && got.chan == CH_STOPPED) { want = got; decided = false; } /* it also looks at the token between rounds */ if (got.chan == CH_VALUE) VS_ASSERT(rounds == p.rounds && L[0].started.get() == p.rounds, "repeat_until ran the wrong number of rounds"); break; }
      case P_UNLESS:
        if (L[0].started.get()) want = m.r(0); else { VS_ASSERT(stop && got.chan == CH_STOPPED, "unless_stop_requested did not start its child although nobody requested stop"); want.chan = CH_STOPPED; m.used[0] = false; }
        if (p.stop == 2) VS_ASSERT(!L[0].started.get(), "unless_stop_requested started its child although stop was requested");
        break;
      case P_FORK: { want = m.r(0); if (want.chan != CH_VALUE) break;
        if (stop && !L[1].started.get() && !L[2].started.get()) { want = {CH_STOPPED, {}, -1}; break; }
        Out a = m.r(1), b = m.r(2);
        if (a.chan == CH_ERROR || b.chan == CH_ERROR) { want.chan = CH_ERROR; want.vals.clear(); want.err = got.err; VS_ASSERT((a.chan == CH_ERROR && got.err == a.err) || (b.chan == CH_ERROR && got.err == b.err) || got.chan != CH_ERROR, "fork_join delivered an error no branch produced"); }
        else if (a.chan == CH_STOPPED || b.chan == CH_STOPPED) want = {CH_STOPPED, {}, -1};
        else if (stop && got.chan == CH_STOPPED) want = {CH_STOPPED, {}, -1};
        else want = {CH_VALUE, {p.c[1].val, p.c[2].val}, -1};
        break; }
      case P_ANY2: case P_SWANY: want_any(p, L, {{0}, {1}}, {m.r(0), m.r(1)}, got, stop_any); decided = false; break;
      case P_ANY3: want_any(p, L, {{0}, {1}, {2}}, {m.r(0), m.r(1), m.r(2)}, got, stop); decided = false; break;
      case P_ANYLET: { Out a = m.r(0); bool second = a.started && a.chan == CH_VALUE; if (second) a = m.r(1); want_any(p, L, {second ? std::vector<int>{0, 1} : std::vector<int>{0}, {2}}, {a, m.r(2)}, got, stop); decided = false; break; }
      case P_ANYALL: { Out a = m.r(0), b = m.r(1), x = m.r(2); decided = false;
        if (!a.started || !b.started || !x.started) { VS_ASSERT((stop || x.started) && a.started == b.started, "when_all started one child only"); if (!a.started && !x.started) { VS_ASSERT(got.chan == CH_STOPPED, "stopped before the children were started, but not set_stopped"); break; } }
        // the when_all arm: error if one failed, stopped if one was stopped (or it was itself stopped), else a's value
        std::vector<Out> arms; if (a.chan == CH_ERROR) arms.push_back({CH_ERROR, {}, a.err}); if (b.chan == CH_ERROR) arms.push_back({CH_ERROR, {}, b.err});
        if (arms.empty()) { if (a.chan != CH_VALUE || b.chan != CH_VALUE) arms.push_back({CH_STOPPED, {}, -1}); else { arms.push_back({CH_VALUE, {p.c[0].val}, -1}); arms.push_back({CH_STOPPED, {}, -1}); } }
        arms.push_back(x); if (stop) arms.push_back({CH_STOPPED, {}, -1});
        bool ok = false; for (auto& o : arms) ok |= same(o, got); VS_ASSERT(ok, "when_any(when_all, c) delivered a result neither arm produced"); break; }
      case P_LETANY: { Out a = m.r(0), b = m.r(1); decided = false;
        if (L[2].started.get()) { VS_ASSERT(a.chan == CH_VALUE || b.chan == CH_VALUE, "let_value ran its function although no child of when_any succeeded"); want = m.r(2); decided = true; }
        else { VS_ASSERT(got.chan != CH_VALUE, "a value without the second stage"); VS_ASSERT(same(a, got) || same(b, got) || (stop && got.chan == CH_STOPPED), "an error or stopped result that when_any did not produce"); }
        break; }
      case P_CONTANY: { Out a = m.r(0), b = m.r(1), s = m.v(2); decided = false;
        if (s.chan != CH_VALUE) { VS_ASSERT(same(s, got), "the transfer failed but its failure was not delivered"); break; }
        if (same(a, got) || same(b, got) || (stop && got.chan == CH_STOPPED)) break;
        VS_ASSERT(false, "a result that when_any did not produce"); break; }
    }
    if (decided && !same(want, got)) vs::fail("%s delivered %s, expected %s", PN[p.pipe], show(got).c_str(), show(want).c_str());
    // exactly the children the result needed were started, and each operation was destroyed
    for (int i = 0; i < 4; i++) {
      VS_ASSERT(L[i].live.get() == 0, "a child operation was never destroyed");
      if (p.pipe != P_REPEAT) VS_ASSERT(L[i].started.get() <= 1, "a child was started twice");
      if (!m.used[i]) VS_ASSERT(L[i].started.get() == 0, "a child that must not run was started");
      else if (decided) VS_ASSERT(L[i].started.get() >= 1, "a child was not started although its outcome decides the result");
    }
    // a stop that was requested before the start reaches every child (with a second, concurrent request, that one may
    // have claimed the duty of forwarding the stop and not have reached the child yet)
    if ((p.stop == 2 || p.stop2 == 2) && p.stop != 1 && p.stop2 != 1) for (int i = 0; i < 4; i++) if (L[i].started.get() == 1) VS_ASSERT(L[i].stop_at_start.get() == 1, "a stop requested before the operation was started is not visible to a child");
    // without any stop request no child may see one, unless a sibling's completion asks for it
    bool internal = p.pipe >= P_ANY2 && p.pipe != P_REPEAT && p.pipe != P_UNLESS && p.pipe != P_ERASE && p.pipe != P_ERASE_FUSED && p.pipe != P_MAT && p.pipe != P_STOPSTOP;
    if (!stop_any && !internal) for (int i = 0; i < 4; i++) VS_ASSERT(L[i].saw_stop.get() == 0 && L[i].stop_at_start.get() == 0, "a child saw a stop request that nobody made");
    if (R.chan.get() == CH_VALUE) vs::label("value"); else if (R.chan.get() == CH_ERROR) vs::label("error"); else vs::label("stopped");
  };
  return cs;
}
vs::Case make_std(vs::Gen& g) { return make(g, {P_LETV, P_LETE, P_LETS, P_CONT, P_STARTSON}); }
vs::Case make_ext(vs::Gen& g) { return make(g, {P_SEQ, P_FIN, P_ANY2, P_ANY2, P_ANY3, P_REPEAT, P_UNLESS, P_FORK, P_ANYLET, P_ANYALL, P_LETANY, P_MAT, P_CONTANY}); }
vs::Case make_stop(vs::Gen& g) { return make(g, {P_STOPWHEN, P_STOPSTOP, P_ERASE, P_ERASE_FUSED, P_SWANY, P_LETV, P_SEQ, P_FIN, P_FORK, P_CONT}); }
}
int main(int argc, char** argv) { return vs::run_main(argc, argv, {{"standard", make_std, 2}, {"extension", make_ext, 3}, {"stop", make_stop, 2}}); }
