// C06: environments built with write_env / make_env / without and read with read_env / read_with_default; attributes from write_attrs.
#include "vs_senders.hpp"
#include <exec/env.hpp>
namespace {
template <int N> struct Q { constexpr auto query(ex::forwarding_query_t) const noexcept { return true; } template <class E> requires requires(const E& e, const Q& q) { e.query(q); } constexpr int operator()(const E& e) const noexcept { return e.query(*this); } };
using Q0 = Q<0>; using Q1 = Q<1>;
enum { WRITE, WRITE2, ATTRS, THEN, KINDS }; constexpr int DEPTH = 3;
struct Layer { int kind, a, b; };
struct P { Layer l[DEPTH]; int rk, a, b; bool swap; };
// the model: what the environment beneath layers [0, d) answers (-1: nothing), and the attributes of the sender
struct Model { int q[2] = {-1, -1}; int attr = -1; };
// the probe at the leaf: both queries with a default, and one through read_env
struct Probe {
  using sender_concept = ex::sender_t;
  template <class, class Env> static consteval auto get_completion_signatures() { return ex::completion_signatures<ex::set_value_t(int)>(); }
  template <class R> struct Op { R r; void start() & noexcept { auto&& e = ex::get_env(r); using E = decltype(e); int v = -1; if constexpr (requires(E x) { Q0()(x); }) v = Q0()(e); else if constexpr (requires(E x) { Q1()(x); }) v = Q1()(e); ex::set_value(std::move(r), std::move(v)); } };
  template <class R> auto connect(R r) const { return Op<R>{std::move(r)}; }
};
inline auto leaf() { return ex::let_value(exec::read_with_default(Q0(), -1), [](int a) noexcept { return ex::let_value(exec::read_with_default(Q1(), -1), [a](int b) noexcept { return ex::then(Probe{}, [a, b](int c) noexcept { return (a + 1) * 1000000 + (b + 1) * 1000 + (c + 1); }); }); }); }
// layers are applied from the innermost (DEPTH - 1) out: inner environments win, and outer attributes
template <int D, class S, class F> void wrap(S s, const P& p, F f) {
  if constexpr (D < 0) f(std::move(s));
  else {
    const Layer& l = p.l[D];
    switch (l.kind) {
    case WRITE: wrap<D - 1>(ex::write_env(std::move(s), ex::prop{Q0(), l.a}), p, f); break;
    case WRITE2: if (p.swap) wrap<D - 1>(ex::write_env(std::move(s), exec::make_env(ex::prop{Q1(), 7}, ex::prop{Q1(), l.b})), p, f); else wrap<D - 1>(ex::write_env(std::move(s), ex::env{ex::prop{Q1(), l.b}, ex::prop{Q1(), 7}}), p, f); break;
    case ATTRS: wrap<D - 1>(exec::write_attrs(std::move(s), ex::prop{Q0(), l.a}), p, f); break;
    default: wrap<D - 1>(ex::then(std::move(s), [](auto x) noexcept { return x; }), p, f); break;
    }
  }
}
template <class Env> struct FRcv { using receiver_concept = ex::receiver_t; Env env; int* out; ghost<int>* n; const Env& get_env() const noexcept { return env; } void set_value(int x) noexcept { n->add(1); *out = x; } template <class E> void set_error(E&&) noexcept { vs::fail("an environment read failed"); } void set_stopped() noexcept { vs::fail("an environment read was stopped"); } };
template <class Env> void run(const P& p, Env env, int q0, int q1) {
  Model m; m.q[0] = q0; m.q[1] = q1;
  for (int d = 0; d < DEPTH; d++) { if (p.l[d].kind == WRITE) m.q[0] = p.l[d].a; if (p.l[d].kind == WRITE2) m.q[1] = p.l[d].b; }
  for (int d = 0; d < DEPTH; d++) if (p.l[d].kind == ATTRS) { m.attr = p.l[d].a; break; }
  wrap<DEPTH - 1>(leaf(), p, [&](auto s) {
    if (m.attr >= 0) { if constexpr (requires { Q0()(ex::get_env(s)); }) { if (Q0()(ex::get_env(s)) != m.attr) vs::fail("the sender's attribute is %d, written was %d", Q0()(ex::get_env(s)), m.attr); } else vs::fail("an attribute written by write_attrs is not visible"); }
    else if constexpr (requires { Q0()(ex::get_env(s)); }) vs::fail("the sender has an attribute nobody wrote");
    int out = -1; ghost<int> n; auto op = ex::connect(std::move(s), FRcv<Env>{env, &out, &n}); ex::start(op);
    VS_ASSERT(n.get() == 1, "not completed exactly once");
    int c = m.q[0] >= 0 ? m.q[0] : m.q[1], want = (m.q[0] + 1) * 1000000 + (m.q[1] + 1) * 1000 + c + 1;
    if (out != want) vs::fail("queries at the leaf gave %d/%d (env: %d), expected %d/%d", out / 1000000 - 1, out / 1000 % 1000 - 1, out % 1000 - 1, m.q[0], m.q[1]);
  });
  vs::label(m.attr >= 0 ? "attribute" : "no attribute");
}
vs::Case make(vs::Gen& g) {
  P p; for (auto& l : p.l) l = {(int) g.below(KINDS), g.range(10, 99), g.range(10, 99)}; p.rk = (int) g.below(4); p.a = g.range(100, 199); p.b = g.range(100, 199); p.swap = g.chance(50);
  static const char* kn[] = {"write_env(Q0)", "write_env(Q1)", "write_attrs(Q0)", "then"}; static const char* rn[] = {"empty", "Q0", "Q0+Q1", "Q0+Q1 without Q0"};
  vs::Case c; c.desc = sfmt("receiver %s:", rn[p.rk]); for (auto& l : p.l) c.desc += sfmt(" %s=%d", kn[l.kind], l.kind == WRITE2 ? l.b : l.a);
  c.body = [p] {
    auto both = exec::make_env(ex::prop{Q0(), p.a}, ex::prop{Q1(), p.b});
    switch (p.rk) {
    case 0: run(p, ex::env<>(), -1, -1); break;
    case 1: run(p, ex::prop{Q0(), p.a}, p.a, -1); break;
    case 2: run(p, exec::make_env(both, ex::prop{Q0(), p.a + 500}), p.a + 500, p.b); break;
    default: run(p, exec::without(both, Q0()), -1, p.b); break;
    }
  };
  return c;
}
}
int main(int argc, char** argv) { return vs::run_main(argc, argv, {{"env", make}}); }
