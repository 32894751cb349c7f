#include "c29.hpp"
#include <stdexec/__detail/__optional.hpp>
#include <stdexec/__detail/__variant.hpp>
#include <stdexec/__detail/__tuple.hpp>
#include <stdexec/__detail/__static_vector.hpp>
#include <stdexec/__detail/__intrusive_ptr.hpp>
#include <stdexec/__detail/__manual_lifetime.hpp>
namespace c29 {
vs::Case make_optional(vs::Gen& g) {
  auto o = ops(g, 12, 7, 8); vs::Case c; c.desc = "optional:" + show(o);
  c.body = [o] {
    vs::nontrivial(o.size() >= 3);
    auto go = [&]<class V>() {
      begin(); { STDEXEC::__optional<V> p; bool has = false; int val = 0; int next = 1; STDEXEC::__optional<void> pv; bool hv = false;
      for (auto& x : o) { bool risky = x.c == 7; fuse() = risky ? x.a & 1 : -1; 
        try { switch (x.k) {
          case 0: { int n = next++; has = false; V& r = p.emplace(n); VS_ASSERT(r.id() == n && &r == &*p); has = true; val = n; } break;
          case 1: { int n = next++; V t(n); has = false; V& r = p.emplace(std::move(t)); VS_ASSERT(r.id() == n); has = true; val = n; } break;
          case 2: { int n = next++; has = false; p.__emplace_from([n] { return V(n); }); has = true; val = n; } break;
          case 3: p.reset(); has = false; break;
          case 4: fuse() = -1; if (has) { int n = next++; (*p).set(n); val = n; VS_ASSERT(p->id() == n); } break;
          case 5: fuse() = -1; { bool t = false; try { VS_ASSERT(p.value().id() == val); VS_ASSERT(std::as_const(p).value().id() == val); } catch (STDEXEC::__bad_optional_access&) { t = true; } VS_ASSERT(t == !has, "value() of an empty optional does not throw, or of a filled one throws"); } pv.emplace(1, 2); hv = true; break;
          case 6: fuse() = -1; { STDEXEC::__optional<V> q(std::in_place, 5); VS_ASSERT(q.has_value() && (*q).id() == 5); STDEXEC::__optional<V> e(STDEXEC::__nullopt); VS_ASSERT(!e.has_value()); V m(8); STDEXEC::__optional<V> u(std::move(m)); VS_ASSERT(u.has_value() && std::as_const(u)->id() == 8); } pv.reset(); hv = false; break;
        } } catch (Boom&) { vs::label("threw"); }
        fuse() = -1; if (p.has_value() != has) vs::fail("has_value() is %d, expected %d", p.has_value(), has); if (has) VS_ASSERT((*p).id() == val, "wrong value"); if (live() != has) vs::fail("%ld objects alive, expected %d", live(), has); VS_ASSERT(pv.has_value() == hv);
      } } end(); };
    go.template operator()<VSmall>(); go.template operator()<VThrow>(); go.template operator()<VAlign>();
  };
  return c;
}
template <class... Vs> vs::Case mkvar(vs::Gen& g, const char* nm) {
  auto o = ops(g, 14, 9, 3); vs::Case c; c.desc = std::string(nm) + ":" + show(o);
  c.body = [o] {
    begin(); vs::nontrivial(o.size() >= 3); {
    using Vt = STDEXEC::__variant<Vs...>;
    struct MM { long k = -1; int v = 0; bool moved = false; } m[3];
    std::optional<Vt> s[3]; for (auto& x : s) x.emplace(STDEXEC::__no_init); int next = 1;
    auto emp = [&]<size_t I>(Vt& t, int n, int how) { using T = typename Vt::template __at_t<I>; if (how == 0) { auto& r = t.template emplace<I>(n); VS_ASSERT(r.id() == n); } else if (how == 1) { auto& r = t.template emplace<T>(T(n)); VS_ASSERT(r.id() == n); } else { auto& r = t.__emplace_from([n] { return T(n); }); VS_ASSERT(r.id() == n); } };
    auto rd = [&](Vt& t, MM& e, int k) { long idx = t.__is_valueless() ? -1 : (long) t.index(); if (idx != e.k) vs::fail("slot %d: alternative %ld, expected %ld", k, idx, e.k); VS_ASSERT((t.index() == STDEXEC::__variant_npos) == (idx == -1)); if (idx < 0 || e.moved) return; int id = STDEXEC::__visit([](auto& x) -> int { return x.id(); }, t); if (id != e.v) vs::fail("slot %d: value %d, expected %d", k, id, e.v); long kk = STDEXEC::__visit([](const auto& x) -> int { return std::decay_t<decltype(x)>::kind_; }, std::as_const(t)); int i2 = idx == 0 ? STDEXEC::__var::__get<0>(t).id() : idx == 1 ? STDEXEC::__var::__get<1>(t).id() : STDEXEC::__var::__get<2>(t).id(); VS_ASSERT(i2 == e.v, "get<> finds another value"); (void) kk; int mv = STDEXEC::__visit([](int a, auto& x) -> int { return a + x.v; }, t, 1000); VS_ASSERT(mv == 1000 + e.v); };
    for (auto& x : o) { int i = x.a, j = x.b; bool risky = x.c == 7; fuse() = risky ? next & 1 : -1; MM old = m[i];
      try { switch (x.k) {
        case 0: case 1: case 2: { int n = next++; m[i] = {}; int which = x.b; if (which == 0) emp.template operator()<0>(*s[i], n, x.k); else if (which == 1) emp.template operator()<1>(*s[i], n, x.k); else emp.template operator()<2>(*s[i], n, x.k); m[i] = {which, n}; } break;
        case 3: if (i != j && !m[j].moved) { m[i] = {}; *s[i] = std::as_const(*s[j]); m[i] = m[j]; } break;
        case 4: if (i != j && !m[j].moved) { m[i] = {}; *s[i] = std::move(*s[j]); m[i] = m[j]; m[j].moved = m[j].k >= 0; } break;
        case 5: if (i != j && !m[j].moved) { s[i].reset(); m[i] = {}; try { s[i].emplace(std::as_const(*s[j])); } catch (...) { fuse() = -1; s[i].emplace(STDEXEC::__no_init); throw; } m[i] = m[j]; } break;
        case 6: if (i != j && !m[j].moved) { s[i].reset(); m[i] = {}; try { s[i].emplace(std::move(*s[j])); } catch (...) { fuse() = -1; s[i].emplace(STDEXEC::__no_init); throw; } m[i] = m[j]; m[j].moved = m[j].k >= 0; } break;
        case 7: if (!m[i].moved) { auto& r = *s[i]; *s[i] = std::as_const(r); if (x.c & 1) *s[i] = std::move(r); } break; // self-assignment
        case 8: fuse() = -1; if (i != j && !m[i].moved && !m[j].moved) { s[i]->swap(*s[j]); std::swap(m[i], m[j]); } break;
      } } catch (Boom&) { vs::label("threw"); }
      fuse() = -1; if (m[i].k < 0 && !s[i]->__is_valueless()) m[i] = old; // its argument could not be built
      for (int k = 0; k < 3; k++) rd(*s[k], m[k], k); long want = 0; for (auto& e : m) want += e.k >= 0; if (live() != want) vs::fail("%ld objects alive, expected %ld", live(), want);
    } }
    end();
  };
  return c;
}
vs::Case make_variant(vs::Gen& g) { return g.chance(50) ? mkvar<VSmall, VBig, VAlign>(g, "variant") : mkvar<VSmall, VThrow, VBig>(g, "variant_throw"); }
template <size_t N, class = std::make_index_sequence<N>> struct TupT; 
template <size_t> using Alt = VSmall;
template <size_t N, size_t... I> struct TupT<N, std::index_sequence<I...>> { 
  using T = STDEXEC::__tuple<std::conditional_t<I % 3 == 2, VThrow, std::conditional_t<I % 3 == 1, VAlign, VSmall>>...>;
  static void run(int base, int boom) {
    begin(); { bool thrown = false; fuse() = boom; try { T t{std::tuple_element_t<I, std::tuple<std::conditional_t<I % 3 == 2, VThrow, std::conditional_t<I % 3 == 1, VAlign, VSmall>>...>>(base + (int) I)...}; 
      auto chk = [&](auto& t, int b) { int k = 0; STDEXEC::__apply([&](auto&... x) { VS_ASSERT(sizeof...(x) == N); ((x.id() == b + k++ ? void() : vs::fail("element %d has the wrong value", k - 1)), ...); }, t); ((STDEXEC::__get<I>(t).id() == b + (int) I ? void() : vs::fail("get<%zu> finds another element", I)), ...); };
      fuse() = -1; chk(t, base); fuse() = boom; T u = t; fuse() = -1; chk(u, base); chk(t, base); std::set<const void*> addrs; STDEXEC::__apply([&](auto&... x) { (addrs.insert(&x), ...); }, t); VS_ASSERT(addrs.size() == N, "two elements share an address");
      fuse() = boom; T w = std::move(t); fuse() = -1; chk(w, base); (STDEXEC::__get<I>(w).set(base + 50 + (int) I), ...); chk(w, base + 50); chk(u, base);
      VS_ASSERT(live() == (long) (3 * N)); 
      // forwarding: rvalue apply moves, extra arguments come first
      int k = STDEXEC::__apply([](int a, auto&&... x) { int s = a; ((s += std::remove_cvref_t<decltype(x)>(static_cast<decltype(x)&&>(x)).id()), ...); return s; }, std::move(w), 7); int want = 7; ((want += base + 50 + (int) I), ...); VS_ASSERT(k == want, "apply on an rvalue passes other values"); } catch (Boom&) { thrown = true; } (void) thrown; fuse() = -1; }
    end();
  } };
vs::Case make_tuple(vs::Gen& g) {
  int n = g.range(0, 11), base = g.range(1, 100), boom = g.range(-1, 14); vs::Case c; c.desc = sfmt("tuple: size %d base %d fuse %d", n, base, boom);
  c.body = [=] { vs::nontrivial(n >= 2); switch (n) { case 0: { STDEXEC::__tuple<> t; VS_ASSERT(STDEXEC::__apply([](int a) { return a; }, t, 4) == 4); } break;
#define C(k) case k: TupT<k>::run(base, boom); break;
    C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11)
#undef C
  } };
  return c;
}
vs::Case make_svec(vs::Gen& g) {
  std::vector<int> a, b; int na = g.range(0, 5), nb = g.range(0, 3); for (int i = 0; i < na; i++) a.push_back(g.range(0, 9)); for (int i = 0; i < nb; i++) b.push_back(g.range(0, 9)); int f = g.range(0, 5), l = g.range(0, 5), rs = g.range(0, 8);
  vs::Case c; c.desc = sfmt("svec: %d+%d erase [%d,%d) resize %d", na, nb, f, l, rs);
  c.body = [=] {
    vs::nontrivial(na >= 2);
    STDEXEC::__static_vector<int, 5> x; x.resize((size_t) na); for (int i = 0; i < na; i++) x[(size_t) i] = a[(size_t) i]; STDEXEC::__static_vector<int, 3> y; y.resize((size_t) nb); for (int i = 0; i < nb; i++) y[(size_t) i] = b[(size_t) i];
    auto z = x + y; std::vector<int> r = a; r.insert(r.end(), b.begin(), b.end()); VS_ASSERT(z.size() == r.size() && std::equal(r.begin(), r.end(), z.begin(), z.end()), "concatenation"); VS_ASSERT(z.capacity() == 8);
    int lo = std::min(f, na), hi = std::min(l, na); if (lo <= hi) { auto v = a; v.erase(v.begin() + lo, v.begin() + hi); x.erase(x.begin() + lo, x.begin() + hi); VS_ASSERT(x.size() == v.size() && std::equal(v.begin(), v.end(), x.begin(), x.end()), "erase"); }
    STDEXEC::__static_vector<int, 0> e; VS_ASSERT((e + y).size() == y.size() && (y + e).size() == y.size() && e.size() == 0 && e.begin() == e.end()); auto mk = STDEXEC::__make_static_vector(1, 2, 3); VS_ASSERT(mk.size() == 3 && mk[2] == 3);
    STDEXEC::__static_vector<int, 4> il{1, 2}; VS_ASSERT(il.size() == 2 && il[1] == 2 && il.end() - il.begin() == 2);
  };
  return c;
}
struct Node : STDEXEC::__enable_intrusive_from_this<Node, 2> { VBig v; explicit Node(int x) : v(x) {} };
vs::Case make_iptr(vs::Gen& g) {
  auto o = ops(g, 18, 9, 4); vs::Case c; c.desc = "iptr:" + show(o);
  c.body = [o] {
    begin(); vs::nontrivial(o.size() >= 4); { using P = STDEXEC::__intrusive_ptr<Node, 2>; P p[4]; int m[4] = {}; int next = 1;
    for (auto& x : o) { int i = x.a, j = x.b;
      switch (x.k) {
        case 0: { bool risky = x.c == 7; fuse() = risky ? 0 : -1; int n = next++; try { p[i] = STDEXEC::__make_intrusive<Node, 2>(n); m[i] = n; } catch (Boom&) { vs::label("threw"); } fuse() = -1; } break;
        case 1: p[i] = p[j]; m[i] = m[j]; break;
        case 2: { int t = m[j]; p[i] = std::move(p[j]); if (i != j) { m[i] = t; m[j] = 0; } else m[i] = p[i] ? t : 0; if (i == j && t && !p[i]) {} } break;
        case 3: p[i].reset(); m[i] = 0; break;
        case 4: p[i].swap(p[j]); std::swap(m[i], m[j]); break;
        case 5: if (p[i]) { P q = p[i]->__intrusive_from_this(); VS_ASSERT(q == p[i] && q->v.id() == m[i]); p[j] = q; m[j] = m[i]; } break;
        case 6: { P q(p[i]); P r(std::move(q)); VS_ASSERT(!q && r == p[i]); } break;
        case 7: if (p[i]) { p[j] = &*p[i]; m[j] = m[i]; } break;
        case 8: p[i] = P(); m[i] = 0; break;
      }
      std::set<int> alive; for (int k = 0; k < 4; k++) { VS_ASSERT((bool) p[k] == (m[k] != 0) && !p[k] == (m[k] == 0) && (p[k] == nullptr) == (m[k] == 0), "pointer is null or not against the model"); if (m[k]) { VS_ASSERT(p[k]->v.id() == m[k] && (*p[k]).v.v == m[k] && p[k].get()->v.v == m[k], "points to another object"); alive.insert(m[k]); } for (int l = 0; l < 4; l++) VS_ASSERT((p[k] == p[l]) == (m[k] == m[l]), "pointer equality"); }
      if (live() != (long) alive.size()) vs::fail("%ld objects alive, %zu are referenced", live(), alive.size());
    } }
    end();
  };
  return c;
}
}
