// type-erasing value holders (__any, __any_ptr, __any_cptr)
#include "c29.hpp"
namespace any = STDEXEC::__any;
namespace c29 {
template <class Base> struct IBase : any::__interface_base<IBase, Base, any::__extends<any::__icopyable>> {
  using IBase::__interface_base::__interface_base;
  constexpr virtual int id() const { return any::__value(*this).id(); }
  constexpr virtual void set(int x) { any::__value(*this).set(x); }
  constexpr virtual int kind() const { return any::__value(*this).kind(); }
};
template <class Base> struct IDer : any::__interface_base<IDer, Base, any::__extends<IBase, any::__icopyable, any::__iequality_comparable>, 5 * sizeof(void*)> {
  using IDer::__interface_base::__interface_base;
  constexpr virtual int der() const { return any::__value(*this).der(); }
};
template <class Base> struct IMo : any::__interface_base<IMo, Base, any::__extends<any::__imovable>, 32, 16> {
  using IMo::__interface_base::__interface_base;
  constexpr virtual int id() const { return any::__value(*this).id(); }
  constexpr virtual void set(int x) { any::__value(*this).set(x); }
  constexpr virtual int kind() const { return any::__value(*this).kind(); }
};
// counting allocator
inline long& bytes() { static long x; return x; }
template <class T> struct CA { using value_type = T; int tag; explicit CA(int t) : tag(t) {} template <class U> CA(const CA<U>& o) noexcept : tag(o.tag) {}
  T* allocate(size_t n) { tick(); bytes() += (long) (n * sizeof(T)); return (T*) ::operator new(n * sizeof(T), std::align_val_t(alignof(T) < 16 ? 16 : alignof(T))); } void deallocate(T* p, size_t n) noexcept { VS_ASSERT(tag == 77, "deallocated through a foreign allocator"); bytes() -= (long) (n * sizeof(T)); ::operator delete(p, std::align_val_t(alignof(T) < 16 ? 16 : alignof(T))); } bool operator==(const CA& o) const noexcept { return tag == o.tag; } };
struct M { int kind = -1, v = 0; bool operator==(const M&) const = default; };
template <class F> auto with_kind(int k, F f) { switch (k) { case 0: return f.template operator()<VSmall>(); case 1: return f.template operator()<VBig>(); case 2: return f.template operator()<VThrow>(); case 3: return f.template operator()<VAlign>(); default: return f.template operator()<VHuge>(); } }
template <class A> M look(A& a) {
  if (any::__empty(a)) { VS_ASSERT(any::__data(a) == nullptr && any::__type(a) == STDEXEC::__mtypeid<void>, "an empty holder claims to hold something"); return {}; }
  M m{any::__value(a).kind(), any::__value(a).id()}; VS_ASSERT(a.id() == m.v);
  with_kind(m.kind, [&]<class V>() { VS_ASSERT(any::__type(a) == STDEXEC::__mtypeid<V>, "wrong stored type"); auto* p = any::__any_cast<V>(&a); VS_ASSERT(p && p->id() == m.v && (void*) p == any::__data(a), "the cast does not find the stored object"); });
  VS_ASSERT(any::__any_cast<double>(&a) == nullptr, "a cast to another type succeeds");
  return m;
}
template <class A, bool Copy> vs::Case mk(vs::Gen& g, const char* nm) {
  auto o = ops(g, 14, 11, 4); vs::Case c; c.desc = std::string(nm) + ":" + show(o);
  c.body = [o] {
    begin(); bytes() = 0; vs::nontrivial(o.size() >= 3); {
    std::optional<A> s[4]; M m[4]; int next = 1; for (auto& x : s) x.emplace();
    for (auto& x : o) {
      int i = x.a, j = x.b; M old = m[i]; bool risky = x.c == 7; fuse() = risky ? (x.b & 1) + (next & 1) : -1; bool thrown = false;
      try { switch (x.k) {
        case 0: { M n{(x.c + 3 * x.b + x.a) % 5, next++}; with_kind(n.kind, [&]<class V>() { *s[i] = V(n.v); }); m[i] = n; } break;
        case 1: { M n{(x.c + 3 * x.b + x.a) % 5, next++}; with_kind(n.kind, [&]<class V>() { auto& r = s[i]->template emplace<V>(n.v); VS_ASSERT(r.id() == n.v); }); m[i] = n; } break;
        case 2: { M n{(x.c + 3 * x.b + x.a) % 5, next++}; M keep; std::swap(keep, m[i]); s[i].reset(); fuse() = -1; s[i].emplace(); fuse() = risky ? 0 : -1; old = {}; with_kind(n.kind, [&]<class V>() { A t(V(n.v), CA<V>(77)); *s[i] = std::move(t); }); m[i] = n; } break;
        case 3: if (i != j) { *s[i] = std::move(*s[j]); m[i] = m[j]; m[j] = {}; } else if (x.c & 1) { auto& r = *s[i]; *s[i] = std::move(r); } break;
        case 4: if constexpr (Copy) { *s[i] = std::as_const(*s[j]); m[i] = m[j]; } break;
        case 5: { using std::swap; if (x.c & 1) swap(*s[i], *s[j]); else s[i]->swap(*s[j]); swap(m[i], m[j]); } break;
        case 6: any::__reset(*s[i]); m[i] = {}; break;
        case 7: if constexpr (Copy) if (i != j) { s[i].reset(); m[i] = {}; old = {}; int f = fuse(); try { s[i].emplace(std::as_const(*s[j])); m[i] = m[j]; } catch (...) { fuse() = -1; s[i].emplace(); throw; } (void) f; } break;
        case 8: if (i != j) { s[i].reset(); s[i].emplace(std::move(*s[j])); m[i] = m[j]; m[j] = {}; } break;
        case 9: fuse() = -1; if (m[i].kind >= 0) { int v = next++; s[i]->set(v); m[i].v = v; } break;
        case 10: { M n{(x.c + 3 * x.b + x.a) % 5, next++}; s[i].reset(); m[i] = {}; old = {}; try { with_kind(n.kind, [&]<class V>() { s[i].emplace(std::in_place_type<V>, n.v); }); } catch (...) { fuse() = -1; s[i].emplace(); throw; } m[i] = n; } break;
      } } catch (Boom&) { thrown = true; }
      fuse() = -1;
      if (thrown) { vs::label("threw"); M now = look(*s[i]); if (!(now == M{}) && !(now == old)) vs::fail("after a failed operation the holder holds neither its old value nor nothing (kind %d value %d)", now.kind, now.v); m[i] = now; }
      for (int k = 0; k < 4; k++) { M now = look(*s[k]); if (!(now == m[k])) vs::fail("slot %d holds (kind %d, %d), expected (kind %d, %d)", k, now.kind, now.v, m[k].kind, m[k].v); }
      long want = 0; for (auto& y : m) want += y.kind >= 0; if (live() != want) vs::fail("%ld objects alive, %ld holders are filled", live(), want);
    } }
    if (bytes()) vs::fail("%ld bytes were not returned to the allocator", bytes());
    end();
  };
  return c;
}
vs::Case make_any(vs::Gen& g) { return g.chance(50) ? mk<any::__any<IBase>, true>(g, "any<IBase>") : mk<any::__any<IDer>, true>(g, "any<IDer>"); }
vs::Case make_any_mo(vs::Gen& g) { return mk<any::__any<IMo>, false>(g, "any<IMo>"); }
// pointers to erased objects, conversions to a base interface, equality
vs::Case make_anyptr(vs::Gen& g) {
  auto o = ops(g, 12, 13, 3); vs::Case c; c.desc = "anyptr:" + show(o);
  c.body = [o] {
    begin(); vs::nontrivial(o.size() >= 3); {
    any::__any<IDer> d[3]; any::__any<IBase> b[3]; M md[3], mb[3]; any::__any_ptr<IDer> p[3]; any::__any_ptr<IBase> q[3]; any::__any_cptr<IBase> r[3]; const void *tp[3] = {}, *tq[3] = {}, *tr[3] = {}; int next = 1;
    VSmall ext[3] = {VSmall(901), VSmall(902), VSmall(903)};
    // targets: addresses of the object each pointer must refer to. Pointers are dropped before a holder's contents change.
    auto drop = [&](const void* t) { if (!t) return; for (int k = 0; k < 3; k++) { if (tp[k] == t) p[k] = nullptr, tp[k] = nullptr; if (tq[k] == t) q[k] = nullptr, tq[k] = nullptr; if (tr[k] == t) r[k] = nullptr, tr[k] = nullptr; } };
    for (auto& x : o) {
      int i = x.a, j = x.b;
      switch (x.k) {
        case 0: drop(any::__data(d[i])); { M n{(x.c + 3 * x.b + x.a) % 5, next++}; with_kind(n.kind, [&]<class V>() { d[i] = V(n.v); }); md[i] = n; } break;
        case 1: drop(any::__data(b[i])); drop(any::__data(d[j])); if (x.c & 1) { b[i] = std::move(d[j]); mb[i] = md[j]; md[j] = {}; } else { b[i] = d[j]; mb[i] = md[j]; } break; // derived-to-base conversion
        case 2: { any::__any<IBase> t = (x.c & 1) ? any::__any<IBase>(d[j]) : any::__any<IBase>(); drop(any::__data(b[i])); b[i] = std::move(t); mb[i] = (x.c & 1) ? md[j] : M{}; } break;
        case 3: p[i] = &d[j]; tp[i] = any::__data(d[j]); break;
        case 4: q[i] = &b[j]; tq[i] = any::__data(b[j]); break;
        case 5: if (x.c & 1) { q[i] = p[j]; tq[i] = tp[j]; } else { q[i] = &d[j]; tq[i] = any::__data(d[j]); } break;
        case 6: q[i] = q[j]; tq[i] = tq[j]; break; // including self-assignment
        case 7: if (x.c & 1) { r[i] = q[j]; tr[i] = tq[j]; } else if (x.c & 2) { r[i] = p[j]; tr[i] = tp[j]; } else { r[i] = &b[j]; tr[i] = any::__data(b[j]); } break;
        case 8: swap(q[i], q[j]); std::swap(tq[i], tq[j]); swap(p[i], p[j]); std::swap(tp[i], tp[j]); break;
        case 9: q[i] = &ext[j]; tq[i] = &ext[j]; break;
        case 10: r[i] = r[j]; tr[i] = tr[j]; break;
        case 11: p[i] = p[j]; tp[i] = tp[j]; break;
        case 12: { any::__any_ptr<IBase> t(q[i]); any::__any_cptr<IBase> u; u = t; VS_ASSERT((any::__data(*t) == tq[i]) && any::__data(*u) == tq[i], "copied pointer refers to another object"); } break;
      }
      for (int k = 0; k < 3; k++) {
        M a = look(d[k]), bb = look(b[k]); if (!(a == md[k])) vs::fail("derived holder %d: (kind %d, %d), expected (kind %d, %d)", k, a.kind, a.v, md[k].kind, md[k].v); if (!(bb == mb[k])) vs::fail("base holder %d: (kind %d, %d), expected (kind %d, %d)", k, bb.kind, bb.v, mb[k].kind, mb[k].v);
        auto pt = [&](auto& ptr, const void* t, const char* w) { if (any::__data(*ptr) != t) vs::fail("%s %d refers to %p, expected %p", w, k, (void*) any::__data(*ptr), t); if (t) { int id = ptr->id(), kd = ptr->kind(); with_kind(kd, [&]<class V>() { auto* y = any::__any_cast<V>(ptr); VS_ASSERT((const void*) y == t && y->id() == id, "cast through a pointer finds another object"); }); VS_ASSERT(any::__any_cast<double>(ptr) == nullptr); } };
        pt(p[k], tp[k], "derived pointer"); pt(q[k], tq[k], "base pointer"); pt(r[k], tr[k], "const pointer");
        for (int l = 0; l < 3; l++) { VS_ASSERT((q[k] == q[l]) == (tq[k] == tq[l]), "pointer equality"); VS_ASSERT((d[k] == d[l]) == (md[k] == md[l]), "equality of erased objects differs from that of the objects"); }
      }
    } }
    end();
  };
  return c;
}
// assigning to a holder from a reference to another holder's contents copies them
vs::Case make_anyref(vs::Gen& g) {
  int kind = g.range(0, 4), how = g.range(0, 5); if (g.below(500) != 499) { vs::Case c; c.desc = "anyref: (skipped)"; c.body = [] { vs::nontrivial(false); }; return c; } vs::Case c; c.desc = sfmt("anyref: kind %d, %s", kind, (const char*[]){"base holder = derived cptr", "base holder = derived ptr", "base holder = base cptr to a derived holder", "holder = cptr of its interface", "holder(ptr of its interface)", "holder = ptr to a plain object"}[how]);
  c.body = [=] { begin(); vs::nontrivial(true); with_kind(kind, [&]<class V>() {
    any::__any<IDer> d(V(7)); any::__any<IBase> b; any::__any<IDer> e; V plain(7); any::__any_ptr<IDer> p = &d; any::__any_cptr<IDer> cp = &d; any::__any_cptr<IBase> bp = &d; M want{kind, 7};
    if (how == 0) b = *cp; else if (how == 1) b = *p; else if (how == 2) b = *bp; else if (how == 3) e = *cp; else if (how == 4) { any::__any<IDer> t(*p); VS_ASSERT(look(t) == want, "copied holder differs"); e = std::move(t); } else { any::__any_ptr<IDer> pp = &plain; e = *pp; VS_ASSERT(plain.id() == 7); }
    M got = how <= 2 ? look(b) : look(e); VS_ASSERT(got == want, "the holder does not hold a copy"); VS_ASSERT(look(d) == want, "assigning from a reference changed the referenced object"); });
    end(); };
  return c;
}
}
