// C29: containers and holders against reference models, sequential, ASan/UBSan.
#pragma once
#include "vs_common.hpp"
#include <stdexec/execution.hpp>
#include <optional>
#include <set>
#include <list>
namespace ex = stdexec;
namespace c29 {
inline long& live() { static long x; return x; }
inline int& fuse() { static int x = -1; return x; } // throws when it reaches 0; -1 = never
struct Boom {};
inline void tick() { if (fuse() >= 0 && fuse()-- == 0) throw Boom{}; }
constexpr uint32_t ALIVE = 0xA11EE, MOVED = 0xE0FF, DEAD = 0xDEAD;
// NT: nothrow moves; Pad: extra bytes; Al: alignment
template <int Kind, bool NT, int Pad, int Al> struct alignas(Al) Val {
  int v; uint32_t tag = ALIVE; unsigned char pad[Pad]; 
  static constexpr int kind_ = Kind; int kind() const { return Kind; } int der() const { return id() + 1000; }
  void fill() { for (int i = 0; i < Pad; i++) pad[i] = (unsigned char) (v * 7 + i); }
  bool ok() const { if (tag != ALIVE) return false; for (int i = 0; i < Pad; i++) if (pad[i] != (unsigned char) (v * 7 + i)) return false; return true; }
  void aligned() const { if ((uintptr_t) this % Al) vs::fail("object placed at an address that is not aligned for its type"); }
  explicit Val(int v = 0) : v(v) { aligned(); tick(); fill(); ++live(); }
  Val(Val&& o) noexcept(NT) : v(o.v) { aligned(); VS_ASSERT(o.tag == ALIVE || o.tag == MOVED, "move from a dead object"); tag = o.tag; if constexpr (!NT) tick(); if (o.tag == ALIVE) { VS_ASSERT(o.ok(), "moved-from object is corrupt"); fill(); } o.tag = MOVED; ++live(); }
  Val(const Val& o) : v(o.v) { aligned(); VS_ASSERT(o.tag == ALIVE || o.tag == MOVED, "copy of a dead object"); tag = o.tag; tick(); if (tag == ALIVE) { VS_ASSERT(o.ok()); fill(); } ++live(); }
  Val& operator=(Val&& o) noexcept(NT) { VS_ASSERT(tag != DEAD && o.tag != DEAD); if (this == &o) return *this; if constexpr (!NT) tick(); v = o.v; tag = o.tag; if (o.tag == ALIVE) fill(); o.tag = MOVED; return *this; }
  Val& operator=(const Val& o) { VS_ASSERT(tag != DEAD && o.tag != DEAD); tick(); v = o.v; tag = o.tag; fill(); return *this; }
  ~Val() { VS_ASSERT(tag == ALIVE || tag == MOVED, "object destroyed twice"); tag = DEAD; --live(); }
  int id() const { VS_ASSERT(ok(), "the stored object is dead, moved from or corrupt"); return v; }
  void set(int x) { v = x; fill(); }
  bool operator==(const Val& o) const { return v == o.v; }
};
using VSmall = Val<0, true, 4, 4>;
using VBig = Val<1, true, 200, 8>;
using VThrow = Val<2, false, 4, 4>;
using VAlign = Val<3, true, 8, 16>;
using VHuge = Val<4, false, 300, 64>;
struct Op { int k, a, b, c; };
inline std::vector<Op> ops(vs::Gen& g, int maxn, int kinds, int bound) { int n = g.range(1, maxn); std::vector<Op> o; for (int i = 0; i < n; i++) o.push_back({(int) g.below((uint32_t) kinds), (int) g.below((uint32_t) bound), (int) g.below((uint32_t) bound), g.range(0, 7)}); return o; }
inline std::string show(const std::vector<Op>& o) { std::string s; for (auto& x : o) s += sfmt(" %d(%d,%d,%d)", x.k, x.a, x.b, x.c); return s; }
inline void begin() { fuse() = -1; VS_ASSERT(live() == 0, "objects of an earlier case are alive"); }
inline void end() { fuse() = -1; if (live() != 0) vs::fail("%ld objects were not destroyed", live()); }
vs::Case make_any(vs::Gen&); vs::Case make_any_mo(vs::Gen&); vs::Case make_anyptr(vs::Gen&); vs::Case make_anyref(vs::Gen&); vs::Case make_queue(vs::Gen&); vs::Case make_slist(vs::Gen&); vs::Case make_lifo(vs::Gen&);
vs::Case make_optional(vs::Gen&); vs::Case make_variant(vs::Gen&); vs::Case make_tuple(vs::Gen&); vs::Case make_svec(vs::Gen&); vs::Case make_iptr(vs::Gen&); vs::Case make_heap(vs::Gen&);
}
