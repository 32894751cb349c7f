// C27: allocations made on behalf of operations come from the user's allocator and go back to it. Ledger allocators (stateful, not
// default constructible, exactly as aligned as asked for, guard bytes around every block, a plan that makes the k-th allocation
// fail) are supplied through environments and as arguments of generated programs. The oracle is the ledger (every block returned
// once, to an equal allocator, with the same type size/alignment and count, without a live object in it), the addresses of the
// test-owned objects that the library places (operation states, coroutine locals, scheduler copies, results), and the failure plan.
#pragma once
#include "vs_common.hpp"
#include <stdexec/execution.hpp>
#include <cstring>
#include <map>
#include <memory_resource>
#include <new>
#include <optional>
#include <set>
namespace ex = stdexec;
namespace c27 {
struct Block { char* raw; size_t n, sz, al; int arena; };
struct World {
  std::map<char*, Block> blocks; std::set<const void*> live; int count = 0, failAt = -1; bool failed = false; int perArena[8] = {};
  int connects = 0, starts = 0, completes = 0, throwAt = -1, throwCount = 0; bool threw = false; std::vector<std::function<void()>> pending;
  int arena_of(const void* p) const { auto it = blocks.upper_bound((char*) p); if (it == blocks.begin()) return -1; --it; return (char*) p < it->first + it->second.n * it->second.sz ? it->second.arena : -1; }
};
inline World* w;
struct Boom { int at; };
// a copy/move/connect of a test-owned object that may throw according to the plan
inline void may_throw() { if (w->throwCount++ == w->throwAt) { w->threw = true; throw Boom{w->throwAt}; } }
inline void* arena_allocate(int arena, size_t n, size_t sz, size_t al) {
  if (w->count++ == w->failAt) { w->failed = true; throw std::bad_alloc(); }
  size_t bytes = n * sz; char* raw = (char*) ::malloc(bytes + 3 * al + 32); uintptr_t a = (uintptr_t) raw + 16; a = (a + 2 * al - 1) / (2 * al) * (2 * al) + al; char* p = (char*) a;
  std::memset(p - 16, 0x5a, 16); std::memset(p + bytes, 0x5a, 16); std::memset(p, 0xcd, bytes);
  w->blocks[p] = {raw, n, sz, al, arena}; w->perArena[arena]++; return p; }
inline void arena_deallocate(int arena, void* q, size_t n, size_t sz, size_t al) {
  char* p = (char*) q; auto it = w->blocks.find(p); if (it == w->blocks.end()) vs::fail("a block that was not allocated (or was already returned) is deallocated");
  Block b = it->second; if (b.arena != arena) vs::fail("a block of arena %d is returned to arena %d", b.arena, arena);
  if (b.n != n || b.sz != sz || b.al != al) vs::fail("a block of %zu x (%zu bytes, alignment %zu) is returned as %zu x (%zu, %zu)", b.n, b.sz, b.al, n, sz, al);
  for (int i = 1; i <= 16; i++) if (p[-i] != 0x5a || p[n * sz + i - 1] != 0x5a) vs::fail("memory outside of an allocated block was written");
  auto l = w->live.lower_bound(p); if (l != w->live.end() && (char*) *l < p + n * sz) vs::fail("a block is deallocated while an object in it is alive");
  w->blocks.erase(it); ::free(b.raw); }
template <class T> struct LA { using value_type = T; int id;
  explicit LA(int i) : id(i) { } LA(const LA&) noexcept = default; LA& operator=(const LA&) noexcept = default; template <class U> LA(const LA<U>& o) noexcept : id(o.id) { }
  T* allocate(size_t n) { return (T*) arena_allocate(id, n, sizeof(T), alignof(T)); }
  void deallocate(T* p, size_t n) noexcept { arena_deallocate(id, p, n, sizeof(T), alignof(T)); }
  template <class U> friend bool operator==(const LA& a, const LA<U>& b) noexcept { return a.id == b.id; } };
struct Res : std::pmr::memory_resource { int id; explicit Res(int i) : id(i) { } void* do_allocate(size_t b, size_t al) override { return arena_allocate(id, b, 1, al); } void do_deallocate(void* p, size_t b, size_t al) override { arena_deallocate(id, p, b, 1, al); } bool do_is_equal(const memory_resource& o) const noexcept override { auto* r = dynamic_cast<const Res*>(&o); return r && r->id == id; } };
struct Tracked { Tracked() noexcept { w->live.insert(this); } Tracked(const Tracked&) noexcept { w->live.insert(this); } ~Tracked() { if (!w->live.erase(this)) vs::fail("an object is destroyed twice"); } Tracked& operator=(const Tracked&) = default; };
struct Val { Tracked t; int v; int pad[3]{}; explicit Val(int v) : v(v) { } Val(Val&& o) : v(o.v) { may_throw(); } Val(const Val& o) : v(o.v) { may_throw(); } };
enum Mode { VALUE, ERROR, STOPPED, DVALUE, DERROR, DSTOPPED, NMODES };
// the sender under test: its operation state is the object whose place is checked
template <class Sigs, int Align, class Attrs> struct Probe { using sender_concept = ex::sender_tag; using completion_signatures = Sigs; int mode, value; int* where; [[no_unique_address]] Attrs attrs; [[no_unique_address]] struct Guard { Guard() = default; Guard(Guard&&) { may_throw(); } Guard(const Guard&) { may_throw(); } } g;
  Probe(int m, int v, int* wh, Attrs a = {}) : mode(m), value(v), where(wh), attrs(a) { }
  template <class R> struct alignas(Align) Op { using operation_state_concept = ex::operation_state_tag; R r; int mode, value; int* where; Tracked t; char big[64] = {};
    Op(R r, int m, int v, int* wh) : r((R&&) r), mode(m), value(v), where(wh) { if ((uintptr_t) this % Align) vs::fail("an operation state is misaligned"); }
    void start() & noexcept { w->starts++; if (where) *where = w->arena_of(this); int m = mode; if (m >= DVALUE) { w->pending.push_back([this, m] { go(m - DVALUE); }); } else go(m); }
    void go(int m) { w->completes++; if (m == STOPPED) ex::set_stopped((R&&) r); else if (m == ERROR) { if constexpr (Sigs::__count(ex::set_error) > 0) ex::set_error((R&&) r, value); else ex::set_stopped((R&&) r); } else if constexpr (Sigs::__contains((ex::set_value_t(*)(Val)) nullptr)) ex::set_value((R&&) r, Val(value)); else if constexpr (Sigs::__contains((ex::set_value_t(*)(int)) nullptr)) ex::set_value((R&&) r, (int) value); else ex::set_value((R&&) r); } };
  template <class R> Op<R> connect(R r) const { w->connects++; may_throw(); return Op<R>((R&&) r, mode, value, where); }
  const Attrs& get_env() const noexcept { return attrs; } };
struct NoAttrs { };
struct AllocEnv { LA<std::byte> a{0}; auto query(ex::get_allocator_t) const noexcept { return a; } };
struct AllocEnvL { LA<long double> a{0}; auto query(ex::get_allocator_t) const noexcept { return a; } };
template <class E = ex::env<>> struct FinR { using receiver_concept = ex::receiver_tag; int* out; int* val; E e;
  void set(int k, int v) noexcept { if (*out != -1) vs::fail("a second completion is delivered"); *out = k; *val = v; }
  void set_value() noexcept { set(0, 0); } void set_value(const Val& x) noexcept { set(0, x.v); } void set_value(const int& x) noexcept { set(0, x); } void set_stopped() noexcept { set(2, 0); } void set_error(int e) noexcept { set(1, e); }
  void set_error(std::exception_ptr p) noexcept { try { std::rethrow_exception(p); } catch (Boom& b) { set(3, b.at); } catch (std::bad_alloc&) { set(4, 0); } catch (...) { set(5, 0); } }
  const E& get_env() const noexcept { return e; } };
inline void drain() { while (!w->pending.empty()) { auto f = std::move(w->pending.front()); w->pending.erase(w->pending.begin()); f(); } }
inline void finish() { for (auto& [p, b] : w->blocks) vs::fail("a block of %zu bytes of arena %d is never returned", b.n * b.sz, b.arena); if (!w->live.empty()) vs::fail("%zu objects are never destroyed", w->live.size()); if (w->starts != w->completes) vs::fail("%d operations are started, %d completed", w->starts, w->completes); w = nullptr; }
vs::Case make_spawn(vs::Gen&); vs::Case make_shared_ops(vs::Gen&); vs::Case make_task(vs::Gen&); vs::Case make_function(vs::Gen&); vs::Case make_tsched(vs::Gen&); vs::Case make_anyalloc(vs::Gen&); vs::Case make_adaptor(vs::Gen&); vs::Case make_letfn(vs::Gen&);
}
using namespace c27;
