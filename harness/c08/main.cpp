#include "c08.hpp"
#include <exec/static_thread_pool.hpp>
namespace c08 {
vs::Case make(vs::Gen& g) {
  P p; p.kind = (int) g.below(3); p.sty = (int) g.below(7); p.pol = (int) g.below(4); p.sched = (int) g.below(6); p.chan = g.chance(15) ? g.range(1, 2) : 0;
  static const uint32_t pars[] = {1, 2, 3, 4, 5, 7, 8, 16, 33, 127, 128, 200, 255, 256, 300}; p.par = pars[g.chance(60) ? g.below(6) : g.below(15)];
  uint32_t sk = g.below(10); p.shape = sk < 2 ? g.range(0, 1) : sk < 5 ? g.range(2, 12) : sk < 8 ? (long) p.par + g.range(-2, 2) : sk == 8 ? (long) p.par * g.range(1, 3) + g.range(-1, 1) : g.range(13, 600);
  if (p.shape < 0) p.shape = 0; long mx = p.sty == 0 ? 127 : p.sty == 1 ? 255 : 1000; if (p.shape > mx) p.shape = mx;
  if (p.sched <= S_LOOP && (p.sty == 0 || p.sty == 2) && g.chance(6)) p.shape = -g.range(1, 100);
  p.nt = p.sty == 3 || p.sty == 6; p.thr = !p.nt && p.shape > 0 && g.chance(35) ? (int) g.below((uint32_t) p.shape) : -1; p.thr2 = p.thr >= 0 && g.chance(50) ? (int) g.below((uint32_t) p.shape) : -1;
  int no = g.range(0, 8); for (int i = 0; i < no; i++) p.ord.push_back(g.below(64)); p.twice = false;
  static const char* kn[] = {"bulk", "bulk_chunked", "bulk_unchunked"}; static const char* sn[] = {"signed char", "unsigned char", "int", "int(noexcept)", "unsigned", "size_t", "long long(noexcept)"}; static const char* pn[] = {"seq", "par", "par_unseq", "unseq"}; static const char* sc[] = {"no scheduler", "inline_scheduler", "run_loop", "thread_pool_base pool", "task_scheduler(inline)", "task_scheduler(pool)"};
  vs::Case c; c.desc = sfmt("%s(%s, %s shape=%ld) after %s on %s", kn[p.kind], pn[p.pol], sn[p.sty], p.shape, p.chan == 0 ? "value" : p.chan == 1 ? "error" : "stopped", sc[p.sched]); if (p.sched == S_POOL || p.sched == S_TASK_POOL) c.desc += sfmt(" parallelism=%u order=%zu", p.par, p.ord.size()); if (p.thr >= 0) c.desc += sfmt(" throws at %d,%d", p.thr, p.thr2);
  c.body = [p] {
    vs::nontrivial(p.shape > 1 && p.chan == 0); vs::label(p.pol == 0 || p.pol == 3 ? "sequenced policy" : "parallel policy"); if (p.thr >= 0) vs::label("throwing"); if (p.chan) vs::label("error/stopped predecessor");
    long l0 = live();
    { Log L; L.shape = p.shape; L.chunked = p.kind == 1; L.throw_at = p.thr; L.throw2 = p.thr2; L.seq = p.pol == 0 || p.pol == 3; L.need_ctx = p.sched == S_LOOP || p.sched == S_POOL || p.sched == S_TASK_POOL; if (p.shape > 0) L.hit.assign((size_t) p.shape, 0);
      switch (p.sty) { case 0: run_i8(p, L); break; case 1: run_u8(p, L); break; case 2: run_int(p, L); break; case 3: run_int_nt(p, L); break; case 4: run_uns(p, L); break; case 5: run_sz(p, L); break; default: run_ll(p, L); }
      if (p.chan) { VS_ASSERT(L.chan == p.chan && L.calls == 0, "an error or stopped predecessor is not passed through"); if (p.chan == 1) VS_ASSERT(L.err == 77); }
      else if (L.thrown) { VS_ASSERT(L.chan == 1, "a call threw but bulk did not complete with set_error"); VS_ASSERT(L.err == p.thr || L.err == p.thr2, "wrong exception"); }
      else { VS_ASSERT(L.chan == 0, "bulk did not complete with set_value"); long n = std::max(0l, p.shape); for (long k = 0; k < n; k++) if (L.hit[(size_t) k] != 1) vs::fail("index %ld not visited", k); VS_ASSERT(L.val == 41 && L.y == 9 && L.n == (int) n, "the values are not forwarded as the calls left them"); if (p.kind == 2) VS_ASSERT(L.calls == n, "bulk_unchunked call count"); VS_ASSERT(p.thr < 0, "exception lost"); }
    }
    VS_ASSERT(live() == l0, "values leaked");
  };
  return c;
}
// partitioning helper: covers [0,n) exactly, in order, sizes differing by at most one
template <class T> void share(long n, size_t size) { long at = 0, mn = __LONG_MAX__, mx = -1; for (size_t r = 0; r < size; r++) { auto [b, e] = exec::_pool_::even_share((T) n, r, size); if ((long) b != at || (long) e < (long) b) vs::fail("even_share(%ld, %zu, %zu) = [%ld, %ld) but the previous share ended at %ld", n, r, size, (long) b, (long) e, at); at = (long) e; mn = std::min(mn, (long) e - (long) b); mx = std::max(mx, (long) e - (long) b); } if (at != n) vs::fail("even_share(%ld, ., %zu) ends at %ld", n, size, at); VS_ASSERT(mx - mn <= 1, "uneven shares"); }
vs::Case make_share(vs::Gen& g) {
  int ty = (int) g.below(6); size_t size = (size_t) g.range(1, g.chance(50) ? 9 : 300); static const long lim[] = {127, 255, 32767, 2147483647, 4294967295l, 1l << 62}; long n; uint32_t k = g.below(4); n = k == 0 ? (long) g.below(20) : k == 1 ? lim[ty] - (long) g.below(20) : k == 2 ? (long) size * (long) g.below(8) + (long) g.below(3) : (long) (((uint64_t) g.below(0xffffffffu) << 31 | g.below(0x7fffffff)) % (uint64_t) lim[ty]); n = std::min(n, lim[ty]);
  vs::Case c; c.desc = sfmt("even_share type=%d n=%ld size=%zu", ty, n, size);
  c.body = [=] { vs::nontrivial(n > 1 && size > 1); switch (ty) { case 0: share<signed char>(n, size); break; case 1: share<unsigned char>(n, size); break; case 2: share<short>(n, size); break; case 3: share<int>(n, size); break; case 4: share<unsigned>(n, size); break; default: share<long>(n, size); } };
  return c;
}
}
int main(int argc, char** argv) { return vs::run_main(argc, argv, {{"bulk", c08::make, 8}, {"even_share", c08::make_share, 1}}); }
