#include "c24.hpp"
namespace c24 {
static void idle(Stop& ss) { auto& s = *st(); std::deque<std::function<void()>> h; { std::lock_guard g(s.m); h.swap(s.held); } if (h.empty()) { if (s.tok && !s.req) { request(ss); return; } vs::fail("the operation never completes"); } for (auto& e : h) s.post(1, e); }
#ifndef C24_MT
void drive(Stop& ss, int ext) {
  auto& s = *st(); for (int n = 0;; n++) { if (n > 2000) vs::fail("endless"); int ne = 0, c[NCTX]; for (int k = 0; k < NCTX; k++) if (!s.q[k].empty()) c[ne++] = k;
    if (!ne) { if (s.done) return; if (ext == 2 && !s.req && vs::choose(2)) { request(ss); continue; } idle(ss); continue; }
    if (ext == 2 && !s.req && !s.done && vs::choose(4) == 0) { request(ss); continue; }
    int k = c[vs::choose((uint32_t) ne)]; auto e = std::move(s.q[k].front()); s.q[k].pop_front(); curctx = k; e(); curctx = EXT; } }
#else
void drive(Stop& ss, int ext) {
  auto& s = *st(); std::vector<std::thread> t;
  for (int k = 0; k < NCTX; k++) t.emplace_back([&s, k] { curctx = k; for (;;) { std::function<void()> e; { std::unique_lock l(s.m); while (s.q[k].empty() && !s.quit) { s.waiting++; s.mcv.notify_all(); s.cv.wait(l); s.waiting--; } if (s.q[k].empty()) return; e = std::move(s.q[k].front()); s.q[k].pop_front(); } e(); } });
  auto empty = [&] { for (auto& q : s.q) if (!q.empty()) return false; return true; };
  if (ext == 2) { vs::idle((int) vs::choose(10)); request(ss); }
  for (;;) { { std::unique_lock l(s.m); while (!s.quit && !(empty() && s.waiting == NCTX)) s.mcv.wait(l); if (s.quit) break; } idle(ss); }
  for (auto& x : t) x.join(); curctx = EXT; s.waiting = 0; }
#endif
}
int main(int c, char** v) { return vs::run_main(c, v, {{"senders", c24::make_senders, 40}, {"scheds", c24::make_scheds, 40}, {"bulk", c24::make_bulk, 30}}); }
