#include "c28.hpp"
#include <cstdarg>
#include <set>
namespace c28 {
World* w; int n_ok, n_skip, g_ctx0, g_stopAt; std::vector<Entry>& reg() { static std::vector<Entry> r; return r; } std::vector<Entry>& regk() { static std::vector<Entry> r; return r; }
void reg_0(); void reg_1(); void reg_2(); void reg_3(); void reg_4(); void reg_5(); void reg_6(); void reg_7();
static std::vector<int> order;
void bad(const char* fmt, ...) { char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (getenv("C28_SURVEY")) { static std::set<std::string> seen; if (seen.insert(b).second) if (FILE* f = fopen(getenv("C28_SURVEY"), "a")) { fprintf(f, "%s\n", b); fclose(f); } return; } vs::fail("%s", b); }
void drive(std::function<bool()> done, ex::inplace_stop_source& ss) {
  size_t k = 0; int steps = 0;
  while (true) { if (++steps == g_stopAt) { w->cur = -1; ss.request_stop(); }
    if (w->q.empty()) { if (!done() && g_stopAt > steps) continue; break; }
    size_t i = (size_t) order[k++ % order.size()] % w->q.size(); auto x = std::move(w->q[i]); w->q.erase(w->q.begin() + (long) i); w->cur = x.first; x.second(); if (steps > 300) { bad("%s: does not come to an end", w->what); break; } }
  if (!done()) bad("%s: never completes", w->what); }
static vs::Case make_from(vs::Gen& g, std::vector<Entry>& from) {
  const Entry* e = &from[(size_t) g.below((uint32_t) from.size())]; int act[8]; for (int& a : act) a = g.range(0, 31); int thr = g.chance(30) ? g.range(0, 8) : -1, st = g.chance(40) ? g.range(0, 4) : -1, c0 = g.range(0, 1); std::vector<int> ord; for (int i = 0; i < 12; i++) ord.push_back(g.range(0, 5));
  std::string d = e->name + " start=" + std::to_string(c0) + " stop=" + std::to_string(st) + " throw=" + std::to_string(thr) + " leaves="; for (int a : act) d += std::to_string(a) + ","; d += " order="; for (int o : ord) d += std::to_string(o);
  std::vector<int> av(act, act + 8);
  return {[e, av, thr, st, c0, ord] { World wd; w = &wd; for (int i = 0; i < 8; i++) wd.act[i] = av[(size_t) i]; wd.throwAt = thr; wd.what = e->name.c_str(); g_ctx0 = c0; g_stopAt = st; order = ord; e->run(0);
    if (wd.live) bad("%s: %d objects are left", wd.what, wd.live); vs::nontrivial(wd.async > 0 || wd.threw); if (wd.scheds) vs::label("completion scheduler checked"); w = nullptr; }, d}; }
vs::Case make(vs::Gen& g) { return make_from(g, reg()); }
vs::Case make_real(vs::Gen& g);
vs::Case make_known(vs::Gen& g) { return make_from(g, regk()); }
}
int main(int c, char** v) { c28::reg_0(); c28::reg_1(); c28::reg_2(); c28::reg_3(); c28::reg_4(); c28::reg_5(); c28::reg_6(); c28::reg_7(); if (getenv("C28_SKIPS")) fprintf(stderr, "expressions: %d, left out: %d, with a known finding: %d\n", c28::n_ok, c28::n_skip, (int) c28::regk().size()); return vs::run_main(c, v, {{"truth", c28::make, 20000}, {"listed", c28::make_known, 1}, {"schedulers", c28::make_real, 3000}}); }
