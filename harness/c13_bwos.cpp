// C13: the block-based work-stealing queue: one owner, concurrent thieves.
#include "vs_common.hpp"
#include <exec/detail/bwos_lifo_queue.hpp>
namespace {
struct El { int data = 0; int id = 0; ghost<int> taken; ghost<int> accepted; };
using Q = exec::bwos::lifo_queue<El*>;
enum { PUSH, RANGE, POP, POPALL };
struct P { size_t nb, bs; std::vector<std::pair<int, int>> owner; std::vector<int> thieves; bool late; };
void take(El* e, const char* who) { VS_ASSERT(e->data == 1000 + e->id, "data written before the push is not visible to whoever obtains the element"); if (e->taken.add(1) != 1) vs::fail("element %d obtained twice (second time by %s)", e->id, who); if (!e->accepted.get()) vs::fail("element %d obtained although it was never accepted", e->id); }
vs::Case make(vs::Gen& g) {
  P p; p.nb = g.range(1, 4); p.bs = g.range(1, 3); int n = g.range(1, 10); int total = 0;
  for (int i = 0; i < n; i++) { int k = (int) g.below(8); if (k < 3) { p.owner.push_back({PUSH, 1}); total++; } else if (k < 5) { int m = g.range(1, 6); p.owner.push_back({RANGE, m}); total += m; } else if (k < 7) p.owner.push_back({POP, g.range(1, 3)}); else p.owner.push_back({POPALL, 0}); }
  int nt = g.range(1, 3); for (int i = 0; i < nt; i++) p.thieves.push_back(g.range(1, 4)); p.late = g.chance(30);
  vs::Case c; c.desc = sfmt("blocks=%zu size=%zu owner:", p.nb, p.bs); for (auto& [k, m] : p.owner) c.desc += sfmt(" %s%d", k == PUSH ? "push" : k == RANGE ? "range" : k == POP ? "pop" : "popall", m); c.desc += " thieves:"; for (int t : p.thieves) c.desc += sfmt(" %d", t);
  c.body = [p, total] {
    Q q(p.nb, p.bs); std::vector<El> els((size_t) total); for (int i = 0; i < total; i++) els[(size_t) i].id = i;
    std::atomic<int> go{p.late ? 0 : 1}; std::atomic<bool> owner_done{false};
    std::vector<std::function<void()>> fs; int accepted = 0, stolen_total = 0; std::atomic<int> stolen{0};
    fs.push_back([&] {
      int next = 0;
      auto prep = [&](int i) { els[(size_t) i].data = 1000 + i; };
      for (auto& [k, m] : p.owner) {
        if (k == PUSH) { El* e = &els[(size_t) next++]; prep(e->id); e->accepted.set(1); if (!q.push_back(e)) e->accepted.set(0); else accepted++; if (p.late) go.store(1); }
        else if (k == RANGE) { std::vector<El*> v; for (int i = 0; i < m; i++) { prep(next); els[(size_t) next].accepted.set(1); v.push_back(&els[(size_t) next++]); } auto it = q.push_back(v.begin(), v.end()); VS_ASSERT(it >= v.begin() && it <= v.end()); accepted += (int) (it - v.begin()); for (; it != v.end(); ++it) (*it)->accepted.set(0); }
        else if (k == POP) { for (int i = 0; i < m; i++) if (El* e = q.pop_back()) take(e, "owner"); }
        else while (El* e = q.pop_back()) take(e, "owner");
      }
      owner_done.store(true); go.store(1);
    });
    for (int t : p.thieves) fs.push_back([&, t] { while (!go.load()) std::this_thread::yield(); for (int i = 0; i < t; i++) if (El* e = q.steal_front()) { take(e, "thief"); stolen.fetch_add(1); } });
    vs_threads(std::move(fs));
    stolen_total = stolen.load();
    while (El* e = q.pop_back()) take(e, "owner at the end");
    for (auto& e : els) { if (e.accepted.get()) { if (e.taken.get() != 1) vs::fail("element %d was accepted but never obtained", e.id); } else if (e.taken.get()) vs::fail("element %d was reported as not accepted but obtained", e.id); }
    // the queue is empty: it must accept at least one block again
    for (size_t i = 0; i < p.bs; i++) { El* e = new El; e->id = 5000; if (!q.push_back(e)) vs::fail("an empty queue refuses element %zu of a block of %zu", i, p.bs); VS_ASSERT(q.pop_back() == e, "an element pushed alone is not what pop returns"); delete e; }
    if (stolen_total) vs::label("stolen"); if (accepted < total) vs::label("rejected");
  };
  return c;
}
// single threaded: owner and thief interleaved sequentially against a reference deque
vs::Case make_seq(vs::Gen& g) {
  size_t nb = g.range(1, 4), bs = g.range(1, 3); int n = g.range(5, 40); bool steals = g.chance(70); std::vector<std::pair<int, int>> ops;
  for (int i = 0; i < n; i++) { int k = (int) g.below(steals ? 10 : 7); ops.push_back({k < 3 ? 0 : k < 4 ? 1 : k < 7 ? 2 : 3, g.range(1, 7)}); }
  vs::Case c; c.desc = sfmt("sequential blocks=%zu size=%zu:", nb, bs); static const char* nm[] = {"push", "range", "pop", "steal"}; for (auto& [k, m] : ops) c.desc += sfmt(" %s%s", nm[k], k == 1 ? sfmt("%d", m).c_str() : "");
  c.body = [=] {
    vs::nontrivial(true);
    Q q(nb, bs); std::deque<El*> ref; std::vector<std::unique_ptr<El>> els; size_t cap = q.num_blocks() * q.block_size(); VS_ASSERT(q.block_size() == bs && q.num_blocks() >= nb);
    bool stole = false;
    for (auto& [k, m] : ops) {
      if (k == 0) { els.push_back(std::make_unique<El>()); bool ok = q.push_back(els.back().get()); if (ok) { ref.push_back(els.back().get()); VS_ASSERT(ref.size() <= cap); } else VS_ASSERT(stole || ref.size() + bs > cap, "push refused although a block is free"); }
      else if (k == 1) { std::vector<El*> v; for (int i = 0; i < m; i++) { els.push_back(std::make_unique<El>()); v.push_back(els.back().get()); } auto it = q.push_back(v.begin(), v.end()); for (auto j = v.begin(); j != it; ++j) ref.push_back(*j); if (it != v.end()) VS_ASSERT(stole || ref.size() + bs > cap, "range push refused although a block is free"); }
      else if (k == 2) { El* e = q.pop_back(); if (ref.empty()) VS_ASSERT(e == nullptr, "pop invents an element"); else { VS_ASSERT(e == ref.back(), "pop does not return the newest element"); ref.pop_back(); } }
      else { El* e = q.steal_front(); if (e) { VS_ASSERT(!ref.empty(), "steal invents an element"); VS_ASSERT(e == ref.front(), "steal does not return the oldest element"); ref.pop_front(); stole = true; } }
    }
    while (!ref.empty()) { VS_ASSERT(q.pop_back() == ref.back(), "draining does not return every element"); ref.pop_back(); }
    VS_ASSERT(q.pop_back() == nullptr && q.steal_front() == nullptr, "an empty queue yields an element");
  };
  return c;
}
}
int main(int argc, char** argv) { return vs::run_main(argc, argv, {{"bwos", make, 5}, {"seq", make_seq, 1}}); }
