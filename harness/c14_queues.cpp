// C14: lock-free intrusive queues: every node exactly once, in order, nothing missed, data visible.
#include "vs_common.hpp"
#include <stdexec/execution.hpp>
#include <stdexec/__detail/__intrusive_mpsc_queue.hpp>
#include <stdexec/__detail/__atomic_intrusive_queue.hpp>
#include <exec/detail/atomic_intrusive_queue.hpp>
namespace {
long& clk() { static long c; return c; }
long tick() { vs::Ghost g; return ++clk(); }
struct Info { ghost<int> popped, result{-1}; ghost<long> begin, end, out; ghost<int> batch{-1}, idx{-1}; int prod; };
struct MNode { std::atomic<MNode*> next{nullptr}; int data = 0; Info* i = nullptr; };
struct LNode { LNode* next = nullptr; int data = 0; Info* i = nullptr; };
struct P { std::vector<std::vector<int>> prods; int consume, how; }; // prods: per producer the size of each push (1, or a batch for prepend)
P gen(vs::Gen& g, bool batches) { P p; int n = g.range(1, 3); for (int i = 0; i < n; i++) { p.prods.push_back({}); int k = g.range(1, 4); for (int j = 0; j < k; j++) p.prods.back().push_back(batches && g.chance(30) ? g.range(1, 3) : 1); } p.consume = (int) g.below(3); p.how = (int) g.below(4); return p; }
std::string show(const P& p) { std::string s = sfmt("producers=%zu consume=%d how=%d:", p.prods.size(), p.consume, p.how); for (auto& v : p.prods) { s += " ["; for (int x : v) s += sfmt("%d", x); s += "]"; } return s; }
void got(Info* i, int data, std::vector<Info*>& order) { if (i->popped.add(1) != 1) vs::fail("node of producer %d returned twice", i->prod); VS_ASSERT(data == 4242, "data written before the push is not visible after the pop"); i->out.set(tick()); order.push_back(i); }
void fifo(const std::vector<Info*>& order) { for (size_t a = 0; a < order.size(); a++) for (size_t b = a + 1; b < order.size(); b++) if (order[b]->end.get() && order[b]->end.get() < order[a]->begin.get()) vs::fail("a node whose push completed before another push began came out after it"); }
vs::Case make_mpsc(vs::Gen& g) {
  P p = gen(g, false); vs::Case c; c.desc = "mpsc " + show(p);
  c.body = [p] {
    STDEXEC::__intrusive_mpsc_queue<&MNode::next> q; int total = 0; for (auto& v : p.prods) total += (int) v.size();
    std::vector<std::unique_ptr<Info>> inf; std::vector<Info*> order; ghost<int> pushing; std::atomic<int> pushed{0}; bool sync = p.how & 2; std::vector<std::function<void()>> fs; size_t base = 0; std::vector<size_t> off; for (auto& v : p.prods) { off.push_back(base); base += v.size(); }
    for (int i = 0; i < total; i++) inf.push_back(std::make_unique<Info>());
    for (size_t pr = 0; pr < p.prods.size(); pr++) fs.push_back([&, pr] { for (size_t k = 0; k < p.prods[pr].size(); k++) { Info* i = inf[off[pr] + k].get(); i->prod = (int) pr; auto* n = new MNode; n->data = 4242; n->i = i; i->begin.set(tick()); pushing.add(1); i->result.set(q.push_back(n)); i->end.set(tick()); if (sync) pushed.fetch_add(1); } });
    fs.push_back([&] {
      int cnt = 0;
      while (cnt < total) {
        int done = sync ? pushed.load() : 0; 
        MNode* n = q.pop_front();
        if (!n) { bool overlap = !sync || pushing.get() > done; if (!overlap && done > cnt) vs::fail("empty result although %d pushes had completed, %d nodes were popped and no push was in progress", done, cnt); std::this_thread::yield(); if (p.consume == 1) vs::point(); continue; }
        got(n->i, n->data, order); cnt++; n->data = 0; delete n;
      }
      for (int k = 0; k < 2; k++) VS_ASSERT(q.pop_front() == nullptr, "an empty queue returns a node");
    });
    vs_threads(std::move(fs)); fifo(order);
    if (p.how & 1) { for (int k = 0; k < 3; k++) { MNode n[2]; n[0].data = n[1].data = 1; q.push_back(&n[0]); if (k) q.push_back(&n[1]); VS_ASSERT(q.pop_front() == &n[0], "queue does not work after it was drained"); if (k) VS_ASSERT(q.pop_front() == &n[1]); VS_ASSERT(q.pop_front() == nullptr); } }
  };
  return c;
}
vs::Case make_atomic(vs::Gen& g) {
  P p = gen(g, false); vs::Case c; c.desc = "atomic_intrusive_queue " + show(p);
  c.body = [p] {
    auto qp = std::make_unique<STDEXEC::__atomic_intrusive_queue<&LNode::next>>(); auto& q = *qp; int total = 0; for (auto& v : p.prods) total += (int) v.size();
    std::vector<std::unique_ptr<Info>> inf; std::vector<Info*> order; std::vector<std::function<void()>> fs; size_t base = 0; std::vector<size_t> off; for (auto& v : p.prods) { off.push_back(base); base += v.size(); }
    for (int i = 0; i < total; i++) inf.push_back(std::make_unique<Info>());
    for (size_t pr = 0; pr < p.prods.size(); pr++) fs.push_back([&, pr] { for (size_t k = 0; k < p.prods[pr].size(); k++) { Info* i = inf[off[pr] + k].get(); i->prod = (int) pr; auto* n = new LNode; n->data = 4242; n->i = i; i->begin.set(tick()); bool r = q.push(n); i->result.set(r); i->end.set(tick()); } });
    fs.push_back([&] {
      int cnt = 0, batch = 0;
      while (cnt < total) {
        if (p.consume != 2) q.wait_for_item(); else std::this_thread::yield();
        long t0 = tick(); auto b = q.pop_all(); int idx = 0;
        if (b.empty()) { VS_ASSERT(p.consume == 2, "wait_for_item returned although the queue is empty"); for (auto& i : inf) if (i->end.get() && i->end.get() < t0 && !i->popped.get()) vs::fail("pop_all reports an empty queue although a completed push was not returned"); continue; }
        while (!b.empty()) { LNode* n = b.pop_front(); n->i->batch.set(batch); n->i->idx.set(idx++); got(n->i, n->data, order); cnt++; n->data = 0; delete n; }
        batch++;
      }
      VS_ASSERT(q.pop_all().empty(), "an empty queue returns a node");
    });
    vs_threads(std::move(fs)); fifo(order);
    for (auto& i : inf) if ((i->idx.get() == 0) != (i->result.get() == 1)) vs::fail("push reports wrongly whether the queue was empty");
  };
  return c;
}
vs::Case make_exec(vs::Gen& g) {
  P p = gen(g, true); vs::Case c; c.desc = "exec atomic_intrusive_queue " + show(p);
  c.body = [p] {
    exec::__atomic_intrusive_queue<&LNode::next> q; int total = 0; for (auto& v : p.prods) for (int x : v) total += x; std::vector<size_t> off; size_t base = 0; for (auto& v : p.prods) { off.push_back(base); for (int x : v) base += (size_t) x; }
    std::vector<std::unique_ptr<Info>> inf; std::vector<Info*> order; std::vector<std::function<void()>> fs; for (int i = 0; i < total; i++) inf.push_back(std::make_unique<Info>());
    bool fwd = p.consume != 1; std::vector<std::vector<Info*>> grp;
    for (size_t pr = 0; pr < p.prods.size(); pr++) fs.push_back([&, pr] { size_t k = off[pr];
      for (int sz : p.prods[pr]) {
        std::vector<LNode*> ns; for (int j = 0; j < sz; j++) { Info* i = inf[k++].get(); i->prod = (int) pr; auto* n = new LNode; n->data = 4242; n->i = i; ns.push_back(n); }
        long b = tick(); for (auto* n : ns) n->i->begin.set(b);
        std::vector<Info*> is; for (auto* n : ns) is.push_back(n->i);
        if (sz > 1 || (p.how & 2)) { STDEXEC::__intrusive_queue<&LNode::next> iq; for (auto* n : ns) iq.push_back(n); { vs::Ghost gg; grp.push_back(is); } q.prepend(std::move(iq)); }
        else if (p.how & 1) { while (true) { auto r = q.try_push_front(ns[0]); if (r.__success) { is[0]->result.set(r.__was_empty); break; } std::this_thread::yield(); } }
        else is[0]->result.set(q.push_front(ns[0]));
        long e = tick(); for (auto* i : is) i->end.set(e);
      } });
    fs.push_back([&] {
      int cnt = 0, batch = 0;
      while (cnt < total) {
        std::this_thread::yield(); if (p.consume == 2) { if (q.empty()) { vs::point(); continue; } }
        long t0 = tick(); auto b = fwd ? q.pop_all_reversed() : q.pop_all(); std::vector<LNode*> v; while (!b.empty()) v.push_back(b.pop_front());
        if (v.empty()) { VS_ASSERT(p.consume != 2, "not empty() but pop_all returns nothing"); for (auto& i : inf) if (i->end.get() && i->end.get() < t0 && !i->popped.get()) vs::fail("pop_all reports an empty queue although a completed push was not returned"); continue; }
        if (!fwd) std::reverse(v.begin(), v.end());
        int idx = 0; for (auto* n : v) { n->i->batch.set(batch); n->i->idx.set(idx++); got(n->i, n->data, order); cnt++; n->data = 0; delete n; }
        batch++;
      }
      VS_ASSERT(q.empty(), "drained queue is not empty");
    });
    vs_threads(std::move(fs)); fifo(order);
    for (auto& i : inf) if (i->result.get() >= 0 && (i->idx.get() == 0) != (i->result.get() == 1)) vs::fail("push_front reports wrongly whether the queue was empty");
    // a prepended list stays together: its first node is the newest
    for (auto& g2 : grp) for (size_t j = 0; j + 1 < g2.size(); j++) VS_ASSERT(g2[j]->batch.get() == g2[j + 1]->batch.get() && g2[j]->idx.get() == g2[j + 1]->idx.get() + 1, "a prepended list was torn apart or reordered");
  };
  return c;
}
}
int main(int argc, char** argv) { return vs::run_main(argc, argv, {{"mpsc", make_mpsc, 2}, {"atomic", make_atomic, 1}, {"exec", make_exec, 1}}); }
