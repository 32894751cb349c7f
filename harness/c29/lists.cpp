#include "c29.hpp"
#include <stdexec/__detail/__intrusive_queue.hpp>
#include <stdexec/__detail/__intrusive_slist.hpp>
#include <stdexec/__detail/__atomic_intrusive_queue.hpp>
#include <exec/detail/atomic_intrusive_queue.hpp>
#include <exec/detail/intrusive_heap.hpp>
namespace c29 {
struct N { N* next = nullptr; int id = 0; bool in = false; };
using Q = STDEXEC::__intrusive_queue<&N::next>;
using L = STDEXEC::__intrusive_slist<&N::next>;
using A = exec::__atomic_intrusive_queue<&N::next>;
template <class C> void same(const C& q, const std::deque<N*>& m, const char* w) {
  VS_ASSERT(q.empty() == m.empty(), "empty() disagrees with the contents");
  size_t k = 0; for (N* n : q) { if (k >= m.size() || n != m[k]) vs::fail("%s: element %zu is node %d, expected %d", w, k, n->id, k < m.size() ? m[k]->id : -1); ++k; if (k > 200) vs::fail("%s: iteration does not end", w); }
  if (k != m.size()) vs::fail("%s: iteration visits %zu of %zu elements", w, k, m.size());
  if (!m.empty()) VS_ASSERT(q.front() == m.front(), "front() is not the first element");
}
vs::Case make_queue(vs::Gen& g) {
  auto o = ops(g, 20, 11, 3); vs::Case c; c.desc = "queue:" + show(o);
  c.body = [o] {
    vs::nontrivial(o.size() >= 4);
    std::vector<std::unique_ptr<N>> pool; auto fresh = [&] { pool.push_back(std::make_unique<N>()); pool.back()->id = (int) pool.size(); pool.back()->next = (N*) 0x11; return pool.back().get(); };
    Q q[3]; std::deque<N*> m[3];
    auto chain = [&](int n, std::deque<N*>& out) -> N* { N* h = nullptr; for (int i = 0; i < n; i++) { N* x = fresh(); x->next = h; h = x; out.push_front(x); } return h; };
    for (auto& x : o) { int i = x.a, j = x.b;
      switch (x.k) {
        case 0: case 1: { N* n = fresh(); q[i].push_back(n); m[i].push_back(n); } break;
        case 2: { N* n = fresh(); q[i].push_front(n); m[i].push_front(n); } break;
        case 3: if (!m[i].empty()) { N* n = q[i].pop_front(); VS_ASSERT(n == m[i].front(), "pop_front does not return the first element"); m[i].pop_front(); n->next = (N*) 0x33; } break;
        case 4: if (i != j) { q[i].append(std::move(q[j])); m[i].insert(m[i].end(), m[j].begin(), m[j].end()); m[j].clear(); } break;
        case 5: if (i != j) { q[i].prepend(std::move(q[j])); m[i].insert(m[i].begin(), m[j].begin(), m[j].end()); m[j].clear(); } break;
        case 6: if (i != j) { std::swap(q[i], q[j]); std::swap(m[i], m[j]); } break;
        case 7: { Q t(std::move(q[i])); VS_ASSERT(q[i].empty() && q[i].back() == nullptr, "moved-from queue is not empty"); q[i] = std::move(t); VS_ASSERT(t.empty()); } break;
        case 8: if (m[i].empty()) { std::deque<N*> d; N* h = chain(x.c, d); q[i] = Q::make(h); m[i] = d; } break;
        case 9: if (m[i].empty()) { std::deque<N*> d; N* h = chain(x.c, d); q[i] = Q::make_reversed(h); m[i] = std::deque<N*>(d.rbegin(), d.rend()); } break;
        case 10: if (x.c == 7) { q[i].clear(); m[i].clear(); } break;
      }
      for (int k = 0; k < 3; k++) { same(q[k], m[k], "queue"); VS_ASSERT(q[k].back() == (m[k].empty() ? nullptr : m[k].back()), "back() is not the last element"); }
    }
    for (auto& x : q) x.clear();
  };
  return c;
}
vs::Case make_slist(vs::Gen& g) {
  auto o = ops(g, 20, 7, 3); vs::Case c; c.desc = "slist:" + show(o);
  c.body = [o] {
    vs::nontrivial(o.size() >= 4);
    std::vector<std::unique_ptr<N>> pool; auto fresh = [&] { pool.push_back(std::make_unique<N>()); pool.back()->id = (int) pool.size(); pool.back()->next = (N*) 0x11; return pool.back().get(); };
    L q[3]; std::deque<N*> m[3];
    for (auto& x : o) { int i = x.a, j = x.b;
      switch (x.k) {
        case 0: case 1: { N* n = fresh(); q[i].push_front(n); m[i].push_front(n); } break;
        case 2: if (!m[i].empty()) { N* n = q[i].pop_front(); VS_ASSERT(n == m[i].front()); m[i].pop_front(); } break;
        case 3: if (!m[i].empty()) { size_t k = (size_t) x.c % m[i].size(); N* n = m[i][k]; VS_ASSERT(q[i].remove(n) == n, "remove does not return the removed element"); m[i].erase(m[i].begin() + (long) k); } break;
        case 4: { N* n = fresh(); VS_ASSERT(q[i].remove(n) == nullptr || m[i].empty(), "removing an element that is not in the list succeeds"); } break;
        case 5: q[i].swap(q[j]); std::swap(m[i], m[j]); break;
        case 6: { L t(std::move(q[i])); VS_ASSERT(q[i].empty()); q[i] = std::move(t); if (x.c == 7) { q[i].clear(); m[i].clear(); } } break;
      }
      for (int k = 0; k < 3; k++) same(q[k], m[k], "slist");
    }
  };
  return c;
}
vs::Case make_lifo(vs::Gen& g) { // the atomic queue, used by one thread
  auto o = ops(g, 20, 6, 2); vs::Case c; c.desc = "lifo:" + show(o);
  c.body = [o] {
    vs::nontrivial(o.size() >= 4);
    std::vector<std::unique_ptr<N>> pool; auto fresh = [&] { pool.push_back(std::make_unique<N>()); pool.back()->id = (int) pool.size(); return pool.back().get(); };
    A a; std::deque<N*> m;
    for (auto& x : o) {
      switch (x.k) {
        case 0: case 1: { N* n = fresh(); bool e = a.push_front(n); VS_ASSERT(e == m.empty(), "push reports wrongly whether the queue was empty"); m.push_front(n); } break;
        case 2: { N* n = fresh(); auto r = a.try_push_front(n); VS_ASSERT(r.__success && r.__was_empty == m.empty(), "try_push failed without contention, or reports wrongly"); m.push_front(n); } break;
        case 3: { Q t; std::deque<N*> d; for (int k = 0; k <= x.c; k++) { N* n = fresh(); t.push_back(n); d.push_back(n); } a.prepend(std::move(t)); m.insert(m.begin(), d.begin(), d.end()); } break;
        case 4: { Q t = a.pop_all(); same(t, m, "pop_all"); VS_ASSERT(t.back() == (m.empty() ? nullptr : m.back())); t.clear(); m.clear(); } break;
        case 5: { Q t = a.pop_all_reversed(); std::deque<N*> d(m.rbegin(), m.rend()); same(t, d, "pop_all_reversed"); VS_ASSERT(t.back() == (d.empty() ? nullptr : d.back())); t.clear(); m.clear(); } break;
      }
      VS_ASSERT(a.empty() == m.empty(), "empty() disagrees with the contents");
    }
  };
  return c;
}
// an intrusive list used by the blocks above is not enough for the heap: arbitrary erase positions, keys with duplicates
struct HN { int key = 0; HN *prev = nullptr, *left = nullptr, *right = nullptr; bool in = false; };
using H = exec::intrusive_heap<HN, int, &HN::key, &HN::prev, &HN::left, &HN::right>;
vs::Case make_heap(vs::Gen& g) {
  int n = g.range(1, 40); std::vector<std::pair<int, int>> o; for (int i = 0; i < n; i++) o.push_back({(int) g.below(4), g.range(0, 15)}); vs::Case c; c.desc = "heap:"; for (auto& [k, a] : o) c.desc += k <= 1 ? sfmt(" +%d", a) : k == 2 ? " pop" : sfmt(" erase#%d", a);
  c.body = [o] {
    vs::nontrivial(o.size() >= 6); std::vector<std::unique_ptr<HN>> all; H h; std::multiset<int> ref;
    auto valid = [&] { HN* f = h.front(); if (ref.empty()) { VS_ASSERT(!f, "empty heap has a front"); return; } VS_ASSERT(f && f->in && f->key == *ref.begin(), "front is not a smallest element"); size_t cnt = 0; std::vector<HN*> st{f}; VS_ASSERT(!f->prev, "the root has a parent"); while (!st.empty()) { HN* x = st.back(); st.pop_back(); if (++cnt > ref.size()) vs::fail("the heap holds more nodes than were inserted"); VS_ASSERT(x->in, "the heap holds a removed node"); for (HN* y : {x->left, x->right}) if (y) { VS_ASSERT(y->prev == x, "parent link broken"); VS_ASSERT(!(y->key < x->key), "heap order broken"); st.push_back(y); } } VS_ASSERT(cnt == ref.size(), "nodes are lost"); };
    for (auto& [k, a] : o) {
      if (k <= 1) { all.push_back(std::make_unique<HN>()); HN* x = all.back().get(); x->key = a; x->in = true; h.insert(x); ref.insert(a); }
      else if (k == 2) { if (HN* f = h.front()) { h.pop_front(); VS_ASSERT(f->in); f->in = false; ref.erase(ref.find(f->key)); } }
      else if (!all.empty()) { HN* x = all[(size_t) a * 7 % all.size()].get(); bool r = h.erase(x); VS_ASSERT(r == x->in, "erase reports wrongly whether the element was in the heap"); if (r) { x->in = false; ref.erase(ref.find(x->key)); } }
      valid();
    }
    int last = -1; while (HN* f = h.front()) { VS_ASSERT(f->key >= last, "elements come out of order"); last = f->key; h.pop_front(); f->in = false; ref.erase(ref.find(f->key)); valid(); } VS_ASSERT(ref.empty());
  };
  return c;
}
}
