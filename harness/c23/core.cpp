#include "c23.hpp"
namespace c23 {
std::vector<Pipe> pipes;
static Node inst(const Node& n, int off) { Node r = n; if (r.t == Node::SRC) r.id += off; for (auto& c : r.ch) c = inst(c, off); return r; }
static Node nested(const Node& each, int k) { return inst(each.ch[0], st()->sc.src[OUTER].items[k].nested); }
static bool anyStop() { auto& s = *st(); if (s.extReq || !s.errs.empty() || s.anyBreak || s.threw) return true; for (auto& f : s.f) if (f.brk || (f.done && f.end == S)) return true; return false; }
static std::vector<int> sent_outer() { std::vector<int> r; auto& f = st()->f[OUTER]; auto& it = st()->sc.src[OUTER].items; (void) f; for (int i = 0; i < (int) it.size(); i++) if (it[i].kind == V) r.push_back(i); return r; }
static void leaves(const Node& n, int off, std::vector<std::pair<int, int>>& out) {
  if (n.t == Node::SRC) out.push_back({n.id, off});
  else if (n.t == Node::EACH) { for (int k : sent_outer()) leaves(nested(n, k), off, out); }
  else for (auto& c : n.ch) leaves(c, off + (n.t == Node::TRANS ? 10000 : 0), out); }
static bool has_iter(const Node& n, int off, int& o) { if (n.t == Node::ITER) { o = off; return true; } for (auto& c : n.ch) if (has_iter(c, off + (n.t == Node::TRANS ? 10000 : 0), o)) return true; return false; }
static bool started(const Node& n) { std::vector<std::pair<int, int>> l; leaves(n, 0, l); for (auto& x : l) if (st()->f[x.first].started) return true; return false; }
static const Pipe* cur; static const Node& st_root() { return cur->node; }
Exp eval(const Node& n) {
  auto& s = *st(); Exp r;
  switch (n.t) {
  case Node::EMPTY: r.v = true; break;
  case Node::SRC: { auto& f = s.f[n.id]; if (f.done) { if (f.end == V) r.v = true; else if (f.end == S) r.s = true; else r.e.insert(f.err); } break; }
  case Node::TRANS: r = eval(n.ch[0]); break;
  case Node::ITER: r.v = true; if (anyStop()) r.s = true; break;
  case Node::MERGE: { bool allV = true, mustE = false; for (auto& c : n.ch) { Exp x = eval(c);
      if (c.t == Node::SRC || c.t == Node::TRANS) { auto& l = c.t == Node::SRC ? c : c.ch[0]; if (l.t == Node::SRC) { if (!s.f[l.id].started) x.s = true; else if (s.f[l.id].brk && x.v) { x.v = false; x.s = true; } } else if (s.anyBreak) x.s = true; }
      else if (c.t != Node::EMPTY && anyStop()) x.s = true;
      if (!x.v) allV = false; if (!x.v && !x.s && !x.e.empty()) mustE = true; r.s |= x.s; r.e.insert(x.e.begin(), x.e.end()); }
    if (anyStop() && (s.extReq || &n != &st_root())) r.s = true; r.v = allV; if (mustE) r.v = r.s = false; break; }
  case Node::EACH: { auto& f = s.f[OUTER]; if (!f.started) { r.s = true; break; }
      bool itemErr = false; auto& it = s.sc.src[OUTER].items; bool outE = f.done && f.end == E; if (outE) r.e.insert(f.err);
      for (int e : s.errs) if (e / 100 == 50 + OUTER) itemErr = true;
      for (int k : sent_outer()) { Node c = nested(n, k); Exp x = eval(c); if (!x.e.empty()) itemErr = true; std::vector<std::pair<int, int>> l; leaves(c, 0, l); for (auto& y : l) for (int e : s.errs) if (e / 100 == 50 + y.first) itemErr = true; }
      (void) it; if (s.threw) { itemErr = true; }
      if (itemErr) { r.v = true; if (anyStop() && s.extReq) r.s = true; if (s.threw) r.s = true; }
      else if (!outE) { if (f.done && f.end == S) r.s = true; else r.v = true; }
      break; }
  }
  if (s.threw) { r.e.insert(8000); for (int i = 0; i < 8; i++) r.e.insert(7000 + i); }
  return r;
}
static bool must_stop(const Pipe& p) { // the running sources must have been asked to stop
  auto& s = *st(); Node n = p.node; while (n.t == Node::TRANS) n = n.ch[0];
  if (n.t == Node::MERGE) { for (auto& c : n.ch) { Node x = c; while (x.t == Node::TRANS) x = x.ch[0]; if (x.t == Node::SRC && s.f[x.id].done && (s.f[x.id].end != V || s.f[x.id].brk)) return true; } return false; }
  if (n.t == Node::EACH) { if (!s.errs.empty()) return true; auto& f = s.f[OUTER]; return f.done && f.end != V; }
  return false;
}
static void idle(ex::inplace_stop_source*& ss) {
  auto& s = *st(); bool post = false;
  { vs::Ghost g;
    if (must_stop(*cur) && !s.held.empty()) vs::fail("a source failed or stopped, but others that are running were not asked to stop");
    if (cur->never) { if (s.held.empty()) vs::fail("the sequence never completes"); post = true; }
    else { if (s.extReq) vs::fail("the sequence does not complete although stop was requested and every other event has been delivered"); s.extReq = true; } }
  if (post) { std::deque<std::function<void()>> h; { std::lock_guard g(s.m); h.swap(s.held); } for (auto& e : h) s.post(e); }
  else ss->request_stop();
}
#ifndef C23_MT
void drive(St& s, ex::inplace_stop_source*& ss) {
  for (int n = 0;; n++) {
    if (n > 2000) vs::fail("endless");
    if (s.ev.empty()) { if (s.done) return; idle(ss); continue; }
    if (s.sc.ext == 2 && !s.extReq && !s.done && vs::choose(4) == 0) { s.extReq = true; ss->request_stop(); continue; }
    size_t k = vs::choose((uint32_t) s.ev.size()); auto e = std::move(s.ev[k]); s.ev.erase(s.ev.begin() + (long) k); e();
  }
}
#else
void drive(St& s, ex::inplace_stop_source*& ss) {
  int nw = 2; std::vector<std::thread> t; bool go = false;
  auto worker = [&] { for (;;) { std::function<void()> e; { std::unique_lock l(s.m); while (s.ev.empty() && !s.quit) { s.waiting++; s.mcv.notify_all(); s.cv.wait(l); s.waiting--; } if (s.ev.empty()) return; size_t k = vs::choose((uint32_t) std::min<size_t>(s.ev.size(), 4)); e = std::move(s.ev[k]); s.ev.erase(s.ev.begin() + (long) k); } e(); } };
  (void) go; for (int i = 0; i < nw; i++) t.emplace_back(worker);
  if (s.sc.ext == 2) { vs::idle((int) vs::choose(12)); bool ok; { std::lock_guard g(s.m); ok = !s.quit; } if (ok) { { vs::Ghost g; s.extReq = true; } ss->request_stop(); s.extDone = true; } }
  for (;;) { { std::unique_lock l(s.m); while (!s.quit && !(s.ev.empty() && s.waiting == nw)) s.mcv.wait(l); if (s.quit) break; } idle(ss); 
    { std::unique_lock l(s.m); if (!s.quit && s.ev.empty() && s.waiting == nw) { l.unlock(); idle(ss); } } }
  for (auto& x : t) x.join();
}
#endif
static std::string show(const Script& c, const Pipe& p) {
  std::string r = p.name; const char* K = "vse"; const char* M = "idxw";
  auto one = [&](int i) { auto& x = c.src[i]; r += sfmt(" %s%d[", i == OUTER ? "outer" : "src", i); for (auto& it : x.items) { r += K[it.kind]; r += M[it.mode]; if (i == OUTER) r += char('0' + it.nested); r += ' '; } r += sfmt("end=%c%c brk=%c%s%s]", K[x.end], M[x.endMode], K[x.onBreak], x.par ? " par" : "", x.checkStop ? "" : " nocheck"); };
  for (int i = 0; i < p.nsrc; i++) one(i); if (p.outer) one(OUTER);
  r += sfmt(" cons(brk=%d err=%c stop=%c delay=%x) ext=%d%s%s", c.cons.brk, K[c.cons.onErr], K[c.cons.onStop], c.cons.delay, c.ext, c.destroyOp ? " destroy-op" : "", c.destroySrc ? " destroy-src" : "");
  if (p.iter) r += sfmt(" niter=%d", c.niter); if (c.throwAt >= 0) r += sfmt(" throw@%d", c.throwAt); return r;
}
static void check(const Pipe& p) {
  auto& s = *st(); Exp x = eval(p.node);
  if (p.iav) { // the first failing item decides when the sequence itself ends with a value
    Exp y; bool fail = false; std::vector<std::pair<int, int>> l; leaves(p.node, 0, l); for (auto& q : l) for (int i = 0; i < s.f[q.first].sent; i++) { } 
    for (auto& q : l) { auto& f = s.f[q.first]; if (f.brk) fail = true; }
    if (x.v) { y = x; y.e.insert(s.errs.begin(), s.errs.end()); if (fail) { y.v = false; y.s = true; } if (anyStop()) y.s = true; if (!fail && s.errs.empty() && !anyStop()) { y.s = false; } } else y = x;
    if (p.node.t != Node::SRC && anyStop()) y.v |= x.v; 
    x = y; }
  if (s.extBefore && !p.never && p.node.t != Node::SRC && p.node.t != Node::ITER && p.node.t != Node::TRANS && !(s.fin == S || (s.fin == E && p.node.t == Node::MERGE))) vs::fail("stop was requested before start but the sequence does not complete with stopped");
  bool ok = s.fin == V ? x.v : s.fin == S ? x.s : x.e.count(s.finErr) > 0;
  if (!ok) { std::string a; if (x.v) a += " value"; if (x.s) a += " stopped"; for (int e : x.e) if (e < 7000 || s.threw) a += sfmt(" error(%d)", e); vs::fail("the sequence completes with %s(%d); allowed:%s", s.fin == V ? "value" : s.fin == S ? "stopped" : "error", s.finErr, a.c_str()); }
  if (s.threw && s.fin == V && !p.iav && s.errItems.empty()) vs::fail("an exception was thrown but neither the sequence nor an item fails");
  // a source is told to break off only for a reason
  { bool cause = s.extReq || !s.errs.empty() || s.anyBreak || s.threw || s.sc.throwAt >= 0;
    for (auto& x : s.sc.src) { if (x.end != V) cause = true; for (auto& it : x.items) if (it.kind != V || it.mode == WAITSTOP) cause = true; }
    if (!cause) for (auto& f : s.f) if (f.brk) vs::fail("a source was told to break off although no item, source, consumer or stop request asked for it"); }
  // items
  std::vector<std::pair<int, int>> l; leaves(p.node, 0, l);
  if (!p.iav) {
    std::map<int, std::vector<int>> got; int io = 0; bool it = has_iter(p.node, 0, io); std::vector<int> iv;
    for (auto& g : s.got) if (g.first == V) { int b = g.second % 10000; if (b >= 5000) { iv.push_back(g.second); continue; } got[b / 100].push_back(g.second); }
    for (auto& q : l) { auto& f = s.f[q.first]; std::vector<int> want; for (int v : f.values) want.push_back(v + q.second); auto& h = got[q.first]; 
      if (s.sc.src[q.first].par) { std::sort(want.begin(), want.end()); std::sort(h.begin(), h.end()); }
      if (want != h) { std::string a, b; for (int v : want) a += sfmt(" %d", v); for (int v : h) b += sfmt(" %d", v); vs::fail("items of source %d: sent%s, received%s", q.first, a.c_str(), b.c_str()); } got.erase(q.first); }
    for (auto& g : got) if (!g.second.empty()) vs::fail("items received from a source (%d) that does not exist", g.first);
    if (it) { for (size_t i = 0; i < iv.size(); i++) if (iv[i] != 5000 + (int) i + io) vs::fail("iterate: the %zu-th item has the value %d", i, iv[i]);
      if ((int) iv.size() > s.sc.niter) vs::fail("iterate: too many items"); if (s.fin == V && !anyStop() && (int) iv.size() != s.sc.niter) vs::fail("iterate: %zu of %d items", iv.size(), s.sc.niter); }
    // an error item is delivered at most once per merge_each, and is one of the errors raised
    for (int e : s.errItems) if (!s.errs.count(e) && !(s.threw && e >= 7000)) vs::fail("an item fails with an error (%d) nobody raised", e);
  }
  if (!anyStop()) { for (auto& q : l) if (!s.f[q.first].complete) vs::fail("the sequence completes with a value but source %d was not run to its end", q.first); }
}
static void gen(vs::Gen& g, Script& c, const Pipe& p) {
  bool mt = false;
#ifdef C23_MT
  mt = true;
#endif
  for (int i = 0; i < SRCS; i++) { auto& s = c.src[i]; s.items.clear(); s.end = V; s.endMode = INL; s.onBreak = V; s.par = false; s.checkStop = true; }
  int calm = g.below(3) == 0; // nothing fails
  for (int i = 0; i < SRCS; i++) { if (i >= p.nsrc && !(i == OUTER && p.outer)) continue; auto& s = c.src[i]; int n = g.range(0, 3);
    for (int k = 0; k < n; k++) { Item it; it.kind = calm || !g.chance(15) ? (int) V : g.range(1, 2); it.mode = g.chance(mt ? 55 : 35) ? g.range(1, calm ? 1 : 3) : 0; if (it.mode == WAITSTOP && g.chance(60)) it.mode = DEFER; it.nested = 0; s.items.push_back(it); }
    s.end = calm || !g.chance(20) ? (int) V : g.range(1, 2); s.endMode = g.chance(35) ? g.range(1, calm ? 1 : 3) : 0; s.onBreak = g.chance(30) ? S : V; s.par = g.chance(25); s.checkStop = !g.chance(20); }
  if (std::string(p.name).find("any") != std::string::npos) for (auto& s : c.src) { for (auto& it : s.items) if (it.mode == WAITSTOP) it.mode = DEFER; if (s.endMode == WAITSTOP) s.endMode = DEFER; } // no stop token is passed through queries<>
  if (std::string(p.name).find("each(merge)") == 0) for (int i = 0; i < OUTER; i++) for (auto& it : c.src[i].items) if (it.mode == WAITSTOP) it.mode = DEFER; // merge_each replaces the token of the inner merge in the items' environment
  if (p.outer) { int step = p.node.t == Node::EACH || true ? 1 : 1; int nx = 0, room = p.nsrc; // nested ids
    const Node* e = &p.node; std::function<const Node*(const Node&)> find = [&](const Node& n) -> const Node* { if (n.t == Node::EACH) return &n; for (auto& q : n.ch) if (auto r = find(q)) return r; return nullptr; }; e = find(p.node);
    std::function<int(const Node&)> width = [&](const Node& n) { int w = n.t == Node::SRC ? n.id + 1 : 0; for (auto& q : n.ch) w = std::max(w, width(q)); return w; }; step = width(e->ch[0]);
    int lim = room; std::function<int(const Node&, bool)> outside = [&](const Node& n, bool in) -> int { if (n.t == Node::EACH) return 99; int w = n.t == Node::SRC ? n.id : 99; for (auto& q : n.ch) w = std::min(w, outside(q, in)); return w; }; lim = std::min(lim, outside(p.node, false));
    auto& s = c.src[OUTER]; std::vector<Item> v; for (auto& it : s.items) { if (it.kind == V) { if (nx + step > lim) continue; it.nested = nx; nx += step; } v.push_back(it); } s.items = v; }
  c.cons.brk = calm || !g.chance(20) ? -1 : g.range(0, 4); c.cons.onErr = g.chance(30) ? S : V; c.cons.onStop = g.chance(30) ? V : S; c.cons.delay = g.chance(40) ? (int) g.below(256) : 0;
  c.ext = p.never || calm ? 0 : g.chance(12) ? 1 : g.chance(25) ? 2 : 0; c.destroyOp = g.chance(40); c.destroySrc = g.chance(mt ? 60 : 30); c.throwAt = !calm && g.chance(12) ? g.range(0, 8) : -1; c.niter = g.range(0, 4);
}
static vs::Case make2(vs::Gen& g, bool stop);
vs::Case make(vs::Gen& g) { return make2(g, false); }
vs::Case make_stop(vs::Gen& g) { return make2(g, true); }
static vs::Case make2(vs::Gen& g, bool stop) {
  if (pipes.empty()) for (auto v : {pipes_a(), pipes_b(), pipes_c(), pipes_d(), pipes_e()}) pipes.insert(pipes.end(), v.begin(), v.end());
  if (const char* o = getenv("C23_PIPE")) { std::vector<Pipe> q; for (auto& x : pipes) if (std::string(x.name) == o) q.push_back(x); pipes = q; }
  const Pipe& p = pipes[g.below((uint32_t) pipes.size())]; auto sc = std::make_shared<Script>(); sc->pipe = (int) (&p - pipes.data()); gen(g, *sc, p); if (stop && !p.never) { sc->ext = 2; sc->throwAt = -1; for (auto& s : sc->src) if (s.items.size() > 1) s.items.resize(1); }
  return {[sc, &p] {
    auto s = std::make_unique<St>(); s->sc = *sc; s->fuse = sc->throwAt; { vs::Ghost g; st() = s.get(); cur = &p; }
    auto* ss = new ex::inplace_stop_source; p.run(*s, ss);
    vs::Ghost g; s->ev.clear(); s->held.clear();
    if (s->done) { check(p); vs::label(s->fin == V ? "value" : s->fin == S ? "stopped" : "error"); } vs::label(p.name); if (s->anyBreak) vs::label("break"); if (s->threw) vs::label("threw"); if (!s->errItems.empty()) vs::label("error_item");
#ifndef C23_MT
    vs::nontrivial(s->got.size() >= 1 && p.nsrc + p.outer + p.iter >= 1);
#endif
    st() = nullptr;
  }, show(*sc, p)};
}
}
int main(int c, char** v) { return vs::run_main(c, v, {{"seq", c23::make, 2}, {"stop", c23::make_stop, 1}}); }
