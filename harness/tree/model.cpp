// Reference implementation of the algorithms, written independently of the library: plain objects, one thread,
// the same driver actions are replayed on it.
#include "tree.hpp"
namespace tr { namespace {
  struct MCb; 
  struct MSrc {
    bool req = false; std::vector<MCb*> cbs;
    bool request(bool fifo);
  };
  struct MCb {
    MSrc* s = nullptr; std::function<void()> f; bool in = false;
    void reg(MSrc* src, std::function<void()> fn) { f = std::move(fn); s = src; if (!s) return; if (s->req) { f(); return; } in = true; s->cbs.push_back(this); }
    void unreg() { if (in) { in = false; std::erase(s->cbs, this); } }
  };
  bool MSrc::request(bool fifo) {
    if (req) return false;
    req = true;
    while (!cbs.empty()) { MCb* c = fifo ? cbs.front() : cbs.back(); if (fifo) cbs.erase(cbs.begin()); else cbs.pop_back(); c->in = false; c->f(); }
    return true;
  }
  struct MEnv { MSrc* tok = nullptr; long q1 = -1, q2 = -1; int sched = -1, start = -1; bool req() const { return tok && tok->req; } };
  struct MRcv { std::function<void(int, long)> f; std::function<MEnv()> e; };
  struct MOp { std::function<void()> start; };
  struct QItem { std::function<void()> run; };

  struct M {
    bool fifo, tramp_inline; std::vector<Ev> cur; int ctx = 0;
    std::map<int, int> starts, calls, conns;
    struct Leaf; std::map<std::pair<int, int>, std::function<void()>> pending;
    std::deque<std::function<void()>> q[5];
    std::vector<std::shared_ptr<void>> arena;
    MSrc top, ext;
    bool tramp_active = false; std::deque<std::function<void()>> tramp;
    template <class T> T* mk() { auto p = std::make_shared<T>(); arena.push_back(p); return p.get(); }
    MOp* op(std::function<void()> s) { auto* o = mk<MOp>(); o->start = std::move(s); return o; }
    MRcv* rcv(std::function<void(int, long)> f, std::function<MEnv()> e) { auto* r = mk<MRcv>(); r->f = std::move(f); r->e = std::move(e); return r; }
    void log(char t, int node, int inst, long v) { cur.push_back(Ev{t, node, inst, ctx, v, {}}); }
    long call(Node* n, long in) { int k = calls[n->id]++; log('C', n->id, k, in); if (k == n->thr) throw Exc{n->id * 100 + k}; return mixv(in, n->id); }
    // f() computes the value; an exception becomes CX
    template <class F> void val_or_exc(MRcv* r, F f) { long v; try { v = f(); } catch (Exc& e) { r->f(CX, e.code); return; } r->f(CV, v); }

    // ---- building blocks; all take "connect a child with this receiver" functions
    using Conn = std::function<MOp*(MRcv*)>;
    MOp* map(Conn c, std::function<bool(int&, long&)> g, MRcv* r) {      // g may throw Exc
      return c(rcv([=, this](int ch, long v) { try { g(ch, v); } catch (Exc& e) { ch = CX; v = e.code; } r->f(ch, v); }, r->e));
    }
    // schedule operation on context k with receiver completing CV / CS
    MOp* sched(int k, MRcv* r) {
      auto fin = [=, this] { if ((k == 1 || k == 2) && r->e().req()) r->f(CS, 0); else r->f(CV, 0); };
      return op([=, this] { if (k == 4) fin(); else q[k].push_back(fin); });
    }
    MOp* conton(Conn c, std::function<int()> k, MRcv* r) {
      struct S { int ch = 0; long v = 0; MOp* s = nullptr; }; auto* st = mk<S>();
      st->s = sched(k(), rcv([=](int ch, long v) { if (ch == CV) r->f(st->ch, st->v); else r->f(ch, v); }, r->e));
      return c(rcv([=](int ch, long v) { st->ch = ch; st->v = v; st->s->start(); }, r->e));
    }
    // first (void), then second connected lazily; env of the second may be changed
    MOp* seq2(Conn a, Conn b, std::function<MEnv()> env2, MRcv* r) {
      auto* r2 = rcv(r->f, env2);
      return a(rcv([=](int ch, long v) {
        if (ch != CV) { r->f(ch, v); return; }
        MOp* o; try { o = b(r2); } catch (Exc& e) { r->f(CX, e.code); return; }
        o->start();
      }, r->e));
    }
    std::function<MEnv()> on_sched(MRcv* r, int k) { return [=] { MEnv e = r->e(); e.start = k; return e; }; }
    Conn justc(int ch, long v) { return [=, this](MRcv* r) { return op([=] { r->f(ch, v); }); }; }
    MOp* starts_on(int k, Conn c, MRcv* r) { return seq2([=, this](MRcv* rr) { return conton(justc(CV, 0), [=] { return k; }, rr); }, c, on_sched(r, k), r); }
    void tramp_start(std::function<void()> f) {
      if (!tramp_active) { tramp_active = true; f(); while (!tramp.empty()) { auto x = std::move(tramp.front()); tramp.pop_front(); x(); } tramp_active = false; }
      else if (tramp_inline) f();
      else tramp.push_back(std::move(f));
    }
    // connects the child after a trampoline hop
    MOp* bouncy(Conn c, MRcv* r) {
      return seq2([=, this](MRcv* rr) { return op([=, this] { tramp_start([=] { if (rr->e().req()) rr->f(CS, 0); else rr->f(CV, 0); }); }); }, c,
                  [=] { return r->e(); }, r);
    }
    MOp* repeat(Conn child, std::function<bool(long)> done, MRcv* r) {
      struct S { std::function<void(int, long)> f; MRcv* cr; MOp* cur; }; auto* st = mk<S>();
      st->cr = rcv([=, this](int ch, long v) {
        if (ch != CV) { r->f(ch, v); return; }
        if (done(v)) { r->f(CV, 0); return; }
        MOp* o; try { o = bouncy(child, st->cr); } catch (Exc& e) { r->f(CX, e.code); return; }
        o->start();
      }, r->e);
      MOp* first = bouncy(child, st->cr);
      return first;
    }
    // when_all over children; values combined with mixv in order
    MOp* when_all(std::vector<Conn> cs, MRcv* r) {
      struct S { MSrc src; MCb cb; int left; enum { STARTED, ERROR, STOPPED } state = STARTED; int ech = 0; long ev = 0; std::vector<long> vals; std::vector<MOp*> ops; };
      auto* st = mk<S>(); st->left = (int) cs.size(); st->vals.resize(cs.size());
      auto env = [=] { MEnv e = r->e(); e.tok = &st->src; return e; };
      for (size_t i = 0; i < cs.size(); i++) st->ops.push_back(cs[i](rcv([=, this](int ch, long v) {
        if (ch == CV) st->vals[i] = v;
        else if (ch == CS) { if (st->state == S::STARTED) { st->state = S::STOPPED; st->src.request(fifo); } }
        else if (st->state != S::ERROR) { bool first = st->state == S::STARTED; st->state = S::ERROR; st->ech = ch; st->ev = v; if (first) st->src.request(fifo); }
        if (--st->left) return;
        st->cb.unreg();
        if (st->state == S::STARTED) { long h = 0; for (long x : st->vals) h = mixv(h, x); r->f(CV, h); }
        else if (st->state == S::ERROR) r->f(st->ech, st->ev);
        else r->f(CS, 0);
      }, env)));
      return op([=, this] {
        st->cb.reg(r->e().tok, [=, this] { if (st->state == S::STARTED) { st->state = S::STOPPED; st->src.request(fifo); } });
        for (auto* o : st->ops) o->start();
      });
    }
    MOp* when_any(std::vector<Conn> cs, MRcv* r) {
      struct S { MSrc src; MCb cb; int left; bool have = false; int ch = CS; long v = 0; std::vector<MOp*> ops; };
      auto* st = mk<S>(); st->left = (int) cs.size();
      auto arrive = [=] { if (--st->left) return; st->cb.unreg(); if (r->e().req()) r->f(CS, 0); else r->f(st->ch, st->v); };
      auto env = [=] { MEnv e = r->e(); e.tok = &st->src; return e; };
      for (auto& c : cs) st->ops.push_back(c(rcv([=, this](int ch, long v) { if (!st->have) { st->have = true; st->ch = ch; st->v = v; st->src.request(fifo); } arrive(); }, env)));
      return op([=, this] {
        st->cb.reg(r->e().tok, [=, this] { if (st->left == 0) return; st->left++; st->src.request(fifo); arrive(); });
        if (st->src.req) { r->f(CS, 0); return; }
        for (auto* o : st->ops) o->start();
      });
    }

    // ---- a leaf completed by the driver
    MOp* leaf(Node* n, long b, MRcv* r) {
      struct S { MCb cb; bool saw = false, starting = false; int inst = 0; }; auto* st = mk<S>();
      auto fin = [=, this](int ch) {
        if (st->saw && n->react == 2) ch = CS;
        st->cb.unreg();
        switch (ch) {
          case CV: r->f(CV, n->kind == L_BOUND ? mixv(b, n->id) : n->id * 1000 + st->inst); return;
          case CE: r->f(CE, n->id * 1000 + 500 + st->inst); return;
          case CX: r->f(CX, n->id * 100 + 50); return;
          default: r->f(CS, 0);
        }
      };
      return op([=, this] {
        st->inst = starts[n->id]++; MEnv e = r->e();
        cur.push_back(Ev{'L', n->id, st->inst, ctx, 0, {e.req(), e.tok != nullptr && !n->erased, e.q1, e.q2, e.sched, e.start}});
        if (n->react == 3 && e.req()) { fin(CS); return; }
        if (!n->deferred) { fin(n->out); return; }
        st->starting = true;
        if (n->react == 1 || n->react == 2) st->cb.reg(e.tok, [=, this] {
          st->saw = true; log('T', n->id, st->inst, 0);
          if (n->react == 1 && !st->starting) { pending.erase({n->id, st->inst}); fin(CS); }
        });
        st->starting = false;
        if (n->react == 1 && st->saw) { fin(CS); return; }
        pending[{n->id, st->inst}] = [=] { fin(n->out); };
      });
    }
    MOp* connect(Node* n, long b, MRcv* r) {
      if (conns[n->id]++ == n->cthr) throw Exc{n->id * 100 + 90};
      auto kid = [=, this](int i) -> Conn { return [=, this](MRcv* rr) { return edge(n->kids[i], b, rr); }; };
      auto kidb = [=, this](int i, long bb) -> Conn { return [=, this](MRcv* rr) { return edge(n->kids[i], bb, rr); }; };
      auto call1 = [=, this](long v) { return call(n, v); };
      switch (n->kind) {
        case L_LEAF: case L_BOUND: return leaf(n, b, r);
        case L_JUST: return justc(CV, n->id * 1000)(r);
        case L_JUSTERR: return justc(CE, n->id * 1000 + 1)(r);
        case L_JUSTSTOP: return justc(CS, 0)(r);
        case L_READQ: return op([=, this] { MEnv e = r->e(); val_or_exc(r, [&] { return call(n, n->n ? e.q2 : e.q1); }); });
        case L_SCHED: return map([=, this](MRcv* rr) { return sched(n->ctx, rr); }, [=](int& ch, long& v) { if (ch == CV) v = call1(0); return true; }, r);
        case L_JUSTFROM: return op([=, this] { val_or_exc(r, [&] { return call(n, 1); }); });
        case A_THEN: return map(kid(0), [=](int& ch, long& v) { if (ch == CV) v = call1(v); return true; }, r);
        case A_UPON_ERROR: return map(kid(0), [=](int& ch, long& v) { if (ch == CE || ch == CX) { v = call1(v); ch = CV; } return true; }, r);
        case A_UPON_STOPPED: return map(kid(0), [=](int& ch, long& v) { if (ch == CS) { v = call1(0); ch = CV; } return true; }, r);
        case A_CHAIN: {
          Conn a = [=, this](MRcv* rr) { return map(kid(0), [=](int& ch, long& v) { if (ch == CV) v = call1(v); return true; }, rr); };
          Conn c = [=, this](MRcv* rr) { return map(a, [=](int& ch, long& v) { if (ch == CE || ch == CX) { v = call1(v); ch = CV; } return true; }, rr); };
          Conn d = [=, this](MRcv* rr) { return map(c, [=](int& ch, long& v) { if (ch == CS) { v = call1(0); ch = CV; } return true; }, rr); };
          return map(d, [=](int& ch, long& v) { if (ch == CV) v = call1(v); return true; }, r);
        }
        case A_LET_VALUE: case A_LET_ERROR: case A_LET_STOPPED: case A_LET_VALUE_C: {
          auto env2 = n->kind == A_LET_VALUE_C ? on_sched(r, n->ctx) : r->e;
          auto* r2 = rcv(r->f, env2);
          auto* cr = rcv([=, this](int ch, long v) {
            bool hit = n->kind == A_LET_ERROR ? ch == CE || ch == CX : n->kind == A_LET_STOPPED ? ch == CS : ch == CV;
            if (!hit) { r->f(ch, v); return; }
            MOp* o;
            try { call(n, ch == CS ? 0 : v); o = edge(n->kids[1], ch == CS || ch == CX ? 5 : v, r2); } catch (Exc& e) { r->f(CX, e.code); return; }
            o->start();
          }, r->e);
          if (n->kind == A_LET_VALUE_C) return conton(kid(0), [=] { return n->ctx; }, cr);
          return kid(0)(cr);
        }
        case A_STOPPED_AS_ERROR: return map(kid(0), [=](int& ch, long& v) { if (ch == CS) { ch = CE; v = n->id * 7; } return true; }, r);
        case A_STOPPED_AS_OPTIONAL: return map(kid(0), [=](int& ch, long& v) { if (ch == CV) v = call1(v); else if (ch == CS) { v = call1(-1); ch = CV; } return true; }, r);
        case A_INTO_VARIANT: case A_INTO_TUPLE: return map(kid(0), [=](int& ch, long& v) { if (ch == CV) v = call1(v); return true; }, r);
        case A_WRITE_ENV: return kid(0)(rcv(r->f, [=] { MEnv e = r->e(); if (n->ctx == 0) e.q1 = n->n; else if (n->ctx == 1) e.q2 = n->n; else { e.q2 = n->n; e.q1 = n->n + 1; } return e; }));
        case A_UNSTOPPABLE: return kid(0)(rcv(r->f, [=] { MEnv e = r->e(); e.tok = nullptr; return e; }));
        case A_STARTS_ON: return starts_on(n->ctx, kid(0), r);
        case A_CONTINUES_ON: return conton(kid(0), [=] { return n->ctx; }, r);
        case A_ON: return conton([=, this](MRcv* rr) { return starts_on(n->ctx, kid(0), rr); }, [=] { return r->e().start; }, r);
        case A_ON_CLOSURE: {
          Conn a = [=, this](MRcv* rr) { return conton(kid(0), [=] { return n->n; }, rr); };
          Conn c = [=, this](MRcv* rr) { return conton(a, [=] { return n->ctx; }, rr); };
          Conn d = [=, this](MRcv* rr) { return map(c, [=](int& ch, long& v) { if (ch == CV) v = call1(v); return true; }, rr); };
          return conton(d, [=] { return n->n; }, r);
        }
        case A_AFFINE: case A_FINALLY: {
          struct S { int ch = 0; long v = 0; MOp* fin = nullptr; }; auto* st = mk<S>();
          auto* fr = rcv([=](int ch, long v) { if (ch == CV) r->f(st->ch, st->v); else r->f(ch, v); },
                         [=] { MEnv e = r->e(); if (n->kind == A_AFFINE) e.tok = nullptr; return e; });
          st->fin = n->kind == A_AFFINE ? sched(r->e().start, fr) : kid(1)(fr);
          return kid(0)(rcv([=](int ch, long v) { st->ch = ch; st->v = v; st->fin->start(); }, r->e));
        }
        case A_RESCHEDULE: return conton(kid(0), [=] { return r->e().start; }, r);
        case A_BULK: case A_BULK_UNCHUNKED: return map(kid(0), [=](int& ch, long& v) { if (ch == CV) for (int i = 0; i < n->n; i++) call1(i * 1000 + v % 1000); return true; }, r);
        case A_BULK_CHUNKED: return map(kid(0), [=](int& ch, long& v) { if (ch == CV && n->n) call1(n->n * 1000 + v % 1000); return true; }, r);
        case A_WHEN_ALL: case A_WHEN_ALL_V: {
          auto fin = [=](int& ch, long& v) { if (ch == CV) v = call1(v); return true; };
          if (n->kids.size() == 1 && n->kind == A_WHEN_ALL) return map(kid(0), [=](int& ch, long& v) { if (ch == CV) v = call1(mixv(0, v)); return true; }, r);
          std::vector<Conn> cs; for (size_t i = 0; i < n->kids.size(); i++) cs.push_back(kid((int) i));
          return map([=, this](MRcv* rr) { return when_all(cs, rr); }, fin, r);
        }
        case A_WHEN_ANY: { std::vector<Conn> cs; for (size_t i = 0; i < n->kids.size(); i++) cs.push_back(kid((int) i)); return when_any(cs, r); }
        case A_STOP_WHEN: {
          // stop token = either of two sources: the child sees a source of its own
          struct S { MSrc src; MCb a, c; }; auto* st = mk<S>();
          auto* cr = rcv([=](int ch, long v) { st->a.unreg(); st->c.unreg(); r->f(ch, v); },
                         [=] { MEnv e = r->e(); e.tok = &st->src; return e; });
          MOp* o = connect_raw(n->kids[0], b, cr);
          return op([=, this] {
            auto go = [=, this] { st->src.request(fifo); };
            st->a.reg(r->e().tok, go); st->c.reg(&ext, go);
            o->start();
          });
        }
        case A_SEQUENCE: {
          if (n->kids.size() == 2) return seq2(kid(0), kid(1), r->e, r);
          Conn a = [=, this](MRcv* rr) { return seq2(kid(0), kid(1), rr->e, rr); };
          return seq2(a, kid(2), r->e, r);
        }
        case A_SEQUENCE_C: return seq2([=, this](MRcv* rr) { return conton(kid(0), [=] { return n->ctx; }, rr); }, kid(1), on_sched(r, n->ctx), r);
        case A_REPEAT_N: {
          auto after = [=](int& ch, long& v) { if (ch == CV) v = call1(0); return true; };
          if (n->n == 0) return map(justc(CV, 0), after, r);
          auto* left = mk<int>(); *left = n->n;
          return map([=, this](MRcv* rr) { return repeat(kid(0), [=](long) { return --*left == 0; }, rr); }, after, r);
        }
        case A_REPEAT_UNTIL: {
          Conn c = [=, this](MRcv* rr) { return map(kid(0), [=, this](int& ch, long& v) { if (ch == CV) { int k = calls[n->id]; call1(v); v = k + 1 >= n->n; } return true; }, rr); };
          return map([=, this](MRcv* rr) { return repeat(c, [](long v) { return v != 0; }, rr); }, [=](int& ch, long& v) { if (ch == CV) v = call1(0); return true; }, r);
        }
        case A_UNLESS_STOP: { MOp* o = kid(0)(r); return op([=] { if (r->e().req()) r->f(CS, 0); else o->start(); }); }
        case A_MATERIALIZE: return map(kid(0), [=](int& ch, long& v) { if (ch == CE) v++; else if (ch == CX) v += 2; else if (ch == CS) v = -3; v = call1(v); ch = CV; return true; }, r);
        case A_DEMATERIALIZE: return kid(0)(r);
        case A_VARIANT:
          if (n->n == 0) return kid(0)(r);
          if (n->n == 1) return map(kid(0), [=](int& ch, long& v) { if (ch == CV) v = call1(v); return true; }, r);
          return justc(CV, n->id * 5)(r);
        case A_ANY_SENDER:
          if (n->n == 1) return map(kid(0), [=](int& ch, long& v) { if (ch == CV) v = call1(v); return true; }, r);
          if (n->n == 0) return kid(0)(r);
          return kid(0)(rcv(r->f, [=] { MEnv e = r->e(); e.tok = nullptr; return e; }));
        case A_FORK_JOIN: {
          struct S { int ch = 0; long v = 0; }; auto* st = mk<S>();
          Conn src = [=, this](MRcv* rr) { return op([=] { rr->f(st->ch, st->v); }); };
          Conn a = [=, this](MRcv* rr) { return map(src, [=](int& ch, long& v) { if (ch == CV) v = call1(v); return true; }, rr); };
          Conn c = [=, this](MRcv* rr) { return src(rcv([=, this](int ch, long v) {
            if (ch != CV) { rr->f(ch, v); return; }
            MOp* o; try { call(n, v + 1); o = edge(n->kids[1], v, rr); } catch (Exc& e) { rr->f(CX, e.code); return; }
            o->start();
          }, rr->e)); };
          auto* fr = rcv([=](int ch, long v) { try { if (ch == CV) v = call1(v); } catch (Exc& e) { ch = CX; v = e.code; } r->f(ch, v); }, r->e);
          MOp* f = when_all({a, c}, fr);
          return kid(0)(rcv([=](int ch, long v) { st->ch = ch; st->v = v; f->start(); }, r->e));
        }
        default: return nullptr;
      }
    }
    MOp* connect_raw(Node* n, long b, MRcv* r) { return connect(n, b, r); }
    // An erased child
    MOp* edge(Node* n, long b, MRcv* r) { return connect(n, b, r); }
  };
}
  ModelResult run_model(Node* root, const TopCfg& c, const std::vector<Act>& acts, bool fifo, bool tramp_inline) {
    ModelResult res; M m; m.fifo = fifo; m.tramp_inline = tramp_inline;
    bool done = false;
    auto* r = m.rcv([&](int ch, long v) { if (done) { res.ok = false; res.why = "model completed twice"; } done = true; m.log('F', ch, 0, v); },
      [&] { MEnv e; e.tok = c.stoppable ? &m.top : nullptr; e.q1 = c.q1; e.q2 = c.q2; e.sched = e.start = c.sched; return e; });
    MOp* o = nullptr;
    for (auto& a : acts) {
      m.ctx = 0; m.cur.clear();
      switch (a.t) {
        case 'k': try { o = m.connect(root, 5, r); } catch (Exc& e) { res.conn_threw = true; m.log('X', 0, 0, e.code); } break;
        case 'S': m.ctx = c.sched; o->start(); break;
        case 'c': { auto it = m.pending.find({a.a, a.b}); if (it == m.pending.end()) { res.ok = false; res.why = "leaf " + std::to_string(a.a) + " is not running in the model"; return res; } auto f = it->second; m.pending.erase(it); m.ctx = a.c; f(); break; }
        case 'r': { if (m.q[a.a].empty()) { res.ok = false; res.why = "context " + std::to_string(a.a) + " has nothing queued in the model"; return res; } auto f = m.q[a.a].front(); m.q[a.a].pop_front(); m.ctx = a.a; f(); break; }
        case 's': m.top.request(fifo); break;
        case 'x': m.ext.request(fifo); break;
      }
      std::sort(m.cur.begin(), m.cur.end());
      res.steps.push_back(m.cur);
    }
    // what remains to be done
    for (auto& [k, f] : m.pending) { (void) f; res.pending.push_back(k); }
    for (int i = 0; i < 5; i++) res.queued[i] = (int) m.q[i].size();
    return res;
  }
}
