// Generator, driver and comparison with the reference model.
#include "tree.hpp"
#include <algorithm>
#include <cstring>
namespace tr {
  enum Cls { K_ONCE = 1, K_RESULT = 2, K_CALLS = 4, K_STOP = 8, K_ENV = 16, K_CTX = 32, K_SCHED = 64 };
  struct Prof { const char* name; int w[K_COUNT]; int leafpct, thrpct, cthrpct, stoppct, oppct; unsigned mask; };

  struct Case {
    std::vector<std::unique_ptr<Node>> nodes; Node* root = nullptr; TopCfg cfg{};
    bool connect_only = false, destroy_in = false, src_dies = false, has_ext = false, multi = false, drops = false, erased = false;
    int prestop = 0;     // 0 none, 1 before connect, 2 between connect and start
    long fail_at = 0; int stop_budget = 0; unsigned mask = 0; bool oneshot_stop = false;
  };
  static Node* gen(vs::Gen& g, const Prof& p, Case& c, int depth, int& budget, int& loops) {
    auto* n = new Node; c.nodes.emplace_back(n); n->id = (int) c.nodes.size(); n->erased = c.erased; budget--;
    bool leaf = depth <= 0 || budget <= 0 || (int) g.below(100) < p.leafpct;
    Kind k = L_LEAF;
    int tot = 0; int lo = leaf ? L_LEAF : A_THEN, hi = leaf ? L_JUSTFROM : A_ANY_SENDER;
    for (int i = lo; i <= hi; i++) tot += p.w[i];
    int x = (int) g.below((unsigned) tot);
    for (int i = lo; i <= hi; i++) { if (x < p.w[i]) { k = (Kind) i; break; } x -= p.w[i]; }
    if ((k == A_REPEAT_N || k == A_REPEAT_UNTIL) && loops >= 2) k = A_THEN;
    n->kind = k; n->lv = g.below(5) == 1;
    if (k == L_LEAF || k == L_BOUND) {
      n->deferred = g.below(2); n->ctx = (int) g.below(4);
      static const int outs[] = {CV, CV, CV, CV, CE, CX, CS, CV};
      n->out = outs[g.below(8)]; static const int reacts[] = {0, 1, 2, 1, 3};
      n->react = reacts[g.below(5)];
    } else {
      n->ctx = (int) g.below(5);
      n->n = (int) g.below(4);
    }
    auto thr = [&] { if ((int) g.below(100) < p.thrpct) n->thr = (int) g.below(3); };
    int kids = k < A_THEN ? 0 : 1;
    switch (k) {
      case L_READQ: n->n &= 1; thr(); break;
      case L_SCHED: case L_JUSTFROM: thr(); break;
      case A_WRITE_ENV: n->ctx %= 3; n->n += 100 * n->id; break;
      case A_ON_CLOSURE: n->n = (int) g.below(5); thr(); break;
      case A_LET_VALUE: case A_LET_ERROR: case A_LET_STOPPED: case A_LET_VALUE_C: case A_SEQUENCE_C: case A_FINALLY: case A_FORK_JOIN: kids = 2; thr(); break;
      case A_WHEN_ALL: case A_WHEN_ANY: kids = 1 + (int) g.below(3); thr(); break;
      case A_WHEN_ALL_V: kids = 2; thr(); break;
      case A_SEQUENCE: kids = 2 + (int) g.below(2); break;
      case A_REPEAT_N: case A_REPEAT_UNTIL: loops++; thr(); break;
      case A_VARIANT: n->n %= 3; thr(); break;
      case A_STOP_WHEN: c.has_ext = true; break;
      default: thr();
    }
    if (k == A_WHEN_ALL || k == A_WHEN_ANY || k == A_FORK_JOIN || k == A_WHEN_ALL_V) c.multi = true;
    if (k == A_WHEN_ALL || k == A_WHEN_ANY || k == A_FORK_JOIN || k == A_WHEN_ALL_V || k == A_FINALLY || k == A_AFFINE || k == A_CONTINUES_ON || k == A_ON || k == A_ON_CLOSURE || k == A_RESCHEDULE || k == A_LET_VALUE_C || k == A_SEQUENCE_C) c.drops = true;
    bool was = c.erased; if (k == A_ANY_SENDER) c.erased = true;
    for (int i = 0; i < kids; i++) n->kids.push_back(gen(g, p, c, depth - 1, budget, loops));
    c.erased = was;
    if ((int) g.below(100) < p.cthrpct) n->cthr = (int) g.below(2);
    return n;
  }
  static std::string show(const Node* n) {
    std::string s = kind_name[n->kind]; s += "#" + std::to_string(n->id);
    static const char* ch[] = {"value", "Err", "exception", "stopped"};
    if (n->kind == L_LEAF || n->kind == L_BOUND) { s += std::string("[") + (n->deferred ? "later@" + std::to_string(n->ctx) + " " : "now ") + ch[n->out]; if (n->react) s += " react" + std::to_string(n->react); s += "]"; }
    else if (n->kind == L_SCHED || n->kind == A_STARTS_ON || n->kind == A_CONTINUES_ON || n->kind == A_ON || n->kind == A_LET_VALUE_C || n->kind == A_SEQUENCE_C) s += "@" + std::to_string(n->ctx);
    else if (n->kind == A_ON_CLOSURE) s += "@" + std::to_string(n->ctx) + "/" + std::to_string(n->n);
    else if (n->kind == A_WRITE_ENV) s += "[" + std::to_string(n->ctx) + ":" + std::to_string(n->n) + "]";
    else if (n->kind == L_READQ || n->kind == A_BULK || n->kind == A_BULK_CHUNKED || n->kind == A_BULK_UNCHUNKED || n->kind == A_REPEAT_N || n->kind == A_REPEAT_UNTIL || n->kind == A_VARIANT || n->kind == A_ANY_SENDER) s += "[" + std::to_string(n->n) + "]";
    if (n->lv) s += "&"; if (n->thr >= 0) s += " throws-at-call" + std::to_string(n->thr); if (n->cthr >= 0) s += " connect-throws" + std::to_string(n->cthr);
    if (n->kids.size()) { s += "("; for (size_t i = 0; i < n->kids.size(); i++) s += (i ? ", " : "") + show(n->kids[i]); s += ")"; }
    return s;
  }

  struct Top : RcvBase {
    Case& c; OpBase* op = nullptr; int done = 0; bool in_req = false; std::unique_ptr<ex::inplace_stop_source> src; Env e;
    Top(Case& cc) : c(cc) {
      if (c.cfg.stoppable) src = std::make_unique<ex::inplace_stop_source>();
      e.q1 = c.cfg.q1; e.q2 = c.cfg.q2; e.sched = e.start = c.cfg.sched; if (src) e.tok = src->get_token();
    }
    void fin(int ch, long v) {
      VS_ASSERT(g->started, "completed before start"); VS_ASSERT(!done, "completed twice"); done = 1;
      ev('F', ch, 0, v);
      if (c.destroy_in) { auto* o = op; op = nullptr; delete o; }
      if (c.src_dies && !in_req) { e.tok = {}; src.reset(); }
    }
    void value(Val&& v) noexcept override { fin(CV, v.get()); }
    void error(Err&& v) noexcept override { fin(CE, v.get()); }
    void eptr(exception_ptr p) noexcept override { fin(CX, code_of(p)); }
    void stopped() noexcept override { fin(CS, 0); }
    Env env() const noexcept override { VS_ASSERT(!done, "environment queried after completion"); return e; }
  };
  static std::string join(const std::vector<Ev>& a) { std::string s; for (auto& e : a) { if (s.size()) s += ", "; s += ev_str(e); } return s.empty() ? "nothing" : s; }
  static unsigned classify(std::vector<Ev> a, std::vector<Ev> b) {
    std::vector<Ev> x, y;
    std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(x)); std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(y));
    unsigned m = 0; std::vector<char> used(y.size());
    for (auto& e : x) {
      int f = -1;
      for (size_t j = 0; j < y.size(); j++) if (!used[j] && y[j].t == e.t && (e.t == 'F' || (y[j].node == e.node && y[j].inst == e.inst))) { f = (int) j; break; }
      if (f < 0) { m |= e.t == 'F' ? K_ONCE : e.t == 'T' ? K_STOP : K_CALLS | K_RESULT; continue; }
      used[(size_t) f] = 1; auto& o = y[(size_t) f];
      if (e.ctx != o.ctx) m |= K_CTX;
      if (e.t == 'L') { if (e.x[0] != o.x[0] || e.x[1] != o.x[1]) m |= K_STOP; if (e.x[2] != o.x[2] || e.x[3] != o.x[3]) m |= K_ENV; if (e.x[4] != o.x[4] || e.x[5] != o.x[5]) m |= K_SCHED; }
      else if (e.v != o.v || e.node != o.node) m |= e.t == 'C' ? K_CALLS : K_RESULT;
    }
    for (size_t j = 0; j < y.size(); j++) if (!used[j]) m |= y[j].t == 'F' ? K_ONCE : y[j].t == 'T' ? K_STOP : K_CALLS | K_RESULT;
    return m;
  }

  static void run_case(Case& c) {
    Tracked::live = Tracked::ops = 0; Tracked::fail_at = c.fail_at; Tracked::paused = 0;
    RT rt; g = &rt; ex::inplace_stop_source ext; rt.ext = &ext;
    std::vector<Act> acts; std::vector<std::vector<Ev>> steps;
    bool stop_done = false, ext_done = false, conn_threw = false, hit = false; size_t at_end = 0; (void) at_end;
    {
      Top top(c);
      auto step = [&](Act a) {
        { NoFail nf; acts.push_back(a); }
        rt.ctx = 0;
        switch (a.t) {
          case 'k':
            try { top.op = build(c.root, Bound{}, &top); }
            catch (const Exc& e) { conn_threw = true; ev('X', 0, 0, e.code); }
            catch (const OpExc&) { conn_threw = true; VS_ASSERT(c.fail_at && Tracked::ops >= c.fail_at); }
            break;
          case 'S': rt.ctx = c.cfg.sched; rt.started = true; top.op->start(); break;
          case 'c': { auto it = rt.pending.find({a.a, a.b}); LeafOp* l = it->second; rt.pending.erase(it); rt.ctx = a.c; l->finish(l->n->out); break; }
          case 'r': { SchedOpBase* o = rt.q[a.a].front(); rt.q[a.a].pop_front(); o->queued = false; rt.ctx = a.a; o->run(); break; }
          case 's': stop_done = true; top.in_req = true; top.src->request_stop(); top.in_req = false; break;
          case 'x': ext_done = true; ext.request_stop(); break;
        }
        std::sort(rt.log.begin(), rt.log.end());
        steps.push_back(std::move(rt.log)); rt.log = {};
      };
      auto can_stop = [&] { return top.src && !stop_done && !top.done; };
      if (c.prestop == 1 && can_stop()) step({'s'});
      step({'k'});
      VS_ASSERT(rt.log.empty() && rt.pending.empty());
      if (!conn_threw && !c.connect_only) {
        if (c.prestop == 2 && can_stop()) step({'s'});
        step({'S', 0, 0, 0});
        int guard = 0;
        while (!top.done) {
          VS_ASSERT(++guard < 300, "operation does not come to an end");
          std::vector<Act> o;
          for (auto& [k, l] : rt.pending) o.push_back({'c', k.first, k.second, l->n->ctx});
          for (int i = 0; i < 5; i++) if (!rt.q[i].empty()) o.push_back({'r', i, 0, 0});
          if (o.empty()) {
            // everything that could happen has happened: only a stop request could still be outstanding
            std::string h; for (auto& s : steps) h += join(s) + " | ";
            vs::fail("operation never completes: no child is running, nothing is queued; %s history: %s", show(c.root).c_str(), h.c_str());
          }
          int budget = c.stop_budget;
          if (can_stop()) for (int i = 0; i < budget; i++) o.push_back({'s'});
          if (c.has_ext && !ext_done) for (int i = 0; i < budget; i++) o.push_back({'x'});
          Act a = o[vs::choose((unsigned) o.size())];
          step(a);
        }
        VS_ASSERT(rt.pending.empty(), "completed while a child operation is still running");
        for (auto& q : rt.q) VS_ASSERT(q.empty(), "completed while a scheduled operation is still queued");
      }
      hit = c.fail_at && Tracked::ops >= c.fail_at;
      Tracked::fail_at = 0;
      delete top.op;
      at_end = rt.log.size();
      VS_ASSERT(rt.log.empty(), "work was done while destroying the operation");
      VS_ASSERT(Tracked::live == 0, "some value, callable or state was not destroyed");
    }
    g = nullptr;
    // ---- labels
    if (stop_done) vs::label("stop requested"); if (conn_threw) vs::label("connect threw"); if (hit) vs::label("injected copy/move failure"); if (c.destroy_in) vs::label("destroyed in completion");
    for (auto& s : steps) for (auto& e : s) { if (e.t == 'T') vs::label("a child saw stop"); if (e.t == 'F') vs::label(e.node == CV ? "value" : e.node == CE ? "error" : e.node == CX ? "exception" : "stopped"); }
    vs::nontrivial(c.nodes.size() >= 3);
    if (hit) {
      if (!conn_threw && !c.drops && !c.connect_only) {
        bool seen = false;
        for (auto& s : steps) for (auto& e : s) { if (e.t == 'F' && e.node == CX && e.v == -77) seen = true; if (e.t == 'C' && (e.v == -77 || e.v == -75)) seen = true; }
        if (!seen) { std::string h; for (auto& s : steps) h += join(s) + " | "; if (c.mask & (K_RESULT | K_ONCE)) vs::fail("the exception thrown by a copy or move was lost: %s history: %s", show(c.root).c_str(), h.c_str()); }
      }
      return;
    }
    unsigned best = 0; std::string why; bool first = true;
    for (int v = 0; v < 4; v++) {
      ModelResult m = run_model(c.root, c.cfg, acts, v & 1, v & 2);
      unsigned cls = 0; std::string w;
      size_t n = std::min(m.steps.size(), steps.size()); size_t i = 0;
      for (; i < n; i++) if (!(m.steps[i] == steps[i])) break;
      if (i < n) {
        cls = classify(steps[i], m.steps[i]);
        w = std::string("step ") + std::to_string(i) + " (" + acts[i].t + " " + std::to_string(acts[i].a) + "): library: " + join(steps[i]) + "; expected: " + join(m.steps[i]);
      }
      else if (!m.ok) { cls = K_CALLS | K_ONCE | K_RESULT; w = m.why; }
      else return;
      if (first) { best = cls; why = w; first = false; }
    }
    if (best & c.mask) {
      std::string h; for (size_t i = 0; i < steps.size(); i++) { char b[60]; snprintf(b, sizeof b, "%c%d: ", acts[i].t, acts[i].a); h += b + join(steps[i]) + " | "; }
      vs::fail("%s\n  %s\n  top: q1=%ld q2=%ld ctx=%d%s\n  history: %s", why.c_str(), show(c.root).c_str(), c.cfg.q1, c.cfg.q2, c.cfg.sched, c.cfg.stoppable ? "" : " not stoppable", h.c_str());
    }
    vs::label("mismatch outside this property");
  }

  static Prof mkprof(const char* name, std::vector<std::pair<int, int>> w, int leafw, int leafpct, int thr, int cthr, int stop, int op, unsigned mask) {
    Prof p{}; p.name = name; p.leafpct = leafpct; p.thrpct = thr; p.cthrpct = cthr; p.stoppct = stop; p.oppct = op; p.mask = mask;
    p.w[L_LEAF] = 12 * leafw; for (int k : {L_JUST, L_JUSTERR, L_JUSTSTOP, L_READQ, L_SCHED, L_JUSTFROM}) p.w[k] = 1; p.w[L_BOUND] = 3;
    for (auto& [k, x] : w) p.w[k] = x;
    return p;
  }
  static std::vector<std::pair<int, int>> all(int w, std::initializer_list<int> boost, int bw) {
    std::vector<std::pair<int, int>> r; for (int k = A_THEN; k <= A_ANY_SENDER; k++) r.push_back({k, w}); for (int k : boost) r.push_back({k, bw}); return r;
  }
  static const std::vector<Prof>& profs() {
    static const std::vector<int> ext = {A_SEQUENCE, A_SEQUENCE_C, A_FINALLY, A_REPEAT_N, A_REPEAT_UNTIL, A_UNLESS_STOP, A_WHEN_ANY, A_FORK_JOIN, A_MATERIALIZE, A_DEMATERIALIZE, A_INTO_TUPLE, A_VARIANT, A_RESCHEDULE};
    static std::vector<std::pair<int, int>> std_w = [] { auto v = all(3, {A_LET_VALUE, A_LET_ERROR, A_LET_STOPPED, A_WHEN_ALL}, 5); for (int k : ext) v.push_back({k, 0}); v.push_back({A_ANY_SENDER, 0}); v.push_back({A_STOP_WHEN, 1}); return v; }();
    static std::vector<std::pair<int, int>> ext_w = [] { auto v = all(1, {}, 0); for (int k : ext) v.push_back({k, 5}); v.push_back({A_ANY_SENDER, 1}); return v; }();
    static const std::vector<Prof> p = {
      mkprof("once", all(2, {A_WHEN_ALL, A_LET_VALUE, A_SEQUENCE, A_FINALLY, A_WHEN_ANY}, 3), 1, 25, 6, 3, 50, 0, K_ONCE | K_CALLS | K_RESULT),
      mkprof("standard", std_w, 1, 25, 5, 0, 25, 0, K_RESULT | K_CALLS | K_ONCE),
      mkprof("throw", all(2, {A_LET_VALUE, A_WHEN_ALL, A_REPEAT_UNTIL, A_REPEAT_N}, 4), 1, 25, 35, 15, 25, 0, K_RESULT | K_CALLS | K_ONCE),
      mkprof("opthrow", all(2, {A_LET_VALUE, A_CONTINUES_ON, A_WHEN_ALL, A_WHEN_ANY, A_FINALLY, A_REPEAT_UNTIL}, 3), 1, 25, 3, 2, 25, 100, K_RESULT | K_CALLS | K_ONCE),
      mkprof("lifetime", all(2, {A_LET_VALUE, A_WHEN_ANY, A_REPEAT_N, A_FORK_JOIN}, 3), 1, 25, 12, 8, 50, 30, 0),
      mkprof("stop_env", all(2, {A_WRITE_ENV, A_STOP_WHEN, A_UNSTOPPABLE, A_WHEN_ALL, A_WHEN_ANY, A_FORK_JOIN}, 5), 2, 22, 2, 0, 75, 0, K_STOP | K_ENV | K_RESULT | K_ONCE),
      mkprof("scheduling", all(1, {A_STARTS_ON, A_CONTINUES_ON, A_ON, A_ON_CLOSURE, A_AFFINE, A_RESCHEDULE, A_LET_VALUE_C, A_SEQUENCE_C}, 7), 1, 22, 3, 0, 25, 0, K_CTX | K_SCHED | K_RESULT | K_ONCE | K_CALLS),
      mkprof("extension", ext_w, 1, 25, 6, 2, 35, 0, K_RESULT | K_CALLS | K_ONCE | K_STOP),
      mkprof("erasure", all(1, {A_ANY_SENDER, A_VARIANT}, 14), 1, 22, 5, 2, 45, 10, K_RESULT | K_CALLS | K_ONCE | K_STOP | K_ENV | K_CTX | K_SCHED),
    };
    return p;
  }
  template <int I> vs::Case make(vs::Gen& g) {
    const Prof& p = profs()[I];
    auto c = std::make_shared<Case>(); c->mask = p.mask;
    c->cfg.q1 = 11; c->cfg.q2 = 22; c->cfg.sched = (int) g.below(4); 
    int flags = (int) g.below(16);
    c->connect_only = flags == 7; c->cfg.stoppable = g.below(8) != 7;
    if (c->cfg.stoppable && (int) g.below(100) < p.stoppct) { c->stop_budget = 1 + (int) g.below(2); c->prestop = (int) g.below(6); if (c->prestop > 2) c->prestop = 0; }
    int d = (int) g.below(4); c->destroy_in = d & 1; c->src_dies = d >= 2;
    if ((int) g.below(100) < p.oppct) c->fail_at = 1 + (long) g.below(60);
    int budget = 3 + (int) g.below(10), loops = 0; int depth = 1 + (int) g.below(5);
    c->root = gen(g, p, *c, depth, budget, loops);
    vs::Case r; r.desc = show(c->root) + (c->connect_only ? " connect-only" : "") + (c->prestop ? c->prestop == 1 ? " stop-before-connect" : " stop-before-start" : "") + (c->stop_budget ? " stop" : "") + (c->cfg.stoppable ? "" : " unstoppable") + (c->destroy_in ? " destroy-in-completion" : "") + (c->src_dies ? " source-dies" : "") + (c->fail_at ? " fail-op" + std::to_string(c->fail_at) : "") + " ctx" + std::to_string(c->cfg.sched);
    r.body = [c] { run_case(*c); };
    return r;
  }
}
int main(int argc, char** argv) {
  using namespace tr;
  return vs::run_main(argc, argv, {{"once", make<0>, 1}, {"standard", make<1>, 1}, {"throw", make<2>, 1}, {"opthrow", make<3>, 1}, {"lifetime", make<4>, 1}, {"stop_env", make<5>, 1}, {"scheduling", make<6>, 1}, {"extension", make<7>, 1}, {"erasure", make<8>, 1}});
}
