// Definitions shared by all translation units of the tree harness.
#include "tree.hpp"
namespace tr {
  RT* g = nullptr;
  long Tracked::live = 0, Tracked::ops = 0, Tracked::fail_at = 0; int Tracked::paused = 0;
  void Tracked::hook() { if (!paused && ++ops == fail_at) throw OpExc{}; }
  constexpr bool can_throw = !std::is_nothrow_move_constructible_v<Tracked>;
  Tracked::Tracked(Tracked&& o) TR_NOEXCEPT : st(0), v(0) {
    VS_ASSERT(o.st == ALIVE, "moved from an object that is not alive");
    if constexpr (can_throw) hook();
    st = ALIVE; v = o.v; o.st = MOVED; live++;
  }
  Tracked::Tracked(const Tracked& o) : st(0), v(0) { VS_ASSERT(o.st == ALIVE, "copied from an object that is not alive"); hook(); st = ALIVE; v = o.v; live++; }
  Tracked& Tracked::operator=(Tracked&& o) TR_NOEXCEPT { VS_ASSERT(o.st == ALIVE, "move-assigned from an object that is not alive"); VS_ASSERT(st == ALIVE || st == MOVED, "assignment to a dead object"); if constexpr (can_throw) hook(); st = ALIVE; v = o.v; if (&o != this) o.st = MOVED; return *this; }
  Tracked& Tracked::operator=(const Tracked& o) { VS_ASSERT(o.st == ALIVE, "copy-assigned from an object that is not alive"); VS_ASSERT(st == ALIVE || st == MOVED, "assignment to a dead object"); hook(); st = ALIVE; v = o.v; return *this; }

  const char* kind_name[K_COUNT] = {"leaf", "just", "just_error", "just_stopped", "read_env", "schedule", "bound", "just_from",
    "then", "upon_error", "upon_stopped", "let_value", "let_error", "let_stopped", "stopped_as_error", "stopped_as_optional", "into_variant", "write_env", "unstoppable", "starts_on", "continues_on", "on", "on_closure",
    "affine", "bulk", "bulk_chunked", "bulk_unchunked", "when_all", "when_all_with_variant", "let_value_c", "stop_when", "chain",
    "sequence", "sequence_c", "finally", "repeat_n", "repeat_until", "unless_stop_requested", "when_any", "fork_join", "materialize",
    "dematerialize", "into_tuple", "variant_sender", "reschedule", "any_sender", "task"};

  bool Ev::operator<(const Ev& o) const {
    auto k = [](const Ev& e) { return std::tuple(e.t, e.node, e.inst, e.ctx, e.v, e.x[0], e.x[1], e.x[2], e.x[3], e.x[4], e.x[5]); };
    return k(*this) < k(o);
  }
  std::string ev_str(const Ev& e) {
    char b[200];
    static const char* ch[] = {"value", "Err", "exception", "stopped"};
    switch (e.t) {
      case 'L': snprintf(b, sizeof b, "start(leaf %d#%d ctx=%d stop=%ld/%ld q1=%ld q2=%ld sched=%ld start=%ld)", e.node, e.inst, e.ctx, e.x[0], e.x[1], e.x[2], e.x[3], e.x[4], e.x[5]); break;
      case 'T': snprintf(b, sizeof b, "stop-seen(leaf %d#%d)", e.node, e.inst); break;
      case 'C': snprintf(b, sizeof b, "call(%d#%d arg=%ld ctx=%d)", e.node, e.inst, e.v, e.ctx); break;
      case 'F': snprintf(b, sizeof b, "complete(%s %ld ctx=%d)", ch[e.node & 3], e.v, e.ctx); break;
      default: snprintf(b, sizeof b, "?%c", e.t);
    }
    return b;
  }
  void ev(char t, int node, int inst, long v) { NoFail nf; Ev e{t, node, inst, g->ctx, v, {}}; g->log.push_back(e); }
  long code_of(const exception_ptr& p) {
    VS_ASSERT(p != nullptr, "null exception_ptr delivered");
    try { std::rethrow_exception(p); }
    catch (const Exc& e) { return e.code; }
    catch (const OpExc&) { return -77; }
    catch (...) { return -99; }
  }

  void LeafOp::start() noexcept {
    VS_ASSERT(st == 0, "leaf started twice"); st = 1; starting = true;
    inst = g->starts[n->id]++;
    Env e = r->env();
    {
      NoFail nf;
      Ev x{'L', n->id, inst, g->ctx, 0, {e.tok.stop_requested(), e.tok.stop_possible() && !n->erased, e.q1, e.q2, e.sched, e.start}};
      g->log.push_back(x);
    }
    if (n->react == 3 && e.tok.stop_requested()) { starting = false; finish(CS); return; }
    if (!n->deferred) { starting = false; finish(n->out); return; }
    if (n->react == 1 || n->react == 2) cb.emplace(e.tok, Cb{this});
    starting = false;
    if (n->react == 1 && saw) { finish(CS); return; }
    g->pending[{n->id, inst}] = this;
  }
  void LeafOp::on_stop() noexcept {
    VS_ASSERT(st == 1, "stop callback after the leaf completed"); VS_ASSERT(!saw, "stop callback twice");
    saw = true; ev('T', n->id, inst, 0);
    if (n->react == 1 && !starting) { g->pending.erase({n->id, inst}); finish(CS); }
  }
  void LeafOp::finish(int ch) noexcept {
    VS_ASSERT(st == 1); st = 2;
    if (saw && n->react == 2) ch = CS;
    cb.reset();
    RcvBase* rr = r; Node* nn = n; int in = inst;
    switch (ch) {
      case CV: {
        std::optional<Val> x; { NoFail nf; x.emplace(nn->kind == L_BOUND ? mixv(b.t ? b.t->get() : 5, nn->id) : nn->id * 1000 + in); }
        rr->value(std::move(*x)); return;
      }
      case CE: { std::optional<Err> x; { NoFail nf; x.emplace(nn->id * 1000 + 500 + in); } rr->error(std::move(*x)); return; }
      case CX: rr->eptr(std::make_exception_ptr(Exc{nn->id * 100 + 50})); return;
      default: rr->stopped(); return;
    }
  }

  OpBase* build(Node* n, Bound b, RcvBase* r) {
    int k; { NoFail nf; k = g->conns[n->id]++; }
    if (k == n->cthr) throw Exc{n->id * 100 + 90};
    OpBase* (*const f[])(Node*, Bound, RcvBase*) = {build_a, build_b, build_c, build_d, build_e, build_f, build_g};
    for (auto* p : f) if (OpBase* o = p(n, b, r)) return o;
    vs::fail("harness: no builder for kind %d", (int) n->kind); return nullptr;
  }
}
