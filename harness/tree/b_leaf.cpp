#include "fns.hpp"
#include <exec/just_from.hpp>
namespace tr {
  OpBase* build_a(Node* n, Bound b, RcvBase* r) {
    switch (n->kind) {
      case L_LEAF: case L_BOUND: return new LeafOp(n, b, r);
      case L_JUST: return mk(n, ex::just(Val(n->id * 1000)), r);
      case L_JUSTERR: return mk(n, ex::just_error(Err(n->id * 1000 + 1)), r);
      case L_JUSTSTOP: return mk(n, ex::just_stopped(), r);
      case L_READQ: return n->n ? mk(n, ex::read_env(Q2) | ex::then(FLong{n}), r) : mk(n, ex::read_env(Q1) | ex::then(FLong{n}), r);
      case L_SCHED: return mk(n, ex::schedule(CtxSched{n->ctx}) | ex::then(FS{n}), r);
      case L_JUSTFROM: return mk(n, exec::just_from(FJust{n}), r);
      case A_THEN: return mk(n, ex::then(AnyS{n->kids[0], b}, FV{n}), r);
      case A_UPON_ERROR: return mk(n, ex::upon_error(AnyS{n->kids[0], b}, FE{n}), r);
      case A_UPON_STOPPED: return mk(n, ex::upon_stopped(AnyS{n->kids[0], b}, FS{n}), r);
      case A_CHAIN: return mk(n, AnyS{n->kids[0], b} | ex::then(FV{n}) | ex::upon_error(FE{n}) | ex::upon_stopped(FS{n}) | ex::then(FV{n}), r);
      default: return nullptr;
    }
  }
}
