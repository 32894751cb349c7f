#include "fns.hpp"
#include <exec/reschedule.hpp>
namespace tr {
  OpBase* build_c(Node* n, Bound b, RcvBase* r) {
    AnyS c{n->kids[0], b};
    switch (n->kind) {
      case A_STARTS_ON: return mk(n, ex::starts_on(CtxSched{n->ctx}, std::move(c)), r);
      case A_CONTINUES_ON: return mk(n, ex::continues_on(std::move(c), CtxSched{n->ctx}), r);
      case A_ON: return mk(n, ex::on(CtxSched{n->ctx}, std::move(c)), r);
      case A_ON_CLOSURE: return mk(n, ex::on(ex::continues_on(std::move(c), CtxSched{n->n}), CtxSched{n->ctx}, ex::then(FV{n})), r);
      case A_AFFINE: return mk(n, ex::affine(std::move(c)), r);
      case A_RESCHEDULE: return mk(n, exec::reschedule(std::move(c)), r);
      default: return nullptr;
    }
  }
}
