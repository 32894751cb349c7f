#include "fns.hpp"
namespace tr {
  OpBase* build_b(Node* n, Bound b, RcvBase* r) {
    AnyS c{n->kids[0], b};
    switch (n->kind) {
      case A_LET_VALUE: return mk(n, ex::let_value(std::move(c), FLV{n}), r);
      case A_LET_ERROR: return mk(n, ex::let_error(std::move(c), FLE{n}), r);
      case A_LET_STOPPED: return mk(n, ex::let_stopped(std::move(c), FLS{n}), r);
      case A_STOPPED_AS_ERROR: return mk(n, ex::stopped_as_error(std::move(c), Err(n->id * 7)), r);
      case A_STOPPED_AS_OPTIONAL: return mk(n, ex::stopped_as_optional(std::move(c)) | ex::then(FOpt{n}), r);
      case A_LET_VALUE_C: return mk(n, ex::let_value(ex::continues_on(std::move(c), CtxSched{n->ctx}), FLV{n}), r);
      default: return nullptr;
    }
  }
}
