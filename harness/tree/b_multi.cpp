#include "fns.hpp"
#include <exec/when_any.hpp>
#include <exec/variant_sender.hpp>
namespace tr {
  OpBase* build_e(Node* n, Bound b, RcvBase* r) {
    auto k = [&](int i) { return AnyS{n->kids[i], b}; };
    switch (n->kind) {
      case A_WHEN_ALL:
        if (n->kids.size() == 1) return mk(n, ex::when_all(k(0)) | ex::then(FAll{n}), r);
        if (n->kids.size() == 2) return mk(n, ex::when_all(k(0), k(1)) | ex::then(FAll{n}), r);
        return mk(n, ex::when_all(k(0), k(1), k(2)) | ex::then(FAll{n}), r);
      case A_WHEN_ALL_V: return mk(n, ex::when_all_with_variant(k(0), k(1)) | ex::then(FAll{n}), r);
      case A_WHEN_ANY:
        if (n->kids.size() == 1) return mk(n, exec::when_any(k(0)), r);
        if (n->kids.size() == 2) return mk(n, exec::when_any(k(0), k(1)), r);
        return mk(n, exec::when_any(k(0), k(1), k(2)), r);
      case A_VARIANT: {
        using S1 = AnyS; using S2 = decltype(ex::then(k(0), FV{n})); using S3 = decltype(ex::just(Val(0)));
        using VS = exec::variant_sender<S1, S2, S3>;
        if (n->n == 0) return mk(n, VS{k(0)}, r);
        if (n->n == 1) return mk(n, VS{ex::then(k(0), FV{n})}, r);
        VS v{k(0)}; v = ex::just(Val(n->id * 5)); return mk(n, std::move(v), r);
      }
      default: return nullptr;
    }
  }
}
