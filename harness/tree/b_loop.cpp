#include "fns.hpp"
#include <exec/sequence.hpp>
#include <exec/finally.hpp>
#include <exec/repeat_n.hpp>
#include <exec/repeat_until.hpp>
namespace tr {
  OpBase* build_f(Node* n, Bound b, RcvBase* r) {
    auto k = [&](int i) { return AnyS{n->kids[i], b}; };
    auto v = [&](int i) { return AnyV{n->kids[i], b}; };
    switch (n->kind) {
      case A_SEQUENCE:
        if (n->kids.size() == 2) return mk(n, exec::sequence(v(0), k(1)), r);
        return mk(n, exec::sequence(v(0), v(1), k(2)), r);
      case A_SEQUENCE_C: return mk(n, exec::sequence(ex::continues_on(v(0), CtxSched{n->ctx}), k(1)), r);
      case A_FINALLY: return mk(n, exec::finally(k(0), v(1)), r);
      case A_REPEAT_N: return mk(n, exec::repeat_n(v(0), (std::size_t) n->n) | ex::then(FS{n}), r);
      case A_REPEAT_UNTIL: return mk(n, exec::repeat_until(k(0) | ex::then(FBool{n})) | ex::then(FS{n}), r);
      default: return nullptr;
    }
  }
}
