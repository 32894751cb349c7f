#include "fns.hpp"
#include <exec/into_tuple.hpp>
#include <exec/materialize.hpp>
#include <exec/unless_stop_requested.hpp>
namespace tr {
  // one environment answering both queries (a class of its own: clang 18 itself
  // fails to compile CTAD of stdexec::env with two elements)
  struct TwoEnv {
    long a, b;
    long query(Q2_t) const noexcept { return a; }
    long query(Q1_t) const noexcept { return b; }
  };
  OpBase* build_d(Node* n, Bound b, RcvBase* r) {
    AnyS c{n->kids[0], b};
    switch (n->kind) {
      case A_INTO_VARIANT: return mk(n, ex::into_variant(std::move(c)) | ex::then(FVar{n}), r);
      case A_WRITE_ENV:
        if (n->ctx == 0) return mk(n, ex::write_env(std::move(c), ex::prop{Q1, (long) n->n}), r);
        if (n->ctx == 1) return mk(n, ex::write_env(std::move(c), ex::prop{Q2, (long) n->n}), r);
        { const long x = n->n, y = x + 1; return mk(n, ex::write_env(std::move(c), TwoEnv{x, y}), r); }
      case A_UNSTOPPABLE: return mk(n, ex::unstoppable(std::move(c)), r);
      case A_STOP_WHEN: return mk(n, ex::__stop_when(std::move(c), g->ext->get_token()), r);
      case A_BULK: return mk(n, ex::bulk(std::move(c), ex::par, n->n, FBulk{n}), r);
      case A_BULK_CHUNKED: return mk(n, ex::bulk_chunked(std::move(c), ex::par, n->n, FBulk{n}), r);
      case A_BULK_UNCHUNKED: return mk(n, ex::bulk_unchunked(std::move(c), ex::par, n->n, FBulk{n}), r);
      case A_MATERIALIZE: return mk(n, exec::materialize(std::move(c)) | ex::then(FMat{n}), r);
      case A_DEMATERIALIZE: return mk(n, exec::dematerialize(exec::materialize(std::move(c))), r);
      case A_INTO_TUPLE: return mk(n, exec::into_tuple(std::move(c)) | ex::then(FTup{n}), r);
      case A_UNLESS_STOP: return mk(n, exec::unless_stop_requested(std::move(c)), r);
      default: return nullptr;
    }
  }
}
