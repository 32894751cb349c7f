#include "fns.hpp"
#include <exec/fork_join.hpp>
#include <exec/any_sender_of.hpp>
namespace tr {
  struct FLC : FnBase { using FnBase::FnBase; AnyS operator()(Val& v) const { run(v.get() + 1); return AnyS{n->kids[1], Bound{&v.t}}; } };
  using Q = exec::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept, long(Q1_t) noexcept, long(Q2_t) noexcept, CtxSched(ex::get_scheduler_t) noexcept, CtxSched(ex::get_start_scheduler_t) noexcept>;
  using QN = exec::queries<long(Q1_t) noexcept, long(Q2_t) noexcept, CtxSched(ex::get_scheduler_t) noexcept, CtxSched(ex::get_start_scheduler_t) noexcept>;
  using ASigs = ex::completion_signatures<ex::set_value_t(Val&&), ex::set_error_t(Err&&), ex::set_error_t(exception_ptr), ex::set_stopped_t()>;
  using AnySender = exec::any_sender<exec::any_receiver<ASigs, Q>>;
  using AnySenderN = exec::any_sender<exec::any_receiver<ASigs, QN>>;
  OpBase* build_g(Node* n, Bound b, RcvBase* r) {
    auto k = [&](int i) { return AnyS{n->kids[i], b}; };
    switch (n->kind) {
      case A_FORK_JOIN: return mk(n, exec::fork_join(k(0), ex::then(FV{n}), ex::let_value(FLC{n})) | ex::then(FAll{n}), r);
      case A_ANY_SENDER:
        switch (n->n) {
          case 0: return mk(n, AnySender{k(0)}, r);
          case 1: return mk(n, AnySender{k(0) | ex::then(FV{n})}, r);
          case 2: return mk(n, AnySender{ex::unstoppable(AnySender{k(0)})}, r);
          default: return mk(n, AnySenderN{k(0)}, r);
        }
      default: return nullptr;
    }
  }
}
