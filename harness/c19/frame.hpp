#pragma once
#include "c19.hpp"
namespace c19 {
template <int C, class Aw> Val dummy();
// the interpreter inside a coroutine of type T
template <int K, class T> T frame(int n) {
  { vs::Ghost g; st()->frames++; }
  struct FrameCount { ~FrameCount() { vs::Ghost g; st()->frames--; } } fc;
  Local fl(n, 0); auto& f = st()->p.f[n]; int acc = n * 100; constexpr bool X = K == EXEC;
  for (int i = 0; i < (int) f.st.size(); i++) {
    Stmt& s = f.st[i]; logev('R', n, i); in_frame(n); bool hasv = true; int v = 0; 
    { Local sl(n, i + 1);
      try {
#define AWAIT_CHILD(EXPR) do { int ck = st()->p.f[s.child].kind; if constexpr (K == STD) { if (ck == STD) { auto child = [&] { return mk<STD>(s.child); }; EXPR } } if constexpr (K == STDE) { if (ck == STD) { auto child = [&] { return mk<STD>(s.child); }; EXPR } else if (ck == STDE) { auto child = [&] { return mk<STDE>(s.child); }; EXPR } } if (ck == EXEC) { auto child = [&] { return mk<EXEC>(s.child); }; EXPR } } while (0)
#define AWAIT_ON(EXPR) do { if (st()->p.f[s.child].kind == STD) { auto child = [&] { return mk<STD>(s.child); }; EXPR } else if (st()->p.f[s.child].kind == STDE) { auto child = [&] { return mk<STDE>(s.child); }; EXPR } else { auto child = [&] { return mk<EXEC>(s.child); }; EXPR } } while (0)
#define AWAIT_AW(A) do { if (s.sub & 8) { if (s.sub & 16) v = (co_await ViaBoth<A>{n, i, s.sub & 7}).get(); else v = (co_await ViaCo<A>{n, i, s.sub & 7}).get(); } else if (s.sub & 16) v = (co_await ViaAs<A>{n, i, s.sub & 7}).get(); else v = (co_await A(n, i, s.sub & 7)).get(); } while (0)
        switch (s.op) {
        case LEAF: { Val x = co_await Leaf<LVAL>{n, i}; v = x.get(); break; }
        case LEAFINL: { Val x = co_await Leaf<LINL>{n, i}; v = x.get(); break; }
        case LEAFVOID: co_await Leaf<LVOID>{n, i}; break;
        case LEAFTWO: { auto [a, b] = co_await Leaf<LTWO>{n, i}; v = a.get() * 7 + b.get(); break; }
        case CHILD: AWAIT_CHILD({ Val x = co_await child(); v = x.get(); }); break;
        case OPT: AWAIT_CHILD({ std::optional<Val> x = co_await ex::stopped_as_optional(child()); v = x ? x->get() : -5; }); break;
        case UPON: AWAIT_CHILD({ Val x = co_await (child() | ex::upon_stopped([] { return Val(-5); })); v = x.get(); }); break;
        case THEN: AWAIT_CHILD({ Val x = co_await (child() | ex::then([n, i](Val x) { logev('t', n, i); return Val(x.get() + 1000); })); v = x.get(); }); break;
        case STARTS_ON: AWAIT_ON({ Val x = co_await ex::starts_on(Sched{s.ctx}, child()); v = x.get(); }); break;
        case ON: AWAIT_ON({ Val x = co_await ex::on(Sched{s.ctx}, child()); v = x.get(); }); break;
        case SCHED: co_await ex::schedule(Sched{s.ctx}); break;
        case AWAIT: { int b = s.sub & 7; if (b == 2 || b == 3) AWAIT_AW(AwBool); else if (b == 4) AWAIT_AW(AwHandle); else AWAIT_AW(AwVoid); break; }
        case READ: { auto tok = co_await ex::get_stop_token(); bool r = tok.stop_requested();
#ifndef C19_MT
          if (r != st()->extReq && st()->p.tok) vs::fail("frame %d: stop_requested() is %d although stop was %srequested", n, (int) r, st()->extReq ? "" : "not ");
#endif
          if (r && !(st()->p.tok)) vs::fail("stop seen through a token that cannot be stopped"); if (st()->p.tok && !tok.stop_possible()) vs::fail("frame %d: the stop token of the task is not connected", n);
          auto sc = co_await ex::read_env(ex::get_start_scheduler); if constexpr (K != EXEC) if (!(sc == decltype(sc)(Sched{curctx}))) vs::fail("frame %d: the task's scheduler is not the context it runs on", n);
          break; }
        case EXIT: if constexpr (X) { if (s.mode == INL || s.mode == DEFER) { auto [x] = co_await exec::at_coroutine_exit([n, i](Val x) -> XVoid { return [](int n, int i, Val x) -> XVoid { co_await exit_action(n, i, &x); }(n, i, std::move(x)); }, Val(0)); x = Val(n * 10 + i); } } break;
        case EXITJUST: if constexpr (X) { if (!s.sub) co_await exec::at_coroutine_exit([n, i] { logev('X', n, i); return ex::just(); }); else co_await exec::at_coroutine_exit([n, i, c = s.ctx] { logev('X', n, i); return ex::schedule(Sched{c}); }); } break;
        case DISP: if constexpr (X) { auto act = [n, i] { logev('X', n, i); return ex::just(); }; if (s.sub == 0) co_await exec::on_coroutine_succeeded(act); else if (s.sub == 1) co_await exec::on_coroutine_failed(act); else co_await exec::on_coroutine_stopped(act); } break;
        case RESCHED: if constexpr (X) if (s.throwConnect) { co_await exec::reschedule_coroutine_on(FailSched{s.ctx, s.err, s.sub}); } else co_await exec::reschedule_coroutine_on(Sched{s.ctx}); break;
        }
      } catch (...) { if (!s.catches) throw; v = code_of(std::current_exception()); hasv = false; }
      logev(hasv ? 'V' : 'C', n, i, v); acc = (acc * 3 + v) % 100003;
    }
    in_frame(n);
  }
  logev('E', n, f.end);
  switch (f.end) {
  case THROW: throw Err{n * 10 + 7};
  case STOP: co_await ex::just_stopped(); break;
  case RETTHROWMOVE: { Val x(n * 10 + 8, true); co_return std::move(x); }
  case RSTOP: if constexpr (!X) co_return ex::with_stopped{}; break;
  case YSTOP: if constexpr (!X) co_yield ex::with_stopped{}; break;
  case RERR: if constexpr (K == STDE) co_return ex::with_error<int>{n * 10 + 7}; break;
  case YERR: if constexpr (K == STDE) co_yield ex::with_error<int>{n * 10 + 7}; break;
  }
  co_return Val(acc);
}
}
