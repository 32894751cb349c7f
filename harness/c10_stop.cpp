// C10: in-place stop source / callbacks under every explored interleaving.
#include "vs_common.hpp"
#include <stdexec/stop_token.hpp>
#include <optional>
#include <new>
using namespace stdexec;

namespace {
constexpr int MAXCB = 6;
enum Act { A_NONE, A_SELF, A_OTHER, A_REG, A_STOP, A_QUERY, A_NACT };

struct State;
struct Fn { State* s; int k; void operator()() noexcept; };
using CB = inplace_stop_callback<Fn>;

struct Slot {
  CB* cb = nullptr;
  ghost<int> invoked, running, runner{-1}, dead, constructed, ctor_running, ctor_tid{-1};
  ghost<int> act, arg;
};
struct State {
  inplace_stop_source src;
  int payload = 0;                 // written before the request, read (plain) by the callbacks
  ghost<int> winners, requests, seen_true;
  Slot slot[MAXCB];
  std::mutex own[MAXCB];           // serialises construction/destruction of one slot (a client obligation)
};
void reg(State& s, int k) {
  Slot& c = s.slot[k];
  bool before = s.src.stop_requested();
  c.ctor_running.set(1); c.ctor_tid.set(vs::tid());
  CB* p = (CB*) ::operator new(sizeof(CB)); { vs::Ghost g; c.cb = p; } ::new ((void*) p) CB(s.src.get_token(), Fn{&s, k});
  c.ctor_running.set(0);
  c.constructed.set(1);
  if (before) { VS_ASSERT(c.invoked.get() == 1, "callback registered after the stop request was not invoked inline"); vs::label("inline-invocation"); }
}
void dereg(State& s, int k) {
  Slot& c = s.slot[k];
  bool in_own = c.running.get() && c.runner.get() == vs::tid();
  if (in_own) vs::label("self-deregister");
  else if (c.running.get()) vs::label("deregister-while-running");
  CB* p; { vs::Ghost g; p = c.cb; c.cb = nullptr; }
  delete p;
  c.dead.set(1);
  if (!in_own) VS_ASSERT(!c.running.get(), "destructor returned while the callback was still running on another thread");
}
void do_stop(State& s) {
  s.requests.add(1);
  bool w = s.src.request_stop();
  if (w) VS_ASSERT(s.winners.add(1) == 1, "request_stop returned true twice");
  VS_ASSERT(s.src.stop_requested(), "stop_requested() is false after request_stop()");
  VS_ASSERT(s.src.get_token().stop_requested(), "token does not report the stop request");
}
void Fn::operator()() noexcept {
  State& st = *s; Slot& c = st.slot[k]; int kk = k;
  VS_ASSERT(!c.dead.get(), "callback invoked after its destructor returned");
  VS_ASSERT(c.invoked.add(1) == 1, "callback invoked twice");
  VS_ASSERT(st.payload == 42, "write made before the stop request is not visible in the callback");
  c.running.set(1); c.runner.set(vs::tid());
  VS_ASSERT(st.src.stop_requested(), "stop_requested() is false inside a callback");
  switch (c.act.get()) {
    case A_SELF: {
      // destroying itself: only when fully constructed and invoked by request_stop, not inline
      if (c.ctor_running.get() && c.ctor_tid.get() == vs::tid()) break;
      // another thread may own it right now
      if (!st.own[kk].try_lock()) break;
      if (c.constructed.get() && !c.dead.get()) { dereg(st, kk); c.running.set(0); st.own[kk].unlock(); return; }
      st.own[kk].unlock();
      break;
    }
    case A_OTHER: {
      int o = c.arg.get(); if (o == kk) break;
      // only a callback that is not running elsewhere may be destroyed here without risking a cycle in client code
      if (!st.own[o].try_lock()) break;
      Slot& t = st.slot[o];
      if (t.constructed.get() && !t.dead.get() && !t.running.get()) { dereg(st, o); vs::label("deregister-other"); }
      st.own[o].unlock();
      break;
    }
    case A_REG: {
      int o = c.arg.get(); if (o == kk) break;
      if (!st.own[o].try_lock()) break;
      Slot& t = st.slot[o];
      if (!t.constructed.get() && !t.dead.get() && !t.ctor_running.get()) { reg(st, o); VS_ASSERT(t.invoked.get() == 1, "callback registered during the notification was not invoked"); }
      st.own[o].unlock();
      break;
    }
    case A_STOP: st.requests.add(1); VS_ASSERT(!st.src.request_stop(), "nested request_stop returned true"); break;
    default: break;
  }
  c.running.set(0);
}

struct Op { int kind, k; };
vs::Case make(vs::Gen& g) {
  int nt = g.range(2, 4), ncb = g.range(1, MAXCB);
  std::vector<std::vector<Op>> th(nt);
  std::string d = sfmt("%d threads, %d callbacks;", nt, ncb);
  std::vector<int> act(ncb), arg(ncb);
  for (int i = 0; i < ncb; i++) { act[i] = (int) g.below(A_NACT); arg[i] = (int) g.below(ncb); static const char* n[] = {"none", "self-destroy", "destroy", "register", "request_stop", "query"}; d += sfmt(" cb%d:%s", i, n[act[i]]); if (act[i] == A_OTHER || act[i] == A_REG) d += sfmt("(%d)", arg[i]); }
  // each callback is registered by one thread and maybe deregistered by one thread (possibly another)
  int pre = 0;
  for (int i = 0; i < ncb; i++) {
    int t = (int) g.below(nt);
    int how = (int) g.below(4);  // 0: register+deregister on one thread, 1: registered before threads start, deregistered by a thread, 2: register only, 3: only via A_REG
    if (how == 0) { th[t].push_back({0, i}); if (g.chance(30)) th[t].push_back({3, 0}); th[t].push_back({1, i}); }
    else if (how == 1) { pre |= 1 << i; if (g.chance(80)) th[t].push_back({1, i}); }
    else if (how == 2) th[t].push_back({0, i});
  }
  bool anystop = false;
  for (int t = 0; t < nt; t++) if (g.chance(t == 0 ? 90 : 30)) { anystop = true; size_t pos = g.below((uint32_t) th[t].size() + 1); th[t].insert(th[t].begin() + (long) pos, Op{2, 0}); }
  for (int t = 0; t < nt; t++) { d += sfmt(" | T%d:", t); for (auto o : th[t]) d += sfmt(" %s%d", o.kind == 0 ? "reg" : o.kind == 1 ? "dereg" : o.kind == 2 ? "stop" : "query", o.k); }
  d += sfmt(" | pre=%x", pre);
  (void) anystop;
  vs::Case c; c.desc = d;
  c.body = [=] {
    State s;
    s.payload = 42;
    for (int i = 0; i < ncb; i++) { s.slot[i].act.set(act[i]); s.slot[i].arg.set(arg[i]); }
    for (int i = 0; i < ncb; i++) if (pre >> i & 1) reg(s, i);
    std::vector<std::function<void()>> fs;
    for (int t = 0; t < nt; t++) fs.push_back([&s, &th, t] {
      for (auto o : th[t]) {
        if (o.kind == 0) { std::unique_lock l(s.own[o.k]); if (!s.slot[o.k].constructed.get() && !s.slot[o.k].dead.get()) { s.slot[o.k].ctor_tid.set(vs::tid()); reg(s, o.k); } }
        else if (o.kind == 1) {
          // taking the lock while a callback that wants it spins would be a client deadlock only if the callback blocked; callbacks use try_lock
          std::unique_lock l(s.own[o.k]);
          if (s.slot[o.k].constructed.get() && !s.slot[o.k].dead.get()) dereg(s, o.k);
        }
        else if (o.kind == 2) do_stop(s);
        else { bool b = s.src.get_token().stop_requested(); bool past = s.seen_true.get(); if (b) s.seen_true.set(1); (void) past; if (b) { VS_ASSERT(s.payload == 42); VS_ASSERT(s.src.stop_requested(), "stop_requested() went back to false"); } }
      }
    });
    vs_threads(std::move(fs));
    if (s.requests.get()) { VS_ASSERT(s.winners.get() == 1, "no request_stop call returned true"); VS_ASSERT(s.src.stop_requested()); vs::label("stopped"); }
    else VS_ASSERT(!s.src.stop_requested(), "stop_requested() without a request");
    for (int i = 0; i < ncb; i++) {
      Slot& c = s.slot[i];
      if (!s.requests.get()) VS_ASSERT(c.invoked.get() == 0, "callback invoked without a stop request");
      if (c.constructed.get() && !c.dead.get()) {
        if (s.requests.get()) VS_ASSERT(c.invoked.get() == 1, "callback was registered and never deregistered but was not invoked");
      }
      if (c.constructed.get() && !c.dead.get()) dereg(s, i);
    }
  };
  return c;
}
// Visibility: data written by the requesting thread after the threads started.
vs::Case make_vis(vs::Gen& g) {
  int ncb = g.range(1, 3); bool lock_noise = g.chance(50); bool pre = g.chance(30);
  vs::Case c; c.desc = sfmt("requester writes then requests; %d registering threads%s%s", ncb, lock_noise ? ", with lock noise" : "", pre ? ", one pre-registered" : "");
  c.body = [=] {
    inplace_stop_source src; int data = 0; ghost<int> inv;
    struct F { int* d; ghost<int>* inv; void operator()() noexcept { VS_ASSERT(*d == 7, "write made before request_stop not visible in callback"); inv->add(1); } };
    std::optional<inplace_stop_callback<F>> p;
    if (pre) p.emplace(src.get_token(), F{&data, &inv});
    std::vector<std::function<void()>> fs;
    fs.push_back([&] { data = 7; VS_ASSERT(src.request_stop()); });
    for (int i = 0; i < ncb; i++) fs.push_back([&] {
      if (lock_noise) { inplace_stop_callback<F> a(src.get_token(), F{&data, &inv}); }
      inplace_stop_callback<F> b(src.get_token(), F{&data, &inv});
      if (src.stop_requested()) VS_ASSERT(data == 7, "write made before request_stop not visible after stop_requested()");
    });
    vs_threads(std::move(fs));
    if (pre) VS_ASSERT(inv.get() >= 1);
    p.reset();
  };
  return c;
}
}
int main(int argc, char** argv) {
  return vs::run_main(argc, argv, {{"script", make, 4}, {"visibility", make_vis, 1}});
}
