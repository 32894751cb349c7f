// C22: io_uring_context - every operation completes exactly once, on the driving thread, not early, promptly stopped; runs return when they
// should and only then; the context restarts. The kernel side of io_uring (rings, eventfd read, timeout, cancel) is emulated under the
// schedule-fuzzing runtime, so ring overflow, partial submission, EINTR, failing enter and the order of completions are all generated.
#include "vs_senders.hpp"
#include <stdexec/execution.hpp>
#include <iostream>
#include <optional>
#include <chrono>
#include <system_error>
#include <cstring>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <linux/io_uring.h>
#include <linux/version.h>
#include <exec/timed_scheduler.hpp>
#include <exec/scope.hpp>
namespace vk {
constexpr uint64_t MS = 1000000ull;
struct Pend { uint64_t ud; int op; uint64_t deadline, addr; int fd; };
struct Ready { uint64_t ud; int res; };
struct Ring { unsigned sqn = 0, cqn = 0; char* mem = nullptr; io_uring_sqe* sqes = nullptr; std::vector<Pend> pend; std::vector<Ready> late; };
enum { SQHEAD = 0, SQTAIL = 64, SQMASK = 128, CQHEAD = 192, CQTAIL = 256, CQMASK = 320, SQARRAY = 384 };
struct Kernel {
  std::mutex m; std::condition_variable cv; std::map<int, Ring> rings; std::map<int, uint64_t> efd; int next = 100000;
  int eintr = 0, partial = 0, fail_enter = 0, late = 0; // remaining injections
  std::vector<char*> maps;
};
Kernel* K = nullptr;
inline uint32_t* u32(Ring& r, int off) { return reinterpret_cast<uint32_t*>(r.mem + off); }
inline unsigned cq_off(unsigned sqn) { return (SQARRAY + sqn * 4 + 63) / 64 * 64; }
void post(Ring& r, uint64_t ud, int res) {
  uint32_t t = __atomic_load_n(u32(r, CQTAIL), __ATOMIC_RELAXED), h = __atomic_load_n(u32(r, CQHEAD), __ATOMIC_ACQUIRE);
  if (t - h >= r.cqn) vs::fail("more operations in flight than the completion ring can hold");
  auto* c = reinterpret_cast<io_uring_cqe*>(r.mem + cq_off(r.sqn)) + (t & (r.cqn - 1)); c->user_data = ud; c->res = res; c->flags = 0;
  __atomic_store_n(u32(r, CQTAIL), t + 1, __ATOMIC_RELEASE); K->cv.notify_all();
}
void deliver(Ring& r, uint64_t ud, int res) { if (K->late > 0 && vs::choose(4) == 1) { K->late--; r.late.push_back({ud, res}); K->cv.notify_all(); } else post(r, ud, res); }
void fill(const Pend& p, uint64_t v) { if (p.op == IORING_OP_READ) *reinterpret_cast<uint64_t*>(p.addr) = v; else *static_cast<uint64_t*>(reinterpret_cast<iovec*>(p.addr)->iov_base) = v; }
void submit_one(Ring& r, const io_uring_sqe& s) {
  switch (s.opcode) {
  case IORING_OP_NOP: deliver(r, s.user_data, 0); break;
  case IORING_OP_READ: case IORING_OP_READV: {
    auto it = K->efd.find(s.fd); if (it == K->efd.end()) { post(r, s.user_data, -EBADF); break; }
    Pend p{s.user_data, s.opcode, 0, s.addr, s.fd};
    if (it->second) { fill(p, it->second); it->second = 0; deliver(r, p.ud, 8); } else r.pend.push_back(p); break; }
  case IORING_OP_TIMEOUT: {
    struct TS { int64_t s, n; }; TS t = *reinterpret_cast<TS*>(s.addr); if (t.s < 0 || t.n < 0 || t.n >= 1000000000 || s.len != 1) { post(r, s.user_data, -EINVAL); break; }
    r.pend.push_back({s.user_data, s.opcode, vs::now_ns() + (uint64_t) t.s * 1000000000ull + (uint64_t) t.n, 0, -1}); break; }
  case IORING_OP_ASYNC_CANCEL: {
    for (size_t i = 0; i < r.pend.size(); i++) if (r.pend[i].ud == s.addr) { r.pend.erase(r.pend.begin() + (long) i); bool first = vs::choose(2) == 0; if (first) post(r, s.addr, -ECANCELED); deliver(r, s.user_data, 0); if (!first) post(r, s.addr, -ECANCELED); return; }
    deliver(r, s.user_data, -ENOENT); break; }
  default: post(r, s.user_data, -EINVAL);
  }
}
long enter(int fd, unsigned to_submit, unsigned min_complete, unsigned flags) {
  std::unique_lock l(K->m); auto it = K->rings.find(fd); if (it == K->rings.end()) { errno = EBADF; return -1; } Ring& r = it->second;
  if (K->fail_enter > 0 && vs::choose(4) == 1) { K->fail_enter--; errno = EBUSY; return -1; }
  uint32_t h = __atomic_load_n(u32(r, SQHEAD), __ATOMIC_RELAXED), t = __atomic_load_n(u32(r, SQTAIL), __ATOMIC_ACQUIRE); unsigned n = std::min<unsigned>(to_submit, t - h), done = 0;
  if (n > 1 && K->partial > 0 && vs::choose(3) == 1) { K->partial--; n = 1 + vs::choose(n - 1); }
  for (; done < n; done++) { uint32_t i = u32(r, SQARRAY)[(h + done) & (r.sqn - 1)]; if (i >= r.sqn) vs::fail("submission index out of range"); io_uring_sqe s = r.sqes[i]; __atomic_store_n(u32(r, SQHEAD), h + done + 1, __ATOMIC_RELEASE); submit_one(r, s); }
  if (to_submit && done != to_submit) return (long) done;
  if (flags & IORING_ENTER_GETEVENTS) for (;;) {
    uint64_t now = vs::now_ns(), next = 0;
    for (size_t i = 0; i < r.pend.size();) { if (r.pend[i].op == IORING_OP_TIMEOUT && r.pend[i].deadline <= now) { auto p = r.pend[i]; r.pend.erase(r.pend.begin() + (long) i); post(r, p.ud, -ETIME); } else { if (r.pend[i].op == IORING_OP_TIMEOUT && (!next || r.pend[i].deadline < next)) next = r.pend[i].deadline; i++; } }
    for (auto& x : r.late) post(r, x.ud, x.res); r.late.clear();
    if (__atomic_load_n(u32(r, CQTAIL), __ATOMIC_RELAXED) - __atomic_load_n(u32(r, CQHEAD), __ATOMIC_RELAXED) >= min_complete) break;
    if (!done && K->eintr > 0 && vs::choose(3) == 1) { K->eintr--; errno = EINTR; return -1; }
    if (next) K->cv.wait_until(l, std::chrono::steady_clock::time_point(std::chrono::nanoseconds(next))); else K->cv.wait(l);
  }
  return (long) done;
}
long setup(unsigned entries, io_uring_params* p) {
  std::unique_lock l(K->m); unsigned n = 1; while (n < entries) n *= 2; int fd = K->next++; Ring& r = K->rings[fd]; r.sqn = n; r.cqn = 2 * n;
  size_t sz = cq_off(n) + r.cqn * sizeof(io_uring_cqe); r.mem = new char[sz](); r.sqes = new io_uring_sqe[n](); K->maps.push_back(r.mem); K->maps.push_back(reinterpret_cast<char*>(r.sqes));
  *u32(r, SQMASK) = n - 1; *u32(r, CQMASK) = r.cqn - 1; p->sq_entries = n; p->cq_entries = r.cqn; p->features = IORING_FEAT_SINGLE_MMAP | IORING_FEAT_NODROP;
  p->sq_off = {}; p->sq_off.head = SQHEAD; p->sq_off.tail = SQTAIL; p->sq_off.ring_mask = SQMASK; p->sq_off.array = SQARRAY; p->cq_off = {}; p->cq_off.head = CQHEAD; p->cq_off.tail = CQTAIL; p->cq_off.ring_mask = CQMASK; p->cq_off.cqes = cq_off(n);
  return fd;
}
}
template <class... A> inline long vk_syscall(long nr, A... a) {
  auto t = std::make_tuple(a...);
  if constexpr (sizeof...(A) == 2) { if (nr == __NR_io_uring_setup) if constexpr (std::is_pointer_v<std::tuple_element_t<1, decltype(t)>>) return vk::setup((unsigned) std::get<0>(t), std::get<1>(t)); }
  else if constexpr (sizeof...(A) >= 4) { if (nr == __NR_io_uring_enter) return vk::enter((int) std::get<0>(t), (unsigned) std::get<1>(t), (unsigned) std::get<2>(t), (unsigned) std::get<3>(t)); }
  errno = ENOSYS; return -1;
}
inline int vk_eventfd(unsigned v, int) { std::unique_lock l(vk::K->m); int fd = vk::K->next++; vk::K->efd[fd] = v; return fd; }
inline ssize_t vk_write(int fd, const void* p, size_t n) {
  using namespace vk; std::unique_lock l(K->m); auto it = K->efd.find(fd); if (it == K->efd.end() || n != 8) { errno = EBADF; return -1; }
  it->second += *static_cast<const uint64_t*>(p);
  for (auto& [f, r] : K->rings) for (size_t i = 0; i < r.pend.size(); i++) if (r.pend[i].fd == fd && it->second) { auto q = r.pend[i]; r.pend.erase(r.pend.begin() + (long) i); fill(q, it->second); it->second = 0; deliver(r, q.ud, 8); break; }
  return 8;
}
inline int vk_close(int fd) { std::unique_lock l(vk::K->m); vk::K->rings.erase(fd); vk::K->efd.erase(fd); return 0; }
inline void* vk_mmap(void*, size_t, int, int, int fd, long off) { std::unique_lock l(vk::K->m); auto it = vk::K->rings.find(fd); if (it == vk::K->rings.end()) { errno = EBADF; return MAP_FAILED; } return (unsigned long) off == IORING_OFF_SQES ? (void*) it->second.sqes : (void*) it->second.mem; }
inline int vk_munmap(void*, size_t) { return 0; }
#define syscall vk_syscall
#define eventfd vk_eventfd
#define write vk_write
#define close vk_close
#define mmap vk_mmap
#define munmap vk_munmap
#include <exec/linux/io_uring_context.hpp>
#undef syscall
#undef eventfd
#undef write
#undef close
#undef mmap
#undef munmap
namespace {
using Ctx = exec::io_uring_context; using Sch = exec::io_uring_scheduler; using vk::MS; constexpr int FAR = 3600000;
enum { NOW, AFTER, AT }; enum { NOSTOP, BEFORE, CONC }; enum { STOP, EMPTY, FINISH };
struct Spec { int kind, ms, stop, delay; bool destroy; int child; };
struct World; struct Op;
struct ORcv { using receiver_concept = ex::receiver_t; Op* o; void set_value() noexcept; void set_error(std::exception_ptr) noexcept; void set_stopped() noexcept; REnv<> get_env() const noexcept; };
struct OpBase { virtual ~OpBase() = default; virtual void start() = 0; };
template <class S> struct OpI final : OpBase { ex::connect_result_t<S, ORcv> op; OpI(S s, ORcv r) : op(ex::connect(std::move(s), r)) {} void start() override { ex::start(op); } };
struct World {
  std::unique_ptr<Ctx> ctx; std::vector<std::unique_ptr<Op>> t; std::mutex m; std::condition_variable cv; int left = 0;
  ghost<int> driver{-1}, phase, stopped_ever, stop_now, stopping; ghost<uint64_t> ctx_stop_at;   // stop_now: a context stop of the current phase has begun; stopping: request_stop has returned
};
struct Op {
  World* w; int id; Spec s; ex::inplace_stop_source src; std::unique_ptr<OpBase> op; uint64_t data = 0; bool fin = false;
  ghost<int> n, chan{-1}, stop_begun, started, may_stop, st_phase, driven; ghost<uint64_t> deadline, at, started_at, stop_at;
  void start() {
    auto sch = w->ctx->get_scheduler(); auto d = std::chrono::milliseconds(s.ms);
    if (s.kind == AT) { auto tp = sch.now() + d; deadline.set((uint64_t) std::chrono::duration_cast<std::chrono::nanoseconds>(tp.time_since_epoch()).count()); auto snd = exec::schedule_at(sch, tp); op = std::make_unique<OpI<decltype(snd)>>(std::move(snd), ORcv{this}); }
    else if (s.kind == AFTER) { auto snd = exec::schedule_after(sch, d); op = std::make_unique<OpI<decltype(snd)>>(std::move(snd), ORcv{this}); deadline.set(vs::now_ns() + (s.ms > 0 ? (uint64_t) s.ms * MS : 0)); }
    else { deadline.set(0); auto snd = ex::schedule(sch); op = std::make_unique<OpI<decltype(snd)>>(std::move(snd), ORcv{this}); }
    data = 77 + (uint64_t) id; if (s.stop == BEFORE) { stop_begun.set(1); src.request_stop(); stop_at.set(vs::now_ns()); }
    // may this operation be stopped because of a context stop that is already over? not if it is started by the running driver itself
    may_stop.set(vs::tid() == w->driver.get() ? w->stop_now.get() : w->stopped_ever.get());
    started_at.set(vs::now_ns()); st_phase.set(w->phase.get()); started.set(1); op->start();
  }
  void stop() { stop_begun.set(1); src.request_stop(); stop_at.set(vs::now_ns()); }
  void complete(int ch) {
    VS_ASSERT(n.add(1) == 1, "operation completed twice"); VS_ASSERT(started.get()); VS_ASSERT(data == 77 + (uint64_t) id, "data written before start is not visible in the completion");
    at.set(vs::now_ns()); chan.set(ch); bool on_driver = w->driver.get() >= 0 && vs::tid() == w->driver.get(); driven.set(on_driver);
    VS_ASSERT(ch != CH_ERROR, "schedule operation failed");
    if (ch == CH_VALUE) { VS_ASSERT(at.get() + 1000 >= deadline.get(), "timer fired early"); VS_ASSERT(s.stop != BEFORE, "set_value although stop was requested before start"); VS_ASSERT(on_driver, "completed on a thread that does not drive the context"); }
    else { VS_ASSERT(stop_begun.get() || w->stop_now.get() || may_stop.get(), "set_stopped although nobody requested stop"); VS_ASSERT(on_driver || w->stopped_ever.get(), "stopped on a thread that does not drive the context"); }
    World* W = w; int c = s.child; if (s.destroy) op.reset();
    if (c >= 0) W->t[(size_t) c]->start();
    std::unique_lock l(W->m); fin = true; W->left--; W->cv.notify_all();
  }
};
void ORcv::set_value() noexcept { o->complete(CH_VALUE); } void ORcv::set_stopped() noexcept { o->complete(CH_STOPPED); } void ORcv::set_error(std::exception_ptr) noexcept { o->complete(CH_ERROR); } REnv<> ORcv::get_env() const noexcept { return {o->src.get_token()}; }
struct Phase { int kind, via, delay, early; }; // via: 0 member function, 1 run() sender stopped through the context, 2 run() sender stopped through its receiver (token stopped before start if early==2); early: end before all operations are done
struct RRcv { using receiver_concept = ex::receiver_t; ghost<int>* n; ghost<int>* ch; ex::inplace_stop_token t; void set_value() noexcept { n->add(1); ch->set(CH_VALUE); } void set_stopped() noexcept { n->add(1); ch->set(CH_STOPPED); } void set_error(std::exception_ptr) noexcept { n->add(1); ch->set(CH_ERROR); } REnv<> get_env() const noexcept { return {t}; } };
vs::Case make(vs::Gen& g) {
  struct P { int clients, entries, eintr, partial, late, fail; std::vector<Spec> s; std::vector<Phase> ph; std::vector<std::vector<std::vector<std::pair<int, int>>>> roots; } p; // roots[phase][client]; client 0 of a phase: started before the run
  static const int E[] = {1024, 2, 4, 1, 8}; p.entries = E[g.below(5)]; p.clients = g.range(1, 2); p.eintr = g.chance(25) ? 1 : 0; p.partial = g.chance(25) ? 2 : 0; p.late = g.chance(25) ? 2 : 0; p.fail = g.chance(6) ? 1 : 0;
  int np = g.chance(45) ? 1 : g.range(2, 3); for (int i = 0; i < np; i++) { Phase f; f.kind = i == np - 1 ? STOP : (int) g.below(3); f.via = (int) g.below(3); if (f.kind == STOP && i > 0) f.via = 2; /* request_stop() racing with the restart of the context is a misuse */ if (f.kind == FINISH) f.via = std::min(f.via, 1); f.early = g.chance(35) ? (f.via == 2 && g.chance(40) ? 2 : 1) : 0; if (f.kind == FINISH || (f.kind == EMPTY && f.early == 1)) f.early = 0; if (f.kind == EMPTY && f.via == 2 && !f.early) f.via = 1; f.delay = f.early ? (int) g.below(3) : 0; p.ph.push_back(f); }
  int n = g.range(1, g.chance(20) ? 12 : 6); p.roots.resize((size_t) np); for (auto& r : p.roots) r.resize((size_t) p.clients + 1);
  vs::Case c; c.desc = sfmt("entries=%d%s%s%s%s", p.entries, p.eintr ? " EINTR" : "", p.partial ? " partial-submit" : "", p.late ? " late-cqe" : "", p.fail ? " enter-fails" : ""); std::vector<std::string> pd((size_t) np); std::vector<int> opph;
  for (int i = 0; i < n; i++) {
    Spec s; s.kind = g.pick({NOW, AFTER, AT}); static const int D[] = {0, 1, 2, 2, 3, 5, -3, 5000, FAR, -5000}; s.ms = s.kind == NOW ? 0 : D[g.below(10)];
    s.stop = g.chance(40) ? g.range(1, 2) : 0; s.delay = 0; s.destroy = g.chance(50); s.child = -1;
    int parent = i > 0 && g.chance(30) ? (int) g.below((uint32_t) i) : -1; if (parent >= 0 && p.s[(size_t) parent].child >= 0) parent = -1;
    int ph = parent >= 0 ? opph[(size_t) parent] : (int) g.below((uint32_t) np), cl = (int) g.below((uint32_t) p.clients + 1), sl = cl && g.chance(30) ? g.range(1, 3) : 0; opph.push_back(ph);
    if (s.ms == FAR && !p.ph[(size_t) ph].early && !s.stop) s.stop = CONC; if (s.stop == CONC) s.delay = g.chance(60) ? 0 : g.range(1, 4);
    if (parent >= 0) p.s[(size_t) parent].child = i; else p.roots[(size_t) ph][(size_t) cl].push_back({i, sl});
    pd[(size_t) ph] += sfmt(" %d(%s%s%s%s%s%s)", i, parent >= 0 ? sfmt("after %d", parent).c_str() : cl ? sfmt("client %d", cl).c_str() : "before-run", s.kind == NOW ? " now" : s.kind == AT ? " at" : " after", s.kind == NOW ? "" : sfmt(" %dms", s.ms).c_str(), s.stop == BEFORE ? " stopped" : s.stop == CONC ? sfmt(" stop-concurrent+%dms", s.delay).c_str() : "", s.destroy ? " !" : "", sl ? sfmt(" sleep %d", sl).c_str() : "");
    p.s.push_back(s);
  }
  for (int i = 0; i < np; i++) { auto& f = p.ph[(size_t) i]; c.desc += sfmt("; %s%s%s:", f.kind == STOP ? "run_until_stopped" : f.kind == EMPTY ? "run_until_empty" : "run+finish", f.via == 1 ? " (run sender)" : f.via == 2 ? " (run sender, receiver stops)" : "", f.early == 2 ? " stopped-before" : f.early ? sfmt(" stop-early+%dms", f.delay).c_str() : "") + pd[(size_t) i]; }
  c.body = [p, opph] {
    vk::Kernel kernel; vk::K = &kernel; kernel.eintr = p.eintr; kernel.partial = p.partial; kernel.late = p.late; kernel.fail_enter = p.fail;
    {
      World w; w.ctx = std::make_unique<Ctx>((unsigned) p.entries);
      for (size_t i = 0; i < p.s.size(); i++) { w.t.push_back(std::make_unique<Op>()); auto& t = *w.t.back(); t.w = &w; t.id = (int) i; t.s = p.s[i]; }
      bool carried = false;
      for (size_t k = 0; k < p.ph.size(); k++) {
        const Phase& f = p.ph[k]; w.phase.set((int) k); w.stop_now.set(0); w.stopping.set(0); w.ctx_stop_at.set(0);
        { std::unique_lock l(w.m); for (size_t i = 0; i < p.s.size(); i++) if (opph[i] == (int) k) w.left++; }
        for (auto& [i, sl] : p.roots[k][0]) w.t[(size_t) i]->start();
        std::vector<std::function<void()>> fs; std::optional<ex::inplace_stop_source> rsrc(std::in_place); int errors = 0; auto ended = [&] { w.driver.set(-1); };
        auto begin_stop = [&] { w.stopped_ever.set(1); w.stop_now.set(1); };
        fs.push_back([&] { // driver
          w.driver.set(vs::tid());
          for (;;) {
            bool failed = false;
            if (f.via == 0) { try { if (f.kind == EMPTY) w.ctx->run_until_empty(); else w.ctx->run_until_stopped(); } catch (const std::system_error& e) { failed = true; VS_ASSERT(e.code().value() == EBUSY, "unexpected error"); } }
            else {
              ghost<int> n, ch{-1}; if (f.early == 2) { begin_stop(); rsrc->request_stop(); }
              { auto op = ex::connect(w.ctx->run(f.kind == EMPTY ? exec::until::empty : exec::until::stopped), RRcv{&n, &ch, rsrc->get_token()}); ex::start(op); }
              VS_ASSERT(n.get() == 1, "run() did not complete exactly once"); failed = ch.get() == CH_ERROR; if (!failed) VS_ASSERT(ch.get() == CH_VALUE || w.stop_now.get(), "run() completed with set_stopped although nobody requested stop");
              if (f.kind == STOP && !failed) VS_ASSERT(ch.get() == CH_STOPPED, "run() completed with set_value although it was stopped");
            }
            if (!failed) break; VS_ASSERT(++errors <= p.fail, "a run failed although no system call did");
          }
          VS_ASSERT(!w.ctx->is_running());
          if (f.kind == STOP) VS_ASSERT(w.stop_now.get(), "run_until_stopped returned although nobody requested stop");
          if (f.kind == EMPTY && !w.stop_now.get()) for (auto& t : w.t) if (t->started.get() && t->st_phase.get() == (int) k && t->s.child < 0) { bool here = false; for (auto& [i, sl] : p.roots[k][0]) if (i == t->id) here = true; if (here) VS_ASSERT(t->n.get() == 1, "run_until_empty returned although an operation is outstanding"); }
          ended();
        });
        for (size_t cl = 1; cl < p.roots[k].size(); cl++) if (!p.roots[k][cl].empty()) fs.push_back([&, cl] { for (auto& [i, sl] : p.roots[k][cl]) { if (sl) std::this_thread::sleep_for(std::chrono::milliseconds(sl)); w.t[(size_t) i]->start(); } });
        for (auto& t : w.t) if (opph[(size_t) t->id] == (int) k && t->s.stop == CONC) fs.push_back([&t] { if (t->s.delay) std::this_thread::sleep_for(std::chrono::milliseconds(t->s.delay)); t->stop(); });
        if (f.kind != EMPTY && f.early != 2) fs.push_back([&] {
          if (f.early) { if (f.delay) std::this_thread::sleep_for(std::chrono::milliseconds(f.delay)); }
          else { std::unique_lock l(w.m); while (w.left) w.cv.wait(l); }
          if (f.kind == FINISH) { w.ctx->finish(); return; }
          begin_stop(); if (f.via == 2) rsrc->request_stop(); else w.ctx->request_stop(); w.ctx_stop_at.set(vs::now_ns());
        });
        vs_threads(std::move(fs));
        // operations left behind by run_until_empty: another run completes them
        for (int tries = 0; w.left; tries++) { VS_ASSERT(tries < 20, "operations are not completed however often the context runs"); carried = true;
          w.driver.set(vs::tid()); try { w.ctx->run_until_empty(); } catch (const std::system_error&) {} w.driver.set(-1); }
      }
      uint32_t jumps = vs::time_jumps(); int stopped = 0; size_t sq = 1; while (sq < std::max<size_t>((size_t) p.entries, 2)) sq *= 2;
      bool over = p.s.size() > 2 * sq - 2; uint64_t bound = 0, sum = 0; // more than the rings can hold: an operation may have to wait for others
      for (auto& t : w.t) if (t->started.get()) { uint64_t e = t->deadline.get(); if (t->stop_at.get()) e = std::min(e, t->stop_at.get()); e = std::max(e, t->started_at.get()); sum += e - t->started_at.get(); bound = std::max(bound, t->started_at.get()); } // a timer runs from its submission
      bound += sum;
      for (auto& tp : w.t) {
        Op& t = *tp; if (!t.started.get()) continue; if (t.n.get() == 0) vs::fail("operation %d was never completed", t.id); stopped += t.chan.get() == CH_STOPPED;
        if (jumps || carried || p.ph.size() > 1) continue;
        uint64_t slack = MS / 2, start = t.started_at.get(), due = std::max(t.deadline.get(), start);
        if (uint64_t cs = w.ctx_stop_at.get()) { uint64_t req = std::max(cs, start); if (t.at.get() > req + slack) vs::fail("operation %d completed %.1f ms after the context was stopped", t.id, (double) (t.at.get() - req) / MS); }
        if (over) { if (t.at.get() > bound + MS / 2) vs::fail("operation %d completed %.1f ms after everything could have been done", t.id, (double) (t.at.get() - bound) / MS); continue; }
        if (t.at.get() > due + slack) vs::fail("operation %d completed %.1f ms late", t.id, (double) (t.at.get() - due) / MS);
        if (t.stop_at.get()) { uint64_t req = std::max(t.stop_at.get(), start); if (t.at.get() > req + slack) vs::fail("operation %d completed %.1f ms after stop was requested", t.id, (double) (t.at.get() - req) / MS); }
      }
      if (stopped) vs::label("stopped"); if (p.ph.size() > 1) vs::label("several runs"); if (carried) vs::label("carried over"); if ((int) p.s.size() > p.entries) vs::label("more operations than entries");
      w.ctx.reset();
    }
    VS_ASSERT(kernel.rings.empty() && kernel.efd.empty(), "descriptors leaked");
    for (size_t i = 0; i + 1 < kernel.maps.size(); i += 2) { delete[] kernel.maps[i]; delete[] reinterpret_cast<io_uring_sqe*>(kernel.maps[i + 1]); }
    vk::K = nullptr;
  };
  return c;
}
}
int main(int argc, char** argv) { return vs::run_main(argc, argv, {{"uring", make}}); }
