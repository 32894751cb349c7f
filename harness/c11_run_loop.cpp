// C11: run_loop - every item once, in order, on the running thread; run() returns after finish() and only then.
#include "vs_senders.hpp"
namespace {
using Sch = decltype(std::declval<ex::run_loop&>().get_scheduler());
struct World;
struct ItemRcv { using receiver_concept = ex::receiver_t; struct Item* it;
  void set_value() noexcept; void set_stopped() noexcept; REnv<> get_env() const noexcept; };
using ItemOp = ex::connect_result_t<decltype(ex::schedule(std::declval<Sch>())), ItemRcv>;
struct Item {
  World* w; int producer, idx; ex::inplace_stop_source src; int stop = 0; // 0 never 1 before start 2 concurrently
  int data = 0; Item* child = nullptr; bool finish_here = false; ghost<int> done, chan{-1}, stop_begun; std::optional<ItemOp> op; bool is_child = false; bool destroy_op = false;
  struct Conv { Item* it; operator ItemOp(); };
  void connect() { op.emplace(Conv{this}); }
  void start() { data = 42 + idx; if (stop == 1) { stop_begun.set(1); src.request_stop(); } ex::start(*op); }
  void complete(int ch);
};
struct World {
  std::unique_ptr<ex::run_loop> loop; ghost<int> runner{-1}; ghost<int> total, finished_called, run_returned; std::vector<int> last; std::atomic<int> left{0}; int nitems = 0;
};
Item::Conv::operator ItemOp() { return ex::connect(ex::schedule(it->w->loop->get_scheduler()), ItemRcv{it}); }
void ItemRcv::set_value() noexcept { it->complete(CH_VALUE); }
void ItemRcv::set_stopped() noexcept { it->complete(CH_STOPPED); }
REnv<> ItemRcv::get_env() const noexcept { return {it->src.get_token()}; }
void Item::complete(int ch) {
  VS_ASSERT(done.add(1) == 1, "item completed twice");
  VS_ASSERT(vs::tid() == w->runner.get(), "item completed on a thread that is not executing run()");
  VS_ASSERT(data == 42 + idx, "data written before start is not visible to the item");
  chan.set(ch);
  if (stop == 0) VS_ASSERT(ch == CH_VALUE, "set_stopped although stop was never requested");
  if (stop == 1) VS_ASSERT(ch == CH_STOPPED, "set_value although stop was requested before the item was started");
  if (stop == 2 && ch == CH_STOPPED) VS_ASSERT(stop_begun.get(), "set_stopped before stop was requested");
  { vs::Ghost g; if (!is_child) { VS_ASSERT(w->last[producer] < idx, "items of one thread ran out of order"); w->last[producer] = idx; } }
  w->total.add(1);
  if (child) child->start();
  bool fin = finish_here; World* ww = w;
  if (destroy_op) op.reset();
  if (fin) { ww->finished_called.set(1); ww->loop->finish(); }
}
struct P { int producers, fin; bool late_run; struct I { int stop; bool child, destroy; }; std::vector<std::vector<I>> items; };
vs::Case make(vs::Gen& g) {
  P p; p.producers = g.range(1, 3); p.fin = g.pick({0, 1, 3}); p.late_run = g.chance(20);
  for (int i = 0; i < p.producers; i++) { p.items.emplace_back(); int n = g.range(0, 3); for (int k = 0; k < n; k++) p.items[i].push_back({g.chance(40) ? g.range(1, 2) : 0, g.chance(30), g.chance(30)}); }
  vs::Case c; static const char* fm[] = {"after all started", "by last producer", "", "by the last item"};
  c.desc = sfmt("producers=%d finish=%s%s items:", p.producers, fm[p.fin], p.late_run ? " run-after-start" : "");
  for (auto& v : p.items) { c.desc += " ["; for (auto& i : v) c.desc += sfmt("%s%s%s ", i.stop == 0 ? "n" : i.stop == 1 ? "S" : "s", i.child ? "+child" : "", i.destroy ? "!" : ""); c.desc += "]"; }
  c.body = [p] {
    auto w = std::make_unique<World>(); w->loop = std::make_unique<ex::run_loop>(); w->last.assign(p.producers, -1);
    std::vector<std::vector<std::unique_ptr<Item>>> items(p.producers); std::vector<std::unique_ptr<Item>> kids; int n = 0; std::vector<Item*> conc;
    Item* lastitem = nullptr;
    for (int i = 0; i < p.producers; i++) for (auto& s : p.items[i]) {
      auto it = std::make_unique<Item>(); it->w = w.get(); it->producer = i; it->idx = (int) items[i].size(); it->stop = s.stop; it->destroy_op = s.destroy; it->connect(); n++;
      if (s.stop == 2) conc.push_back(it.get());
      if (s.child) { auto k = std::make_unique<Item>(); k->w = w.get(); k->producer = i; k->idx = it->idx; k->is_child = true; k->destroy_op = s.destroy; k->connect(); it->child = k.get(); kids.push_back(std::move(k)); n++; }
      items[i].push_back(std::move(it));
    }
    // the item that calls finish(): started after everything else by a producer (mode 3)
    std::unique_ptr<Item> finisher;
    if (p.fin == 3) { finisher = std::make_unique<Item>(); finisher->w = w.get(); finisher->idx = 0; finisher->is_child = true; finisher->finish_here = true; finisher->connect(); n++; }
    (void) lastitem; std::atomic<int> left{p.producers}; std::atomic<bool> go{!p.late_run};
    auto finish = [&] { w->finished_called.set(1); w->loop->finish(); };
    std::vector<std::function<void()>> fs; World* W = w.get();
    fs.push_back([&, W] {
      while (!go.load()) std::this_thread::yield();
      W->runner.set(vs::tid()); W->loop->run();
      VS_ASSERT(W->finished_called.get(), "run() returned before finish() was called");
      VS_ASSERT(W->total.get() == n, "run() returned although an item had not run");
      W->run_returned.set(1); W->loop.reset();
    });
    for (int i = 0; i < p.producers; i++) fs.push_back([&, i] {
      for (auto& it : items[i]) it->start();
      if (p.late_run && p.fin == 0) go.store(true);
      bool lastp = left.fetch_sub(1) == 1;
      if (lastp && p.late_run) go.store(true);
      if (lastp && p.fin == 3) finisher->start();
      if (lastp && p.fin == 1) finish();
    });
    if (p.fin == 0) fs.push_back([&] { while (left.load() != 0) std::this_thread::yield(); finish(); });
    if (!conc.empty()) fs.push_back([&] { for (auto* c : conc) { c->stop_begun.set(1); c->src.request_stop(); } });
    vs_threads(std::move(fs));
    VS_ASSERT(W->total.get() == n && W->run_returned.get());
    if (n > 2) vs::label("3+ items"); if (!conc.empty()) vs::label("concurrent stop");
  };
  return c;
}
// finish() called twice concurrently, only the loop is touched
vs::Case make_fin(vs::Gen& g) {
  int nf = g.range(1, 3), ni = g.range(0, 2); bool early = g.chance(50);
  vs::Case c; c.desc = sfmt("%d threads call finish(), %d items scheduled first, run %s", nf, ni, early ? "concurrent" : "after");
  c.body = [=] {
    auto w = std::make_unique<World>(); w->loop = std::make_unique<ex::run_loop>(); w->last.assign(1, -1);
    std::vector<std::unique_ptr<Item>> it; for (int i = 0; i < ni; i++) { it.push_back(std::make_unique<Item>()); it[i]->w = w.get(); it[i]->producer = 0; it[i]->idx = i; it[i]->connect(); it[i]->start(); }
    std::vector<std::function<void()>> fs; World* W = w.get(); std::atomic<int> fin{0};
    fs.push_back([&, W] { if (!early) while (fin.load() != nf) std::this_thread::yield(); W->runner.set(vs::tid()); W->loop->run(); VS_ASSERT(W->finished_called.get(), "run() returned before finish()"); VS_ASSERT(W->total.get() == ni); if (nf == 1) W->loop.reset(); });
    for (int i = 0; i < nf; i++) fs.push_back([&, W] { W->finished_called.set(1); W->loop->finish(); fin.fetch_add(1); });
    vs_threads(std::move(fs));
  };
  return c;
}
}
int main(int argc, char** argv) { return vs::run_main(argc, argv, {{"run_loop", make, 4}, {"finish", make_fin, 1}}); }
