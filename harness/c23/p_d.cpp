#include "c23.hpp"
namespace c23 {
static auto plus = [](int x) noexcept { return x + 10000; };
#define PIPE(NAME, NSRC, OUT, NEVER, ITER, NODE, ...) {NAME, NSRC, OUT, NEVER, false, ITER, NODE, [](St& s, ex::inplace_stop_source*& ss) { run_p<false, NEVER>(s, ss, [&] { return __VA_ARGS__; }); }}, {NAME ".iav", NSRC, OUT, NEVER, true, ITER, NODE, [](St& s, ex::inplace_stop_source*& ss) { run_p<true, NEVER>(s, ss, [&] { return __VA_ARGS__; }); }}
static int nums[] = {5000, 5001, 5002, 5003, 5004};
static auto it() { return exec::iterate(std::span<int>(nums, (size_t) st()->sc.niter)); }
std::vector<Pipe> pipes_d() { Node I{Node::ITER, 0, {}}; return {
  PIPE("iterate", 0, false, false, true, I, it()),
  PIPE("iterate.iota", 0, false, false, true, I, exec::iterate(std::views::iota(5000, 5000 + st()->sc.niter))),
  PIPE("trans(iterate)", 0, false, false, true, (Node{Node::TRANS, 0, {I}}), exec::transform_each(it(), ex::then(plus))),
  PIPE("merge(iterate,src)", 1, false, false, true, mg({I, src(0)}), exec::merge(it(), Leaf{0})),
}; }
}
