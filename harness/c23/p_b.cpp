#include "c23.hpp"
namespace c23 {
static auto plus = [](int x) noexcept { return x + 10000; };
#define PIPE(NAME, NSRC, OUT, NEVER, ITER, NODE, ...) {NAME, NSRC, OUT, NEVER, false, ITER, NODE, [](St& s, ex::inplace_stop_source*& ss) { run_p<false, NEVER>(s, ss, [&] { return __VA_ARGS__; }); }}, {NAME ".iav", NSRC, OUT, NEVER, true, ITER, NODE, [](St& s, ex::inplace_stop_source*& ss) { run_p<true, NEVER>(s, ss, [&] { return __VA_ARGS__; }); }}
using Outer = Source<Leaf>;
std::vector<Pipe> pipes_b() { return {
  PIPE("each", 3, true, false, false, each({src(0)}), exec::merge_each(Outer{OUTER})),
  PIPE("each.never", 3, true, true, false, each({src(0)}), exec::merge_each(Outer{OUTER})),
  PIPE("transeach", 3, true, false, false, (Node{Node::TRANS, 0, {each({src(0)})}}), exec::transform_each(exec::merge_each(Outer{OUTER}), ex::then(plus))),
}; }
}
