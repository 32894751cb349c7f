#include "c23.hpp"
namespace c23 {
#define PIPE(NAME, NSRC, OUT, NEVER, ITER, NODE, ...) {NAME, NSRC, OUT, NEVER, false, ITER, NODE, [](St& s, ex::inplace_stop_source*& ss) { run_p<false, NEVER>(s, ss, [&] { return __VA_ARGS__; }); }}, {NAME ".iav", NSRC, OUT, NEVER, true, ITER, NODE, [](St& s, ex::inplace_stop_source*& ss) { run_p<true, NEVER>(s, ss, [&] { return __VA_ARGS__; }); }}
using Outer = Source<Leaf>;
using M2 = decltype(exec::merge(Leaf{0}, Leaf{1}));
using T1 = decltype(exec::transform_each(Leaf{0}, ex::then([](int x) noexcept { return x + 10000; })));
template <> struct mk<M2> { static M2 make(int i) { return exec::merge(Leaf{i}, Leaf{i + 1}); } };
std::vector<Pipe> pipes_c() { return {
  PIPE("merge(each,src)", 4, true, false, false, mg({each({src(0)}), src(3)}), exec::merge(exec::merge_each(Outer{OUTER}), Leaf{3})),
  PIPE("each(merge)", 4, true, false, false, each({mg({src(0), src(1)})}), exec::merge_each(Source<M2>{OUTER})),
}; }
}
