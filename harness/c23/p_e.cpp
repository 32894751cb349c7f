#include "c23.hpp"
namespace c23 {
#define PIPE(NAME, NSRC, OUT, NEVER, ITER, NODE, ...) {NAME, NSRC, OUT, NEVER, false, ITER, NODE, [](St& s, ex::inplace_stop_source*& ss) { run_p<false, NEVER>(s, ss, [&] { return __VA_ARGS__; }); }}, {NAME ".iav", NSRC, OUT, NEVER, true, ITER, NODE, [](St& s, ex::inplace_stop_source*& ss) { run_p<true, NEVER>(s, ss, [&] { return __VA_ARGS__; }); }}
using Outer = Source<Leaf>;
template <> struct mk<AnySeq> { static AnySeq make(int i) { return AnySeq(Leaf{i}); } };
std::vector<Pipe> pipes_e() { return {
  PIPE("any(src)", 1, false, true, false, src(0), AnySeq(Leaf{0})),
  PIPE("any(merge)", 2, false, true, false, mg({src(0), src(1)}), AnySeq(exec::merge(Leaf{0}, Leaf{1}))),
  PIPE("any(each)", 3, true, true, false, each({src(0)}), AnySeq(exec::merge_each(Outer{OUTER}))),
  PIPE("each(any)", 3, true, false, false, each({src(0)}), exec::merge_each(Source<AnySeq>{OUTER})),
}; }
}
