#include "c23.hpp"
namespace c23 {
static auto plus = [](int x) noexcept { return x + 10000; };
#define PIPE(NAME, NSRC, OUT, NEVER, ITER, NODE, ...) {NAME, NSRC, OUT, NEVER, false, ITER, NODE, [](St& s, ex::inplace_stop_source*& ss) { run_p<false, NEVER>(s, ss, [&] { return __VA_ARGS__; }); }}, {NAME ".iav", NSRC, OUT, NEVER, true, ITER, NODE, [](St& s, ex::inplace_stop_source*& ss) { run_p<true, NEVER>(s, ss, [&] { return __VA_ARGS__; }); }}
std::vector<Pipe> pipes_a() { return {
  PIPE("src", 1, false, false, false, src(0), Leaf{0}),
  PIPE("trans", 1, false, false, false, (Node{Node::TRANS, 0, {src(0)}}), exec::transform_each(Leaf{0}, ex::then(plus))),
  PIPE("merge2", 2, false, false, false, mg({src(0), src(1)}), exec::merge(Leaf{0}, Leaf{1})),
  PIPE("merge2.never", 2, false, true, false, mg({src(0), src(1)}), exec::merge(Leaf{0}, Leaf{1})),
  PIPE("merge3e", 2, false, false, false, mg({Node{Node::TRANS, 0, {src(0)}}, Node{Node::EMPTY, 0, {}}, src(1)}), exec::merge(exec::transform_each(Leaf{0}, ex::then(plus)), exec::empty_sequence(), Leaf{1})),
  PIPE("transmerge", 3, false, false, false, (Node{Node::TRANS, 0, {mg({src(0), mg({src(1), src(2)})})}}), exec::transform_each(exec::merge(Leaf{0}, exec::merge(Leaf{1}, Leaf{2})), ex::then(plus))),
}; }
}
