#include "c27.hpp"
int main(int c, char** v) { return vs::run_main(c, v, {{"spawn", make_spawn, 3}, {"shared", make_shared_ops, 2}, {"task", make_task, 3}, {"function", make_function, 3}, {"task_scheduler", make_tsched, 2}, {"any_allocator", make_anyalloc, 1}, {"adaptor", make_adaptor, 1}, {"let", make_letfn, 1}}); }
