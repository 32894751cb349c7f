#include "c29.hpp"
using namespace c29;
int main(int c, char** v) { return vs::run_main(c, v, {{"any", make_any, 120}, {"any_moveonly", make_any_mo, 60}, {"anyptr", make_anyptr, 40}, {"anyref", make_anyref, 1}, {"queue", make_queue, 40}, {"slist", make_slist, 20}, {"lifo", make_lifo, 20},
  {"optional", make_optional, 20}, {"variant", make_variant, 60}, {"tuple", make_tuple, 20}, {"svec", make_svec, 20}, {"iptr", make_iptr, 40}, {"heap", make_heap, 40}}); }
