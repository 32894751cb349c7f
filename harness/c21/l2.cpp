#include "c21.hpp"
template void c21::run_loop<2>(const c21::Cfg&);
