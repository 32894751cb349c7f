#include "c21.hpp"
template void c21::run_loop<0>(const c21::Cfg&);
