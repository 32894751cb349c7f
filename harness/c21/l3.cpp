#include "c21.hpp"
template void c21::run_loop<3>(const c21::Cfg&);
