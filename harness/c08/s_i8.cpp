#include "c08.hpp"
namespace c08 { void run_i8(const P& p, Log& L) { run_kinds<signed char, false>(p, L); } }
