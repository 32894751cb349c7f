#include "c08.hpp"
namespace c08 { void run_int_nt(const P& p, Log& L) { run_kinds<int, true>(p, L); } }
