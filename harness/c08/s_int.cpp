#include "c08.hpp"
namespace c08 { void run_int(const P& p, Log& L) { run_kinds<int, false>(p, L); } }
