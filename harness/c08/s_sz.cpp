#include "c08.hpp"
namespace c08 { void run_sz(const P& p, Log& L) { run_kinds<size_t, false>(p, L); } }
