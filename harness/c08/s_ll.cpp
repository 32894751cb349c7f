#include "c08.hpp"
namespace c08 { void run_ll(const P& p, Log& L) { run_kinds<long long, true>(p, L); } }
