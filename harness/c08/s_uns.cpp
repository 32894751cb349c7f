#include "c08.hpp"
namespace c08 { void run_uns(const P& p, Log& L) { run_kinds<unsigned, false>(p, L); } }
