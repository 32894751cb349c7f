#include "c08.hpp"
namespace c08 { void run_u8(const P& p, Log& L) { run_kinds<unsigned char, false>(p, L); } }
