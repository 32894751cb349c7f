#include "frame.hpp"
namespace c19 { ETask frame_e(int n) { return frame<STDE, ETask>(n); } }
