#include "frame.hpp"
namespace c19 { STask frame_s(int n) { return frame<STD, STask>(n); } }
