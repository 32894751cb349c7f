#include "frame.hpp"
namespace c19 { XTask frame_x(int n) { return frame<EXEC, XTask>(n); } }
