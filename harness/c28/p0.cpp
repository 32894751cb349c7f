#include "ads.hpp"
namespace c28 { void reg_0() {
#include "list_0.inc"
} }
