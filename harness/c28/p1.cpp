#include "ads.hpp"
namespace c28 { void reg_1() {
#include "list_1.inc"
} }
