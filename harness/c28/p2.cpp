#include "ads.hpp"
namespace c28 { void reg_2() {
#include "list_2.inc"
} }
