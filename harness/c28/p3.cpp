#include "ads.hpp"
namespace c28 { void reg_3() {
#include "list_3.inc"
} }
