#include "ads.hpp"
namespace c28 { void reg_5() {
#include "list_5.inc"
} }
