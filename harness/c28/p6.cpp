#include "ads.hpp"
namespace c28 { void reg_6() {
#include "list_6.inc"
} }
