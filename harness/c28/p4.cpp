#include "ads.hpp"
namespace c28 { void reg_4() {
#include "list_4.inc"
} }
