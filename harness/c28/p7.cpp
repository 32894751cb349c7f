#include "ads.hpp"
namespace c28 { void reg_7() {
#include "list_7.inc"
} }
