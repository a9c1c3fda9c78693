// I01 - to_sink for char16_t
#include "I01_calls.hpp"

template void i01::to_sink<char16_t>(vp::source&, vp::ctx&, bool, bool);
