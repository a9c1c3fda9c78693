// I01 - to_string_args for char16_t
#include "I01_calls.hpp"

template void i01::to_string_args<char16_t>(vp::source&, vp::ctx&, bool);
