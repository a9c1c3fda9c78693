// I01 - to_string_args for char32_t
#include "I01_calls.hpp"

template void i01::to_string_args<char32_t>(vp::source&, vp::ctx&, bool);
