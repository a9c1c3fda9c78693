// I01 - to_string_args for char8_t
#include "I01_calls.hpp"

template void i01::to_string_args<char8_t>(vp::source&, vp::ctx&, bool);
