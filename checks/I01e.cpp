// I01 - to_string_args for char
#include "I01_calls.hpp"

template void i01::to_string_args<char>(vp::source&, vp::ctx&, bool);
