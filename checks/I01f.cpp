// I01 - to_string_args for wchar_t
#include "I01_calls.hpp"

template void i01::to_string_args<wchar_t>(vp::source&, vp::ctx&, bool);
