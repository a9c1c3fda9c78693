// I01 - to_sink for wchar_t
#include "I01_calls.hpp"

template void i01::to_sink<wchar_t>(vp::source&, vp::ctx&, bool, bool);
