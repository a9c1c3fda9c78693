// I01 - to_sink for char
#include "I01_calls.hpp"

template void i01::to_sink<char>(vp::source&, vp::ctx&, bool, bool);
