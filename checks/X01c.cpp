#include "X01_impl.hpp"

X01_DEFINE(wchar_t)
