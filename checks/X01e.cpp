#include "X01_impl.hpp"

X01_DEFINE(char16_t)
