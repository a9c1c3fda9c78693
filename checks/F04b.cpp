#define FM_XCHAR
#include "F04_common.hpp"

VP_FACET(ill_formed_utf8, 30000, 700000, "at least two units, among them invalid ones")
{
    strings<char8_t>(s, c, true);
}

VP_FACET(ill_formed_utf16, 40000, 900000, "at least two units, among them invalid ones")
{
    strings<char16_t>(s, c, true);
}

VP_FACET(ill_formed_utf32, 30000, 700000, "at least two units, among them invalid ones")
{
    strings<char32_t>(s, c, true);
}

