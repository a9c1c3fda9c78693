// C01 - the other character types
#include "C01_common.hpp"

VP_FACET(fields_char8, 20000, 200000, RULE_S)
{
    surrounded<char8_t>(s, c);
}

VP_FACET(fields_char32, 20000, 200000, RULE_S)
{
    surrounded<char32_t>(s, c);
}

VP_FACET(lone_brace_others, 5000, 50000, "every case")
{
    switch(s.draw(3))
    {
    case 0: return lone<char8_t>(s, c);
    case 1: return lone<char16_t>(s, c);
    default: return lone<char32_t>(s, c);
    }
}
