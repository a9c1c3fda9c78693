// C01 - the other character types
#include "C01_common.hpp"

VP_FACET(literal_char8, 20000, 200000, RULE_L)
{
    literal_only<char8_t>(s, c);
}

VP_FACET(literal_char16, 20000, 200000, RULE_L)
{
    literal_only<char16_t>(s, c);
}

VP_FACET(literal_char32, 20000, 200000, RULE_L)
{
    literal_only<char32_t>(s, c);
}

VP_FACET(fields_char16, 20000, 200000, RULE_S)
{
    surrounded<char16_t>(s, c);
}
