#include "L01_common.hpp"

VP_FACET(unasked_utf32, 7500, 150000, RULE_UN)
{
    unasked<char32_t>(s, c);
}

VP_FACET(unasked_kinds_utf32, 10000, 200000, RULE_UK)
{
    unasked_kinds<char32_t>(s, c);
}

VP_FACET(other_kinds_utf32, 10000, 200000, RULE_OK)
{
    other_kinds<char32_t>(s, c);
}
