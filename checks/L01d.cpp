#include "L01_common.hpp"

VP_FACET(unasked_utf16, 7500, 150000, RULE_UN)
{
    unasked<char16_t>(s, c);
}

VP_FACET(unasked_kinds_utf16, 10000, 200000, RULE_UK)
{
    unasked_kinds<char16_t>(s, c);
}

VP_FACET(other_kinds_utf16, 10000, 200000, RULE_OK)
{
    other_kinds<char16_t>(s, c);
}
