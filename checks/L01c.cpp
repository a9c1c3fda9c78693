#include "L01_common.hpp"

VP_FACET(unasked_utf8, 7500, 150000, RULE_UN)
{
    unasked<char8_t>(s, c);
}

VP_FACET(unasked_kinds_utf8, 10000, 200000, RULE_UK)
{
    unasked_kinds<char8_t>(s, c);
}

VP_FACET(other_kinds_utf8, 10000, 200000, RULE_OK)
{
    other_kinds<char8_t>(s, c);
}
