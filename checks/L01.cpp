#include "L01_common.hpp"

VP_FACET(unasked_narrow, 15000, 300000, RULE_UN)
{
    unasked<char>(s, c);
}

VP_FACET(unasked_kinds_narrow, 20000, 400000, RULE_UK)
{
    unasked_kinds<char>(s, c);
}

VP_FACET(booleans_narrow, 20000, 400000, RULE_BO)
{
    booleans<char>(s, c);
}

VP_FACET(other_kinds_narrow, 20000, 400000, RULE_OK)
{
    other_kinds<char>(s, c);
}

VP_FACET(entry_points_narrow, 20000, 400000, RULE_EP)
{
    entry_points<char>(s, c);
}

VP_FACET(streamed_narrow, 15000, 300000, RULE_ST)
{
    streamed<char>(s, c);
}
