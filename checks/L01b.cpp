#include "L01_common.hpp"

VP_FACET(unasked_wide, 15000, 300000, RULE_UN)
{
    unasked<wchar_t>(s, c);
}

VP_FACET(unasked_kinds_wide, 20000, 400000, RULE_UK)
{
    unasked_kinds<wchar_t>(s, c);
}

VP_FACET(booleans_wide, 20000, 400000, RULE_BO)
{
    booleans<wchar_t>(s, c);
}

VP_FACET(other_kinds_wide, 20000, 400000, RULE_OK)
{
    other_kinds<wchar_t>(s, c);
}

VP_FACET(entry_points_wide, 20000, 400000, RULE_EP)
{
    entry_points<wchar_t>(s, c);
}

VP_FACET(streamed_wide, 15000, 300000, RULE_ST)
{
    streamed<wchar_t>(s, c);
}
