#include "O01_all.hpp"

VP_FACET(entry_points_wide, 24000, 480000, RULE_O01)
{
    entry_points<wchar_t>(s, c);
}

VP_FACET(lazily_wide, 15000, 300000, "at least two fields or scripts")
{
    lazily<wchar_t>(s, c);
}

VP_FACET(refused_wide, 9000, 180000, "the format is refused")
{
    refused<wchar_t>(s, c);
}

VP_FACET(stepping_wide, 6000, 120000, "at least two fields or scripts, run in two pieces or more")
{
    stepping<wchar_t>(s, c);
}
