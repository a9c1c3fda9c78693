#include "O01_all.hpp"

VP_FACET(entry_points_utf32, 16000, 320000, RULE_O01)
{
    entry_points<char32_t>(s, c);
}

VP_FACET(lazily_utf32, 10000, 200000, "at least two fields or scripts")
{
    lazily<char32_t>(s, c);
}

VP_FACET(refused_utf32, 6000, 120000, "the format is refused")
{
    refused<char32_t>(s, c);
}

VP_FACET(stepping_utf32, 4000, 80000, "at least two fields or scripts, run in two pieces or more")
{
    stepping<char32_t>(s, c);
}
