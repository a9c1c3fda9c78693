#include "O01_all.hpp"

VP_FACET(entry_points_utf8, 16000, 320000, RULE_O01)
{
    entry_points<char8_t>(s, c);
}

VP_FACET(lazily_utf8, 10000, 200000, "at least two fields or scripts")
{
    lazily<char8_t>(s, c);
}

VP_FACET(refused_utf8, 6000, 120000, "the format is refused")
{
    refused<char8_t>(s, c);
}

VP_FACET(stepping_utf8, 4000, 80000, "at least two fields or scripts, run in two pieces or more")
{
    stepping<char8_t>(s, c);
}
