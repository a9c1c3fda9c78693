#include "O01_all.hpp"

VP_FACET(entry_points_utf16, 20000, 400000, RULE_O01)
{
    entry_points<char16_t>(s, c);
}

VP_FACET(lazily_utf16, 12500, 250000, "at least two fields or scripts")
{
    lazily<char16_t>(s, c);
}

VP_FACET(refused_utf16, 7500, 150000, "the format is refused")
{
    refused<char16_t>(s, c);
}

VP_FACET(stepping_utf16, 5000, 100000, "at least two fields or scripts, run in two pieces or more")
{
    stepping<char16_t>(s, c);
}
