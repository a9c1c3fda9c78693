#include "O01_all.hpp"

VP_FACET(entry_points_narrow, 40000, 800000, RULE_O01)
{
    entry_points<char>(s, c);
}

VP_FACET(lazily_narrow, 25000, 500000, "at least two fields or scripts")
{
    lazily<char>(s, c);
}

VP_FACET(refused_narrow, 15000, 300000, "the format is refused")
{
    refused<char>(s, c);
}

VP_FACET(stepping_narrow, 10000, 200000, "at least two fields or scripts, run in two pieces or more")
{
    stepping<char>(s, c);
}
