#include "F08_common.hpp"

VP_FACET(programs_wide, 25000, 500000, RULE_F08)
{
    programs<wchar_t>(s, c);
}

VP_FACET(unconsumed_wide, 5000, 100000, "every case")
{
    short_parse<wchar_t>(s, c);
}

VP_FACET(elements_wide, 15000, 300000, "at least two elements with a specification, or a tuple or wrapper")
{
    elements<wchar_t>(s, c);
}
