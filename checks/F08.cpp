#include "F08_common.hpp"

VP_FACET(programs_narrow, 40000, 900000, RULE_F08)
{
    programs<char>(s, c);
}

VP_FACET(unconsumed_narrow, 10000, 200000, "every case")
{
    short_parse<char>(s, c);
}

VP_FACET(elements_narrow, 15000, 300000, "at least two elements with a specification, or a tuple or wrapper")
{
    elements<char>(s, c);
}
