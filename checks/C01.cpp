// C01 - literal text and doubled braces come out exactly
#include "C01_common.hpp"

VP_FACET(literal_narrow, 60000, 600000, RULE_L)
{
    literal_only<char>(s, c);
}

VP_FACET(literal_wide, 20000, 200000, RULE_L)
{
    literal_only<wchar_t>(s, c);
}

VP_FACET(fields_narrow, 60000, 600000, RULE_S)
{
    surrounded<char>(s, c);
}

VP_FACET(fields_wide, 30000, 300000, RULE_S)
{
    surrounded<wchar_t>(s, c);
}

VP_FACET(lone_brace, 10000, 100000, "every case")
{
    s.boolean() ? lone<char>(s, c) : lone<wchar_t>(s, c);
}
