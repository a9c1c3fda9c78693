#include "E01_common.hpp"

VP_FACET(mistakes_utf8, 15000, 400000, RULE_MISTAKES)
{
    mistakes<char8_t>(s, c);
}

VP_FACET(mistakes_utf32, 15000, 400000, RULE_MISTAKES)
{
    mistakes<char32_t>(s, c);
}
