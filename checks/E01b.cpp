#include "E01_common.hpp"

VP_FACET(mistakes_utf16, 25000, 500000, RULE_MISTAKES)
{
    mistakes<char16_t>(s, c);
}
