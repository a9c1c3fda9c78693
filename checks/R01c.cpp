#define FM_XCHAR
#include "R01_common.hpp"

VP_FACET(broken_utf16, 8000, 400000, RULE_R01)
{
    broken<char16_t>(s, c, false);
}

VP_FACET(field_utf16, 12000, 600000, RULE_R01)
{
    field<char16_t>(s, c, false);
}

VP_FACET(ill_formed_text_utf16, 8000, 300000, RULE_R01)
{
    s.boolean() ? field<char16_t>(s, c, true) : broken<char16_t>(s, c, true);
}
