#define FM_XCHAR
#include "R01_common.hpp"

VP_FACET(broken_wide, 8000, 400000, RULE_R01)
{
    broken<wchar_t>(s, c, false);
}

VP_FACET(field_wide, 12000, 600000, RULE_R01)
{
    field<wchar_t>(s, c, false);
}

VP_FACET(ill_formed_text_wide, 8000, 300000, RULE_R01)
{
    s.boolean() ? field<wchar_t>(s, c, true) : broken<wchar_t>(s, c, true);
}
