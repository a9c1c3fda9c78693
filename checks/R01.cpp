// R01: whatever the format string and the arguments, a call ends in text or a standard
// exception; sanitizers, an allocation count and a time limit watch every call.
#include "R01_common.hpp"

VP_FACET(broken_narrow, 40000, 2000000, RULE_R01)
{
    broken<char>(s, c, false);
}

VP_FACET(field_narrow, 60000, 3000000, RULE_R01)
{
    field<char>(s, c, false);
}

VP_FACET(ill_formed_text_narrow, 30000, 1000000, RULE_R01)
{
    s.boolean() ? field<char>(s, c, true) : broken<char>(s, c, true);
}
