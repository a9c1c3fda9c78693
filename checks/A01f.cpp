#define FM_XCHAR
#include "A01_common.hpp"

VP_FACET(products_wide, 24000, 800000, RULE_A01)
{
    chains_other<char16_t>(s, c);
}
