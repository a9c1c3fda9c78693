#include "A01_common.hpp"

VP_FACET(products_narrow, 80000, 2000000, RULE_A01)
{
    chains_other<char>(s, c);
}
