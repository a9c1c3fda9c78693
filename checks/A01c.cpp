#include "A01_common.hpp"

VP_FACET(maps_narrow, 60000, 1600000, RULE_A01)
{
    chains_map<char>(s, c);
}
