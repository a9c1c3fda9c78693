#include "G01_all.hpp"

VP_FACET(wide, 80000, 3000000, RULE_G01)
{
    g01::history<wchar_t>(s, c);
}
