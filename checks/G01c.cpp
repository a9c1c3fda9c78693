#include "G01_all.hpp"

VP_FACET(utf16, 80000, 3000000, RULE_G01)
{
    g01::history<char16_t>(s, c);
}
