#include "G01_all.hpp"

VP_FACET(narrow, 80000, 3000000, RULE_G01)
{
    g01::history<char>(s, c);
}
