#include "O02_all.hpp"

VP_FACET(bounded_narrow, 40000, 1200000, RULE_O02)
{
    bounded<char>(s, c);
}

VP_FACET(continued_narrow, 12000, 400000, "the space ends inside one of the calls")
{
    continued<char>(s, c);
}

VP_FACET(failing_narrow, 12000, 400000, "the format is refused and the limit is not zero")
{
    failing<char>(s, c);
}
