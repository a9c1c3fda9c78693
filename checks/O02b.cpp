#include "O02_all.hpp"

VP_FACET(bounded_wide, 40000, 1200000, RULE_O02)
{
    bounded<wchar_t>(s, c);
}

VP_FACET(continued_wide, 12000, 400000, "the space ends inside one of the calls")
{
    continued<wchar_t>(s, c);
}

VP_FACET(failing_wide, 12000, 400000, "the format is refused and the limit is not zero")
{
    failing<wchar_t>(s, c);
}
