#include "O02_all.hpp"

VP_FACET(bounded_utf16, 20000, 600000, RULE_O02)
{
    bounded<char16_t>(s, c);
}

VP_FACET(continued_utf16, 10000, 200000, "the space ends inside one of the calls")
{
    continued<char16_t>(s, c);
}

VP_FACET(failing_utf16, 10000, 200000, "the format is refused and the limit is not zero")
{
    failing<char16_t>(s, c);
}
