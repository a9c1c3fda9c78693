#include "O02_all.hpp"

VP_FACET(bounded_utf32, 20000, 600000, RULE_O02)
{
    bounded<char32_t>(s, c);
}

VP_FACET(continued_utf32, 10000, 200000, "the space ends inside one of the calls")
{
    continued<char32_t>(s, c);
}

VP_FACET(failing_utf32, 10000, 200000, "the format is refused and the limit is not zero")
{
    failing<char32_t>(s, c);
}
