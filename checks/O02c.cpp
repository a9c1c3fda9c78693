#include "O02_all.hpp"

VP_FACET(bounded_utf8, 20000, 600000, RULE_O02)
{
    bounded<char8_t>(s, c);
}

VP_FACET(continued_utf8, 10000, 200000, "the space ends inside one of the calls")
{
    continued<char8_t>(s, c);
}

VP_FACET(failing_utf8, 10000, 200000, "the format is refused and the limit is not zero")
{
    failing<char8_t>(s, c);
}
