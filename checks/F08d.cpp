// F08 - helpers of the library used by formatters of users (wide)
#include "F08_helpers.hpp"

VP_FACET(helpers_wide, 30000, 600000, "a width together with an alignment or the locale option")
{
    if(s.boolean())
        helpers<wchar_t>(s, c);
    else
        helpers<char16_t>(s, c);
}

VP_FACET(references_wide, 15000, 300000, "a specification with at least two references to arguments")
{
    if(s.boolean())
        references<wchar_t>(s, c);
    else
        references<char16_t>(s, c);
}
