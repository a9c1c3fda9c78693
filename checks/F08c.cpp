// F08 - helpers of the library used by formatters of users (narrow)
#include "F08_helpers.hpp"

VP_FACET(helpers_narrow, 40000, 800000, "a width together with an alignment or the locale option")
{
    helpers<char>(s, c);
}

VP_FACET(references_narrow, 20000, 400000, "a specification with at least two references to arguments")
{
    references<char>(s, c);
}
