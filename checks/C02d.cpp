// C02 - argument lists (char)

#include "C02_lists.hpp"

VP_FACET(list_history_narrow, 30000, 600000, "at least three additions and three arguments in the list at the end")
{
    list_history<char>(s, c);
}

VP_FACET(static_lists_narrow, 20000, 400000, "every case")
{
    static_lists<char>(s, c);
}
