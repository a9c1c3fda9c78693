// C02 - argument lists (wchar_t)

#include "C02_lists.hpp"

VP_FACET(list_history_wide, 20000, 400000, "at least three additions and three arguments in the list at the end")
{
    list_history<wchar_t>(s, c);
}

VP_FACET(static_lists_wide, 10000, 200000, "every case")
{
    static_lists<wchar_t>(s, c);
}
