// C02 - argument lists (char16_t)
#define FM_XCHAR
#include "C02_lists.hpp"

VP_FACET(list_history_utf16, 15000, 300000, "at least three additions and three arguments in the list at the end")
{
    list_history<char16_t>(s, c);
}

VP_FACET(static_lists_utf16, 8000, 160000, "every case")
{
    static_lists<char16_t>(s, c);
}
