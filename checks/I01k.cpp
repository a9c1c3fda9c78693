// I01 - entry points for wchar_t
#include "I01_entry.hpp"

namespace
{
VP_FACET(wide_entry_points_user_code, 1500, 30000, "the call was made to fail at three points or more")
{
    i01::entry<wchar_t>(s, c, false);
}

VP_FACET(wide_entry_points_allocation, 1500, 30000, "three allocations or more were made to fail")
{
    i01::entry<wchar_t>(s, c, true);
}
} // namespace
