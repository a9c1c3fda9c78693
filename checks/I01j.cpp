// I01 - entry points for char
#include "I01_entry.hpp"

namespace
{
VP_FACET(entry_points_user_code, 4000, 80000, "the call was made to fail at three points or more")
{
    i01::entry<char>(s, c, false);
}

VP_FACET(entry_points_allocation, 4000, 80000, "three allocations or more were made to fail")
{
    i01::entry<char>(s, c, true);
}
} // namespace
