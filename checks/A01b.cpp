#define FM_XCHAR
#include "A01_common.hpp"

VP_FACET(text_wide, 60000, 1200000, RULE_TEXT)
{
    um::with_char(s.draw(5), [&]<typename C>()
                  { texts<C>(s, c); });
}
