#define FM_XCHAR
#include "A01_common.hpp"

VP_FACET(sequences_wide, 32000, 800000, RULE_A01)
{
    s.boolean() ? chains_seq<wchar_t>(s, c) : chains_map<wchar_t>(s, c);
}
