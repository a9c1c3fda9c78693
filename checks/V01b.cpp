// V01 - the same for wide characters
#include "V01_common.hpp"

VP_FACET(written_wide, 20000, 400000, "at least three operations and six characters")
{
    writes<wchar_t>(s, c);
}

VP_FACET(read_wide, 15000, 300000, "at least three operations of at least two kinds (words, numbers, lines, blocks)")
{
    reads<wchar_t>(s, c);
}

VP_FACET(streamed_joins_wide, 15000, 300000, "at least two elements")
{
    joins<wchar_t>(s, c);
}
