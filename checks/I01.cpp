// I01 - user code, output iterators and allocations that fail during a formatting call
#include "vpbt.hpp"
#include <string>

namespace i01
{
template <typename CharT>
void to_sink(vp::source& s, vp::ctx& c, bool values, bool writes_fail);
template <typename CharT>
void to_string_args(vp::source& s, vp::ctx& c, bool allocations);
} // namespace i01

namespace
{
using namespace i01;

void sink(vp::source& s, vp::ctx& c, bool writes_fail)
{
    bool values = s.boolean();
    switch(s.draw(5))
    {
    case 0: to_sink<wchar_t>(s, c, values, writes_fail); break;
    case 1: to_sink<char16_t>(s, c, values, writes_fail); break;
    default: to_sink<char>(s, c, values, writes_fail); break;
    }
}

void string(vp::source& s, vp::ctx& c, bool allocations)
{
    switch(s.draw(7))
    {
    case 0: to_string_args<wchar_t>(s, c, allocations); break;
    case 1: to_string_args<char8_t>(s, c, allocations); break;
    case 2: to_string_args<char16_t>(s, c, allocations); break;
    case 3: to_string_args<char32_t>(s, c, allocations); break;
    default: to_string_args<char>(s, c, allocations); break;
    }
}

VP_FACET(user_code_fails, 6000, 120000, "the call was made to fail at three points or more")
{
    sink(s, c, false);
}

VP_FACET(output_fails, 5000, 100000, "the call was made to fail at three points or more")
{
    sink(s, c, true);
}

VP_FACET(user_code_fails_to_string, 4000, 80000, "the call was made to fail at three points or more")
{
    string(s, c, false);
}

VP_FACET(allocation_fails, 6000, 120000, "three allocations or more were made to fail")
{
    string(s, c, true);
}
} // namespace
