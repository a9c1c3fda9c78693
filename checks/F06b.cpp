#include "F06_common.hpp"

using wsc = utf::wstring_container;

VP_FACET(wide, 20000, 400000, RULE_F06)
{
    one_of<wchar_t, std::vector<int>, std::vector<bool>, std::deque<wsc>, std::list<utf::codepoint>, framed<std::pair<int, wsc>>, std::set<int>, std::map<int, std::wstring>, std::tuple<int, double, std::wstring, bool>, std::pair<int, std::vector<int>>, std::vector<std::vector<std::pair<int, double>>>, std::vector<std::map<int, int>>>(s, c);
}

VP_FACET(wide_views, 8000, 100000, RULE_F06)
{
    views<wchar_t>(s, c);
}

VP_FACET(wide_joined, 10000, 200000, "at least two elements and a specification")
{
    switch(s.draw(3))
    {
    case 0: return joined<wchar_t, std::vector<int>>(s, c);
    case 1: return joined<wchar_t, std::map<int, std::wstring>>(s, c);
    default: return joined<wchar_t, std::vector<wsc>>(s, c);
    }
}
