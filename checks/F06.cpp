#include "F06_common.hpp"

using sc = utf::string_container;

VP_FACET(sequences, 30000, 600000, RULE_F06)
{
    one_of<char, std::vector<int>, std::vector<bool>, std::list<double>, std::deque<sc>, std::array<short, 3>, std::array<long long, 0>, std::forward_list<unsigned char>, std::vector<utf::codepoint>, std::list<utf::codepoint>, framed<int>, framed<std::pair<int, sc>>, std::vector<std::pair<int, std::string>>>(s, c);
}

VP_FACET(sets_and_maps, 30000, 600000, RULE_F06)
{
    one_of<char, std::set<int>, std::multiset<long long, std::greater<>>, std::unordered_set<int>, std::set<utf::codepoint>, std::map<int, std::string>, std::multimap<int, double>, std::unordered_map<int, bool>, std::map<std::pair<int, int>, std::vector<int>>, std::map<std::string, int, std::greater<>>>(s, c);
}

VP_FACET(tuples, 30000, 600000, RULE_F06)
{
    one_of<char, std::pair<int, std::string>, std::pair<std::pair<int, int>, std::vector<int>>, std::tuple<>, std::tuple<int>, std::tuple<bool, utf::codepoint>, std::tuple<int, double, std::string, bool>, std::tuple<std::vector<int>, std::map<int, int>, std::tuple<int, std::pair<int, bool>>>>(s, c);
}

VP_FACET(nested, 30000, 600000, RULE_F06)
{
    one_of<char, std::vector<std::vector<int>>, std::vector<std::vector<std::vector<int>>>, std::vector<std::map<int, int>>, std::vector<std::set<utf::codepoint>>, std::list<std::vector<utf::codepoint>>, std::set<std::vector<int>>, std::vector<std::tuple<int, std::string, bool>>, std::vector<std::vector<std::pair<int, double>>>, std::array<std::vector<bool>, 2>, framed<std::vector<int>>, std::vector<framed<sc>>>(s, c);
}

VP_FACET(views_and_input_ranges, 20000, 400000, RULE_F06)
{
    views<char>(s, c);
}

VP_FACET(joined_ranges, 20000, 400000, "at least two elements and a specification")
{
    switch(s.draw(6))
    {
    case 0: return joined<char, std::vector<int>>(s, c);
    case 1: return joined<char, std::vector<std::vector<int>>>(s, c);
    case 2: return joined<char, std::map<int, std::string>>(s, c);
    case 3: return joined<char, std::vector<sc>>(s, c);
    case 4: return joined<char, std::vector<bool>>(s, c);
    default: return joined<char, std::list<utf::codepoint>>(s, c);
    }
}
