// mutfmt.hpp - breaks format strings
#ifndef MUTFMT_HPP
#define MUTFMT_HPP
#include "genfmt.hpp"

namespace mf
{
using um::text;

inline text token(vp::source& s)
{
    static const std::vector<text> tokens = {
        U"{", U"}", U"{{", U"}}", U"{}", U"{0}", U"{:", U"{$", U"{$ ", U":", U"::", U"?", U"!", U"$", U"'", U"''", U"\\", U"\\'", U"'a'", U"[", U"]", U"[0]", U"[-1]", U"[:]", U"[1:]", U"[:-1]", U"[0:1]", U"['a']", U".", U".size", U".length", U".value", U".first", U".second", U".text", U".index", U".error", U".has_value", U".min", U".max", U".year", U".month", U"==", U"!=", U"<", U">", U"<=", U">=", U"=", U"<<", U"^", U"*^", U"#", U"+", U"-", U" ", U"0", U"00", U"1", U"2", U"3", U"7", U"12", U"L", U"d", U"x", U"X", U"o", U"b", U"B", U"s", U"c", U"f", U"e", U"g", U"a", U"A", U"p", U"m", U"n", U"%", U"%Y", U"%E", U"%c", U"{:{", U"{:.{", U"}:", U"{0:", U"{1}", U"{2:", U"{0.", U"{0[", U"{name", U"_", U"\u4E00", U"\U0001F351", U"\n", U"\t", U"\"", U"{$ {0}", U"{$ !{0}?", U": $", U"-2147483649", U"4294967296", U"9223372036854775808", U"99999999999999999999999", U"0.5", U"1.", U".5", U"1e5",
    };
    if(s.chance(1, 8))
        return text(1, um::gen_scalar(s));
    return tokens[s.draw(tokens.size())];
}

inline void edit(vp::source& s, text& t)
{
    std::size_t n = t.size();
    std::size_t i = s.size(n);
    switch(s.draw(8))
    {
    case 0: // delete a character
        if(i < n)
            t.erase(i, 1);
        break;
    case 1: // delete a span
        t.erase(i, s.small_size(8));
        break;
    case 2:
    case 3: // insert a token
        t.insert(i, token(s));
        break;
    case 4: // replace a character
        if(i < n)
            t[i] = token(s)[0];
        break;
    case 5: // truncate
        t.erase(i);
        break;
    case 6: // duplicate a span
    {
        text d = t.substr(i, s.small_size(8));
        t.insert(s.size(n), d);
        break;
    }
    default: // exchange two characters
        if(n)
        {
            std::size_t j = s.draw(n);
            if(i < n)
                std::swap(t[i], t[j]);
        }
        break;
    }
}

// Numbers of moderate size may ask for much memory: shorten them. Numbers that no type holds stay.
inline void tame(text& t)
{
    for(std::size_t i = 0; i < t.size();)
    {
        std::size_t j = i;
        while(j < t.size() && t[j] >= U'0' && t[j] <= U'9')
            ++j;
        if(std::size_t n = j - i; n > 4)
        {
            if(n >= 21 && t[i] != U'0')
            {
                i = j;
                continue;
            }
            if(i > 1 && t[i - 1] == U'-' && t[i - 2] == U'[') // an index, not a width
            {
                i = j;
                continue;
            }
            t.erase(i + 4, n - 4);
            i += 4;
        }
        else
            i = j == i ? i + 1 : j;
    }
}

inline text soup(vp::source& s, std::size_t max)
{
    text t;
    for(std::size_t n = s.small_size(max); n > 0; --n)
        t += token(s);
    return t;
}
} // namespace mf
#endif
