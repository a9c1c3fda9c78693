#include "F04_common.hpp"

VP_FACET(text_narrow, 60000, 1500000, "at least two units, one of which must be escaped")
{
    strings<char>(s, c, false);
}

VP_FACET(text_wide, 30000, 700000, "at least two units, one of which must be escaped")
{
    strings<wchar_t>(s, c, false);
}

VP_FACET(ill_formed_narrow, 60000, 1500000, "at least two units, among them invalid ones")
{
    strings<char>(s, c, true);
}

VP_FACET(ill_formed_wide, 30000, 700000, "at least two units, among them invalid ones")
{
    strings<wchar_t>(s, c, true);
}

VP_FACET(ranges_as_strings, 30000, 600000, "at least two units, one of which must be escaped")
{
    if(s.boolean())
        ranges<char>(s, c);
    else
        ranges<wchar_t>(s, c);
}

// A single character, where the active quote is the single one
VP_FACET(single_characters, 40000, 600000, "the character must be escaped")
{
    char32_t ch = gen_ch(s);
    auto go = [&]<typename C>()
    {
        bool own = s.boolean();
        if(own && sizeof(C) == 1)
            ch %= 0x80;
        auto u = um::enc<C>(ch);
        c.note(std::string(um::tname<C>()) + " character " + vp::quote(u));
        c.nontrivial_if(escape(u, U'\'') != u);
        auto got = own ? fm::vcall<C>(U"{:?}", static_cast<C>(ch)) : fm::vcall<C>(U"{:?}", utf::codepoint(ch));
        check<C>(got, u, U'\'');
    };
    if(s.boolean())
        go.operator()<char>();
    else
        go.operator()<wchar_t>();
}
