#include "X01_common.hpp"

X01_EACH(X01_DECL)

namespace
{
void compare(const outcome (&r)[5])
{
    static const char* names[] = {"char", "wchar_t", "char8_t", "char16_t", "char32_t"};
    for(int i = 1; i < 5; ++i)
        if(!(r[i] == r[0]))
            vp::fail(std::string(names[i]) + ": " + r[i].show() + ", char: " + r[0].show());
}

// Without L: the names of booleans exist in facets of narrow and wide characters only. Without
// .size: that of a text is its number of units.
void no_locale(const text& fmt)
{
    if(fmt.find(U".size") != text::npos)
        throw vp::discard{"the number of units"};
    if(fmt.find(U'L') != text::npos)
        throw vp::discard{"the locale option"};
}

// Lists of numbers as text: what numbers that are no character stand for is not specified
void numbers_as_text(const text& fmt, const std::string& kinds)
{
    if(fmt.find(U's') == text::npos)
        return;
    for(auto k : {"vector<int>", "vector<vector<int>>", "vector<bool>", "list<double>", "set<int>", "array<int>", "span<", "pair<vector"})
        if(kinds.find(k) != std::string::npos)
            throw vp::discard{"a list of numbers as text"};
}

text random_field(vp::source& s)
{
    text fmt = s.boolean() ? U"{0" : U"{";
    if(s.chance(1, 3))
        fmt += s.pick<text>({U"[0]", U"[-1]", U"[1:]", U"[:]", U"['a']", U".length", U".first", U".value", U".text", U".year", U".month", U"[0][0]", U"[0].length", U"[1:][0]", U"[:-1]", U"[1]"});
    if(s.chance(1, 6))
        return fmt + U"}";
    fmt += U':';
    if(s.chance(1, 6))
        fmt += mf::token(s);
    fm::spec sp = fm::gen(s, fm::f_sign | fm::f_alt | fm::f_zero | fm::f_width | fm::f_precision, U"dxobscfeagpnmt?", 20);
    if(s.boolean())
    {
        sp = {};
        sp.type = s.pick<char32_t>({0, U'?', U'x', U'n', U'm', U's', U'd'});
        if(s.boolean())
        {
            sp.wmode = 1;
            sp.width = s.small_size(30);
        }
    }
    sp.manual = false;
    if(sp.wmode == 2)
        sp.wmode = 0;
    if(sp.pmode == 2)
        sp.pmode = 0;
    fmt += fm::spec_text(sp);
    if(s.chance(1, 6))
        fmt += mf::token(s);
    return fmt + U"}";
}

void zoo_case(vp::source& s, vp::ctx& c, const text& f)
{
    text fmt = f;
    mf::tame(fmt);
    no_locale(fmt);
    std::string kinds;
    const std::size_t n = 1 + s.draw(2);
    std::vector<std::uint64_t> tape;
    s.capture(&tape);
    outcome r[5];
    try
    {
        r[0] = with_zoo<char>(s, n, fmt, &kinds);
    }
    catch(...)
    {
        numbers_as_text(fmt, kinds);
        c.note(vp::quote(um::enc<char>(fmt)) + " with (" + kinds + ")");
        s.capture(nullptr);
        throw;
    }
    s.capture(nullptr);
    c.note(vp::quote(um::enc<char>(fmt)) + " with (" + kinds + ")");
    numbers_as_text(fmt, kinds);
    c.tag(r[0].failed ? "error" : "text");
    c.tag(kinds.substr(0, kinds.find(',')));
    c.nontrivial_if(!r[0].failed && !r[0].out.empty());
#define ONE(I, T)                            \
    {                                        \
        vp::source again(tape);              \
        r[I] = with_zoo<T>(again, n, fmt, nullptr); \
    }
    ONE(1, wchar_t)
    ONE(2, char8_t)
    ONE(3, char16_t)
    ONE(4, char32_t)
#undef ONE
    compare(r);
}
} // namespace

VP_FACET(programs, 25000, 500000, "at least two fields or scripts and mixed characters in the result")
{
    builder b(s);
    b.program(6, 2, 3, 2);
    c.note(b.note());
    c.nontrivial_if(b.n_fields + b.n_scripts >= 2 && um::mixed(b.out));
    outcome r[] = {with_program<char>(b), with_program<wchar_t>(b), with_program<char8_t>(b), with_program<char16_t>(b), with_program<char32_t>(b)};
    compare(r);
    VP_CHECK(!r[0].failed, "the program fails: " + r[0].why);
}

VP_FACET(edited_programs, 15000, 300000, "at least two fields or scripts remain and the program is accepted or fails late")
{
    builder b(s);
    b.program(6, 2, 3, 2);
    for(auto* l : {&b.pos})
        for(auto& v : *l)
            if(gf::is_int(v) && (v.i > 1000 || v.i < -1000))
                v.i %= 1000;
    for(auto& [n, v] : b.named)
        if(gf::is_int(v) && (v.i > 1000 || v.i < -1000))
            v.i %= 1000;
    for(std::size_t n = 1 + s.small_size(2); n > 0; --n)
        mf::edit(s, b.fmt);
    mf::tame(b.fmt);
    no_locale(b.fmt);
    c.note(b.note());
    outcome r[] = {with_program<char>(b), with_program<wchar_t>(b), with_program<char8_t>(b), with_program<char16_t>(b), with_program<char32_t>(b)};
    c.tag(r[0].failed ? "error" : "text");
    c.nontrivial_if(b.n_fields + b.n_scripts >= 2);
    compare(r);
}

VP_FACET(fields_of_every_kind, 40000, 800000, "the call gives text")
{
    text f = random_field(s);
    zoo_case(s, c, f);
}

VP_FACET(plain_fields_of_every_kind, 15000, 300000, "the call gives text")
{
    zoo_case(s, c, s.chance(1, 4) ? U"{:?}" : s.boolean() ? U"{} {0}" : U"{}");
}

VP_FACET(soup, 15000, 300000, "the call gives text")
{
    text f = s.boolean() ? mf::soup(s, 8) : U"{" + mf::soup(s, 5) + U"}";
    zoo_case(s, c, f);
}
