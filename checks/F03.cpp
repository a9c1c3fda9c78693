// F03 - text is padded and truncated by display width, never splitting characters
#include "fmtmodel.hpp"

using namespace papilio;

namespace
{
fm::text cut(const fm::text& t, std::size_t columns)
{
    fm::text r;
    std::size_t used = 0;
    for(char32_t ch : t)
    {
        std::size_t w = static_cast<std::size_t>(um::width(ch));
        if(used + w > columns)
            break;
        used += w;
        r += ch;
    }
    return r;
}

// many wide characters, so that limits fall in the middle of one
fm::text gen(vp::source& s)
{
    fm::text t;
    std::size_t n = s.small_size(14);
    unsigned mode = static_cast<unsigned>(s.draw(3));
    for(std::size_t i = 0; i < n; ++i)
    {
        if(mode == 0)
            t += um::gen_scalar(s, true);
        else if(mode == 1)
            t += s.pick({U'a', U'\x4E00', U'b', U'\x1F351', U'\xC4', U'\xFF01', U'\xAC00', U'\x2329'});
        else
            t += um::gen_small(s);
    }
    return t;
}

template <typename CharT>
void strings(vp::source& s, vp::ctx& c)
{
    fm::text t = gen(s);
    fm::spec sp = fm::gen(s, fm::f_width | fm::f_precision, U"s", s.chance(1, 12) ? 200 : 30);
    fm::text body = sp.precision ? cut(t, sp.precision) : t;
    fm::text want = U"<" + fm::pad(sp, body, false) + U">";
    fm::text fmt = U"<" + fm::field(sp) + U">";
    auto u = um::enc<CharT>(t);
    c.note(std::string(um::tname<CharT>()) + " " + vp::quote(um::enc<char>(fmt)) + " text " + vp::quote(um::enc<char>(t)));
    std::size_t w = um::width(t);
    if(body.size() < t.size())
        c.tag(um::width(body) < sp.precision ? "cut_before_wide_character" : "cut");
    if(sp.width > um::width(body))
        c.tag("padded");
    if(sp.width && sp.width <= w)
        c.tag("width_not_above_text");
    c.nontrivial_if((sp.width > um::width(body) || body.size() < t.size()) && w != t.size());
    unsigned nk = static_cast<unsigned>(s.draw(2));
    if(nk == 1 && sp.width > 127)
        nk = 0;
    bool nul = t.find(U'\0') != t.npos;
    std::basic_string<CharT> got;
    um::exact<CharT> mem(u), memz(u, true);
    switch(s.draw(5))
    {
    case 0: got = fm::call<CharT>(fmt, sp, mem.view(), nk); break;
    case 1: got = fm::call<CharT>(fmt, sp, u, nk); break;
    case 2:
        if(nul)
            throw vp::discard{"a C string cannot contain U+0000"};
        got = fm::call<CharT>(fmt, sp, memz.data(), nk);
        break;
    case 3: got = fm::call<CharT>(fmt, sp, utf::basic_string_ref<CharT>(mem.data(), mem.size()), nk); break;
    default:
    {
        utf::basic_string_container<CharT> k(independent, mem.view());
        got = fm::call<CharT>(fmt, sp, k, nk);
        break;
    }
    }
    fm::expect<CharT>(got, want, "format");
}

template <typename CharT>
void chars(vp::source& s, vp::ctx& c)
{
    fm::spec sp = fm::gen(s, fm::f_width, U"c", 20);
    char32_t ch = um::gen_scalar(s);
    unsigned nk = static_cast<unsigned>(s.draw(2));
    fm::text fmt = U"<" + fm::field(sp) + U">";
    fm::text want = U"<" + fm::pad(sp, fm::text(1, ch), false) + U">";
    std::basic_string<CharT> got;
    std::string how;
    switch(s.draw(4))
    {
    case 0:
        how = "own character type";
        if(sizeof(CharT) == 1)
        {
            ch = 1 + ch % 0x7F;
            want = U"<" + fm::pad(sp, fm::text(1, ch), false) + U">";
        }
        got = fm::call<CharT>(fmt, sp, static_cast<CharT>(ch), nk);
        break;
    case 1:
        how = "codepoint";
        got = fm::call<CharT>(fmt, sp, utf::codepoint(ch), nk);
        break;
    case 2:
        how = "int";
        sp.type = U'c';
        fmt = U"<" + fm::field(sp) + U">";
        if(s.boolean())
            got = fm::call<CharT>(fmt, sp, static_cast<int>(ch), nk);
        else
            got = fm::call<CharT>(fmt, sp, static_cast<unsigned long long>(ch), nk);
        break;
    default:
        how = "char32_t";
        got = fm::call<CharT>(fmt, sp, ch, nk);
        break;
    }
    c.note(std::string(um::tname<CharT>()) + " " + vp::quote(um::enc<char>(fmt)) + " character " + vp::quote(um::enc<char>(fm::text(1, ch))) + " as " + how);
    c.tag(how);
    c.nontrivial_if(sp.width > static_cast<std::size_t>(um::width(ch)));
    fm::expect<CharT>(got, want, "format");
}
} // namespace

#define RULE "the text is padded or cut, and contains characters of two columns"
VP_FACET(strings_narrow, 80000, 2000000, RULE)
{
    strings<char>(s, c);
}

VP_FACET(strings_wide, 40000, 1000000, RULE)
{
    strings<wchar_t>(s, c);
}

VP_FACET(characters_narrow, 40000, 800000, "the character is padded")
{
    chars<char>(s, c);
}

VP_FACET(characters_wide, 20000, 400000, "the character is padded")
{
    chars<wchar_t>(s, c);
}

// Relations between outputs, independent of the layout model: widths add up, precision is
// idempotent, and the output of well-formed text is well-formed.
VP_FACET(relations, 40000, 1000000, "the text is cut")
{
    fm::text t = gen(s);
    std::size_t p = 1 + s.draw(20), w = 1 + s.draw(30);
    auto u = um::enc<char>(t);
    c.note(vp::quote(u) + " precision " + vp::str(p) + " width " + vp::str(w));
    std::string cut1 = papilio::format("{:.{}}", u, p);
    std::string cut2 = papilio::format("{:.{}}", cut1, p);
    VP_CHECK(cut1 == cut2, "cutting twice: " + vp::quote(cut1) + " then " + vp::quote(cut2));
    VP_CHECK(u.compare(0, cut1.size(), cut1) == 0, "not a prefix: " + vp::quote(cut1));
    um::text d;
    VP_CHECK(um::dec(cut1, d), "cut text is ill-formed: " + vp::quote(cut1));
    VP_CHECK(um::width(d) <= p, "too wide: " + vp::quote(cut1));
    c.nontrivial_if(d.size() < t.size());
    for(const char* f : {"{:<{}}", "{:>{}}", "{:^{}}"})
    {
        std::string r = papilio::format(f, u, w);
        VP_CHECK(um::dec(r, d), std::string(f) + " gives ill-formed text: " + vp::quote(r));
        std::size_t want = um::width(t) > w ? um::width(t) : w;
        VP_CHECK(um::width(d) == want, std::string(f) + " gives " + vp::str(um::width(d)) + " columns: " + vp::quote(r));
        VP_CHECK(r.find(u) != r.npos, std::string(f) + " lost the text: " + vp::quote(r));
    }
}

// The width of every code point
VP_FACET(every_character, 1100, 1100, "always")
{
    char32_t base = static_cast<char32_t>(s.draw(0x1100)) * 0x100;
    c.note("block " + vp::str(static_cast<unsigned>(base)));
    c.nontrivial();
    for(char32_t ch = base; ch < base + 0x100; ++ch)
    {
        if(!um::is_scalar(ch))
            continue;
        VP_CHECK(utf::codepoint(ch).estimate_width() == static_cast<std::size_t>(um::width(ch)), "width of U+" + vp::quote(um::enc<char>(fm::radix(ch, 16, true))));
    }
}
