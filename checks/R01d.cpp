#define FM_XCHAR
#include "R01_common.hpp"

// Script values and literals that are not well-formed text, compared in conditions.
namespace
{
template <typename CharT>
std::basic_string<CharT> raw_text(vp::source& s)
{
    std::basic_string<CharT> r;
    for(std::size_t n = s.small_size(5); n > 0; --n)
    {
        if(s.boolean())
            r += um::enc<CharT>(text(1, s.pick<char32_t>({U'a', U'b', U'é', U'文', U'\U0001f600', U'\uffff'})));
        else if constexpr(sizeof(CharT) == 1)
            r += static_cast<CharT>(s.pick({0x80, 0xbf, 0xc3, 0xe6, 0xed, 0xf0, 0xff, 0x61}));
        else if constexpr(sizeof(CharT) == 2)
            r += static_cast<CharT>(s.pick({0xd800, 0xdbff, 0xdc00, 0xdfff, 0x61}));
        else
            r += static_cast<CharT>(s.pick<unsigned>({0xd800, 0xdfff, 0x10ffff, 0x110000, 0xffffffff, 0x61}));
    }
    return r;
}

template <typename CharT>
bool well_formed(const std::basic_string<CharT>& t)
{
    text r;
    return um::dec<CharT>(std::basic_string_view<CharT>(t), r);
}

template <typename CharT>
void compare_ill_formed(vp::source& s, vp::ctx& c)
{
    warm_up<CharT>();
    using str = std::basic_string<CharT>;
    using ctx_t = basic_format_context<format_iterator_for<CharT>, CharT>;
    std::size_t kind = s.draw(3);
    str common = s.boolean() ? raw_text<CharT>(s) : str();
    str a = common + raw_text<CharT>(s), b = common + raw_text<CharT>(s);
    bool ill = !well_formed<CharT>(a) || !well_formed<CharT>(b);
    c.nontrivial_if(ill && a != b);
    c.tag(kind == 2 ? "containers" : "script");
    if(kind == 2)
    {
        um::exact<CharT> ma(a), mb(b);
        utf::basic_string_container<CharT> ca(ma.view());
        utf::basic_string_ref<CharT> rb(mb.view());
        c.note(vp::quote(a) + " with " + vp::quote(b));
        int r = 0, q = 0;
        bool threw = false;
        try
        {
            r = ca.compare(rb);
            q = rb.compare(utf::basic_string_ref<CharT>(ca));
        }
        catch(const std::exception&)
        {
            threw = true;
        }
        VP_CHECK(threw || r == -q, "the order depends on the side");
        VP_CHECK((ca == rb) == (a == b), "equality of texts of one encoding is that of their units");
        return;
    }
    std::string op = s.pick<std::string>({"==", "!=", "<", "<=", ">", ">="});
    text fmt = U"{${0} " + text(op.begin(), op.end()) + U" {1} ? 'y' : 'n'}";
    str f = um::enc<CharT>(fmt);
    if(kind == 1)
    {
        // the second one as a literal
        str lit;
        for(CharT ch : b)
            if(ch != CharT('\'') && ch != CharT('\\'))
                lit += ch;
        b = lit;
        fmt = U"{${0} " + text(op.begin(), op.end()) + U" '";
        f = um::enc<CharT>(fmt) + lit + um::enc<CharT>(U"' ? 'y' : 'n'}");
    }
    c.note(vp::quote(f) + " with " + vp::quote(a) + ", " + vp::quote(b));
    um::exact<CharT> mem(f), ma(a), mb(b);
    auto sa = ma.view(), sb = mb.view();
    try
    {
        str r = papilio::vformat(mem.view(), papilio::make_format_args<ctx_t>(sa, sb));
        VP_CHECK(r == um::enc<CharT>(U"y") || r == um::enc<CharT>(U"n"), "neither alternative was chosen");
        if(op == "==" || op == "!=")
            VP_CHECK((r == um::enc<CharT>(U"y")) == ((a == b) == (op == "==")), "equality of texts of one encoding is that of their units");
    }
    catch(const std::exception& e)
    {
        VP_CHECK(ill, std::string("comparing well-formed texts throws: ") + e.what());
    }
}
} // namespace

#define RULE_CMP "at least one of the texts is ill-formed, and they differ"

VP_FACET(comparing_ill_formed_text_utf8, 15000, 300000, RULE_CMP)
{
    compare_ill_formed<char>(s, c);
}

VP_FACET(comparing_ill_formed_text_utf16, 15000, 300000, RULE_CMP)
{
    compare_ill_formed<char16_t>(s, c);
}

VP_FACET(comparing_ill_formed_text_utf32, 15000, 300000, RULE_CMP)
{
    compare_ill_formed<char32_t>(s, c);
}

VP_FACET(comparing_ill_formed_text_wide, 15000, 300000, RULE_CMP)
{
    compare_ill_formed<wchar_t>(s, c);
}

VP_KNOWN(ordering_ill_formed_utf16)
{
    std::u16string a(1, char16_t(0xd800)), b = u"a";
    try
    {
        (void)papilio::format(u"{${0} < {1} ? 'y' : 'n'}", a, b);
    }
    catch(const std::exception&)
    {}
}
