// U01 - encoding conversions preserve every Unicode character
#include "utfmodel.hpp"
#include <algorithm>
#include <papilio/utf/codepoint.hpp>
#include <papilio/utf/string.hpp>
#include <sstream>

using namespace papilio;
using utf::codepoint;
using utf::decoder;

namespace
{
std::string hex(char32_t c)
{
    char b[16];
    std::snprintf(b, sizeof b, "U+%04X", unsigned(c));
    return b;
}

// (std::basic_stringbuf<char16_t> cannot hold U+FFFF, its end-of-file value)
template <typename CharT>
struct recorder : std::basic_streambuf<CharT>
{
    std::basic_string<CharT> got;

    std::streamsize xsputn(const CharT* p, std::streamsize n) override
    {
        got.append(p, std::size_t(n));
        return n;
    }
};

template <typename CharT>
std::basic_string<CharT> streamed(codepoint cp)
{
    recorder<CharT> buf;
    std::basic_ostream<CharT> os(&buf);
    os << cp;
    return buf.got;
}

// Everything about one scalar value
void check_scalar(char32_t c, char32_t junk)
{
    const std::string e8 = um::enc<char>(c);
    const std::u8string e8u = um::enc<char8_t>(c);
    const std::u16string e16 = um::enc<char16_t>(c);
    const std::wstring ew = um::enc<wchar_t>(c);
    const std::size_t n = e8.size();
    auto good = [&](codepoint cp, const char* how)
    {
        if(cp.size_bytes() != n)
            vp::fail(hex(c) + ": size_bytes() via " + how + " is " + vp::str(int(cp.size_bytes())));
        if(std::string_view(cp) != e8 || std::u8string_view(cp) != e8u || std::string_view(cp.data(), n) != e8)
            vp::fail(hex(c) + ": UTF-8 bytes via " + how + " are " + vp::quote(std::string_view(cp)));
        if(static_cast<char32_t>(cp) != c)
            vp::fail(hex(c) + ": back-conversion via " + how + " gives " + hex(cp));
    };
    good(codepoint(c), "char32_t");
    good(decoder<char32_t>::to_codepoint(c).first, "decoder<char32_t>");
    VP_CHECK(decoder<char32_t>::to_codepoint(c).second == 1, hex(c));
    {
        char32_t two[2] = {c, junk};
        auto r = decoder<char32_t>::to_codepoint(std::u32string_view(two, 2));
        good(r.first, "decoder<char32_t> view");
        VP_CHECK(r.second == 1, hex(c));
    }
    VP_CHECK(decoder<char32_t>::size_bytes(c) == n, hex(c));
    VP_CHECK(decoder<char8_t>::size_bytes(e8u[0]) == n, hex(c));
    VP_CHECK(decoder<char>::size_bytes(e8[0]) == n, hex(c));
    VP_CHECK(utf::byte_count(std::uint8_t(e8[0])) == n, hex(c));
    good(codepoint(e8.data(), std::uint8_t(n)), "char bytes");
    good(codepoint(e8u.data(), std::uint8_t(n)), "char8_t bytes");
    {
        // a codepoint that held another character before
        codepoint cp(junk);
        cp.assign(c);
        good(cp, "assign(char32_t)");
        cp.assign(junk).assign(e8.data(), std::uint8_t(n));
        good(cp, "assign(bytes)");
        cp.assign(junk);
        switch(n)
        {
        case 1: cp.assign(e8u[0]); break;
        case 2: cp.assign(e8u[0], e8u[1]); break;
        case 3: cp.assign(e8u[0], e8u[1], e8u[2]); break;
        default: cp.assign(e8u[0], e8u[1], e8u[2], e8u[3]); break;
        }
        good(cp, "assign(b...)");
        VP_CHECK(cp == codepoint(c), hex(c));
        auto arr = cp.as_array<unsigned char>();
        VP_CHECK(arr.second == n, hex(c));
        for(std::size_t i = 0; i < n; ++i)
            VP_CHECK(arr.first[i] == static_cast<unsigned char>(e8[i]), hex(c));
    }
    // decoding from a longer text: exactly this character is taken
    {
        const std::string e8j = e8 + um::enc<char>(junk);
        auto r = decoder<char>::to_codepoint(e8j);
        good(r.first, "decoder<char>");
        VP_CHECK(r.second == n, hex(c));
        const std::u8string e8uj = e8u + um::enc<char8_t>(junk);
        auto r8 = decoder<char8_t>::to_codepoint(e8uj);
        good(r8.first, "decoder<char8_t>");
        VP_CHECK(r8.second == n, hex(c));
        const std::u16string e16j = e16 + um::enc<char16_t>(junk);
        auto r16 = decoder<char16_t>::to_codepoint(e16j);
        good(r16.first, "decoder<char16_t>");
        VP_CHECK(r16.second == e16.size(), hex(c));
        auto p16 = decoder<char16_t>::to_char32_t(e16j);
        VP_CHECK(p16.first == c && p16.second == e16.size(), hex(c) + " to_char32_t gives " + hex(p16.first));
        auto q16 = decoder<char16_t>::to_char32_t(e16j[0], e16j[1]);
        VP_CHECK(q16.first == c && q16.second == e16.size(), hex(c));
        auto q = decoder<char16_t>::to_codepoint(e16j[0], e16j[1]);
        good(q.first, "decoder<char16_t> pair");
        VP_CHECK(q.second == e16.size(), hex(c));
        const std::wstring ewj = ew + um::enc<wchar_t>(junk);
        auto rw = decoder<wchar_t>::to_codepoint(ewj);
        good(rw.first, "decoder<wchar_t>");
        VP_CHECK(rw.second == ew.size(), hex(c));
        VP_CHECK(decoder<wchar_t>::to_char32_t(ewj).first == c, hex(c));
    }
    // encoding
    {
        codepoint cp(c);
        auto r32 = decoder<char32_t>::from_codepoint(cp);
        VP_CHECK(r32.first == c && r32.second == n, hex(c) + " processed " + vp::str(int(r32.second)));
        auto r16 = decoder<char16_t>::from_codepoint(cp);
        VP_CHECK(r16.get() == e16 && r16.size == e16.size(), hex(c) + " gives " + vp::quote(r16.get()));
        VP_CHECK(r16.processed_size == n, hex(c));
        auto rw = decoder<wchar_t>::from_codepoint(cp);
        VP_CHECK(rw.get() == ew, hex(c));
        VP_CHECK(rw.processed_size == n, hex(c));
    }
    // classification of the units
    for(std::size_t i = 0; i < n; ++i)
    {
        VP_CHECK(utf::is_leading_byte(std::uint8_t(e8[i])) == (i == 0), hex(c));
        VP_CHECK(utf::is_trailing_byte(std::uint8_t(e8[i])) == (i != 0), hex(c));
    }
    VP_CHECK(utf::is_high_surrogate(e16[0]) == (e16.size() == 2), hex(c));
    VP_CHECK(!utf::is_low_surrogate(e16[0]), hex(c));
    if(e16.size() == 2)
        VP_CHECK(utf::is_low_surrogate(e16[1]) && !utf::is_high_surrogate(e16[1]), hex(c));
    VP_CHECK(codepoint(c).is_digit() == (c >= U'0' && c <= U'9'), hex(c));
    VP_CHECK(utf::is_digit(c) == (c >= U'0' && c <= U'9'), hex(c));
    VP_CHECK(codepoint(c).empty() == (c == 0) && static_cast<bool>(codepoint(c)) == (c != 0), hex(c));
}

template <typename CharT>
void check_sinks(char32_t c, std::u32string_view around)
{
    codepoint cp(c);
    const std::basic_string<CharT> e = um::enc<CharT>(c);
    const std::basic_string<CharT> pre = um::enc<CharT>(around);
    std::basic_string<CharT> out = pre;
    VP_CHECK(&cp.append_to(out) == &out, hex(c));
    VP_CHECK(out == pre + e, hex(c) + std::string(" append_to ") + um::tname<CharT>() + " gives " + vp::quote(std::basic_string_view<CharT>(out)));
    CharT buf[8] = {};
    CharT* p = cp.append_to_as<CharT>(static_cast<CharT*>(buf));
    VP_CHECK(std::basic_string_view<CharT>(buf, p) == e, hex(c) + std::string(" append_to_as ") + um::tname<CharT>());
    VP_CHECK(streamed<CharT>(cp) == e, hex(c) + std::string(" operator<< ") + um::tname<CharT>());
    {
        recorder<CharT> sb;
        std::basic_ostream<CharT> os(&sb);
        cp.append_to(os);
        VP_CHECK(sb.got == e, hex(c) + std::string(" append_to(ostream) ") + um::tname<CharT>());
    }
}
} // namespace

// All 1,112,064 scalar values, one plane-sized block of 4096 per case.
VP_FACET(every_scalar, 2400, 8000, "block of 4096 consecutive scalar values containing at least one non-ASCII value")
{
    std::uint32_t blk = static_cast<std::uint32_t>(s.draw(272));
    char32_t junk = um::gen_scalar(s);
    c.note("block " + std::to_string(blk) + " followed by " + hex(junk));
    if(blk == 13) // surrogates occupy D800..DFFF
        c.tag("block with surrogate hole");
    c.tag("plane " + std::to_string(blk / 16));
    for(std::uint32_t i = 0; i < 4096; ++i)
    {
        std::uint32_t v = blk * 4096 + i;
        if(um::is_scalar(v))
            check_scalar(char32_t(v), junk);
    }
    c.nontrivial();
}

VP_FACET(edge_scalars, 60000, 1000000, "scalar value outside ASCII")
{
    char32_t a = um::gen_scalar(s, true), b = um::gen_scalar(s, true);
    c.note(hex(a) + " " + hex(b));
    check_scalar(a, b);
    c.nontrivial_if(a > 0x7F);
    um::text around = um::gen_text(s, 3);
    um::with_char(s.draw(5), [&]<typename CharT>()
                  { check_sinks<CharT>(a, around); });
    // equality and order
    codepoint x(a), y(b);
    codepoint xb(b);
    xb.assign(um::enc<char>(a).data(), std::uint8_t(um::enc<char>(a).size())); // stale trailing bytes
    VP_CHECK(xb == x && x == xb && xb == a && a == xb && !(xb != x), hex(a));
    VP_CHECK((x == y) == (a == b), hex(a) + hex(b));
    VP_CHECK((x <=> y) == (std::uint32_t(a) <=> std::uint32_t(b)), hex(a) + hex(b));
    VP_CHECK((xb <=> y) == (std::uint32_t(a) <=> std::uint32_t(b)), hex(a) + hex(b));
    VP_CHECK((x < b) == (a < b) && (a < y) == (a < b) && (x >= b) == (a >= b), hex(a) + hex(b));
}

// Values and units that encode nothing
VP_FACET(ill_formed_units, 40000, 400000, "the unit or pair is ill-formed")
{
    switch(s.draw(4))
    {
    case 0: // a surrogate code point has no UTF-16 form
    {
        char32_t v = char32_t(0xD800 + s.draw(0x800));
        c.note("codepoint " + hex(v));
        c.nontrivial();
        bool thrown = false;
        try
        {
            (void)decoder<char16_t>::from_codepoint(codepoint(v));
        }
        catch(const std::invalid_argument&)
        {
            thrown = true;
        }
        VP_CHECK(thrown, "from_codepoint accepted surrogate " + hex(v));
        break;
    }
    case 1: // lone high surrogate at the end
    {
        char16_t h = char16_t(0xD800 + s.draw(0x400));
        c.note("lone high " + hex(h));
        c.nontrivial();
        try
        {
            um::exact<char16_t> e(std::u16string_view(&h, 1));
            (void)decoder<char16_t>::to_codepoint(e.view());
            vp::fail("lone high surrogate decoded");
        }
        catch(const utf::invalid_surrogate& ex)
        {
            VP_CHECK(ex.get() == h, hex(h));
        }
        break;
    }
    case 2: // high surrogate followed by something that is not a low surrogate
    {
        char16_t p[2] = {char16_t(0xD800 + s.draw(0x400)), 0};
        std::uint32_t v = static_cast<std::uint32_t>(s.draw(0x10000 - 0x400));
        if(s.boolean())
            v = s.pick({0xD7FFu, 0xD800u, 0xDBFFu, 0xDC00u, 0xDC01u, 0u, 0x41u});
        if(v >= 0xDC00)
            v += 0x400;
        p[1] = char16_t(v);
        c.note("pair " + hex(p[0]) + " " + hex(p[1]));
        c.nontrivial();
        bool pair_overload = s.boolean();
        try
        {
            if(pair_overload)
                (void)decoder<char16_t>::to_codepoint(p[0], p[1]);
            else
                (void)decoder<char16_t>::to_char32_t(std::u16string_view(p, 2));
            vp::fail("unpaired high surrogate decoded");
        }
        catch(const utf::invalid_surrogate& ex)
        {
            VP_CHECK(ex.get() == p[1], hex(ex.get()));
        }
        break;
    }
    default: // classification of arbitrary units
    {
        std::uint16_t u = static_cast<std::uint16_t>(s.boolean() ? s.draw(0x10000) : s.pick({0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000}));
        std::uint8_t b = static_cast<std::uint8_t>(s.draw(256));
        c.note("unit " + hex(u) + " byte " + hex(b));
        c.nontrivial_if(u >= 0xD800 && u < 0xE000);
        VP_CHECK(utf::is_high_surrogate(u) == (u >= 0xD800 && u <= 0xDBFF), hex(u));
        VP_CHECK(utf::is_low_surrogate(u) == (u >= 0xDC00 && u <= 0xDFFF), hex(u));
        VP_CHECK(utf::is_trailing_byte(b) == (b >= 0x80 && b <= 0xBF), hex(b));
        VP_CHECK(utf::is_leading_byte(b) == (b <= 0x7F || (b >= 0xC0 && b <= 0xF7)), hex(b));
        bool ws = b == ' ' || (b >= 9 && b <= 13);
        VP_CHECK(utf::is_whitespace(b) == ws, hex(b));
        break;
    }
    }
}

// A text through a chain of encodings
namespace
{
template <typename From, typename To>
std::basic_string<To> conv(const std::basic_string<From>& x, bool named)
{
    um::exact<From> e(x);
    utf::basic_string_ref<From> r(e.data(), e.size());
    if(named)
    {
        if constexpr(std::is_same_v<To, char8_t>)
            return r.to_u8string();
        else if constexpr(std::is_same_v<To, char16_t>)
            return r.to_u16string();
        else if constexpr(std::is_same_v<To, char32_t>)
            return r.to_u32string();
        else if constexpr(std::is_same_v<To, wchar_t>)
            return r.to_wstring();
    }
    return r.template to_string<To>();
}
} // namespace

VP_FACET(text_chain, 60000, 1000000, "text mixing at least two encoded lengths, at least two conversions")
{
    um::text t = um::gen_text(s, 12, true);
    std::size_t steps = 1 + s.draw(6);
    c.note(vp::quote(std::u32string_view(t)));
    c.nontrivial_if(um::mixed(t) && steps >= 2);
    std::size_t cur = s.draw(5);
    // the current text, in whichever encoding it is in
    std::string v0;
    std::u16string v1;
    std::u32string v2;
    std::u8string v3;
    std::wstring v4;
    auto slot = [&]<typename CharT>() -> std::basic_string<CharT>&
    {
        if constexpr(std::is_same_v<CharT, char>) return v0;
        else if constexpr(std::is_same_v<CharT, char16_t>) return v1;
        else if constexpr(std::is_same_v<CharT, char32_t>) return v2;
        else if constexpr(std::is_same_v<CharT, char8_t>) return v3;
        else return v4;
    };
    um::with_char(cur, [&]<typename A>()
                  { slot.template operator()<A>() = um::enc<A>(t); });
    for(std::size_t i = 0; i < steps; ++i)
    {
        std::size_t nxt = s.draw(5);
        bool named = s.boolean();
        um::with_char(cur, [&]<typename A>()
                      { um::with_char(nxt, [&]<typename B>()
                                      {
            auto r = conv<A, B>(slot.template operator()<A>(), named);
            if(r != um::enc<B>(t))
                vp::fail(std::string(um::tname<A>()) + " to " + um::tname<B>() + " gives " + vp::quote(std::basic_string_view<B>(r)) + " for " + vp::quote(std::u32string_view(t)));
            slot.template operator()<B>() = r; }); });
        cur = nxt;
    }
}
