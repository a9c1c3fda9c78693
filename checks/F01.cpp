// F01 - integers are formatted as their exact value in every presentation
#include "fmtmodel.hpp"

using namespace papilio;

namespace
{
enum class e8 : signed char
{
    a = 1
};
enum class eu8 : unsigned char
{
    a = 1
};
enum e16 : short
{
    e16_a = 1
};
enum class eu32 : unsigned
{
    a
};
enum class e64 : long long
{
    a = 5
};
enum class eu64 : unsigned long long
{
    a = 5
};
enum plain_enum
{
    pe_a,
    pe_b = 100
};

constexpr unsigned feats = fm::f_sign | fm::f_alt | fm::f_zero | fm::f_loc | fm::f_width;

bool layout(const fm::spec& sp)
{
    return sp.align || sp.sign || sp.alt || sp.zero || sp.width;
}

// surrounding text must survive, too
struct surround
{
    fm::text before, after;
};

surround gen_surround(vp::source& s)
{
    surround r;
    if(s.chance(1, 3))
    {
        r.before = um::gen_text(s, 3);
        r.after = um::gen_text(s, 3);
        for(auto* t : {&r.before, &r.after})
            for(auto& ch : *t)
                if(ch == U'{' || ch == U'}')
                    ch = U'~';
    }
    return r;
}

template <typename CharT, typename T>
void one(vp::source& s, vp::ctx& c, const T& val, __int128 num, std::u32string_view types, bool type_required)
{
    fm::spec sp = fm::gen(s, feats, types, s.chance(1, 12) ? 300 : 40);
    if(type_required && !sp.type)
        sp.type = types[0];
    auto sur = gen_surround(s);
    unsigned nk = static_cast<unsigned>(s.draw(2));
    if(nk == 1 && sp.width > 127)
        nk = 0;
    auto fmt = sur.before + fm::field(sp) + sur.after;
    auto want = sur.before + fm::integer(sp, num) + sur.after;
    c.note(std::string(um::tname<CharT>()) + " " + vp::quote(um::enc<char>(fmt)) + " value " + (num < 0 ? "-" : "") + vp::quote(um::enc<char>(fm::radix(num < 0 ? -num : num, 10, false))));
    if(sp.type)
        c.tag(std::string("type_") + static_cast<char>(sp.type));
    c.tag(num < 0 ? "negative" : "non_negative");
    if(sp.zero && sp.width)
        c.tag("zero_padded");
    if(sp.wmode)
        c.tag("dynamic_width");
    c.nontrivial_if(layout(sp) || (sp.type && sp.type != U'd'));
    fm::expect<CharT>(fm::call<CharT>(fmt, sp, val, nk), want, "format");
}

template <typename CharT>
void integers(vp::source& s, vp::ctx& c)
{
    auto go = [&]<typename T>(std::in_place_type_t<T>)
    {
        T v = fm::gen_int<T>(s);
        one<CharT>(s, c, v, static_cast<__int128>(v), U"dbBoxX", false);
    };
    switch(s.draw(12))
    {
    case 0: return go(std::in_place_type<int>);
    case 1: return go(std::in_place_type<unsigned>);
    case 2: return go(std::in_place_type<long long>);
    case 3: return go(std::in_place_type<unsigned long long>);
    case 4: return go(std::in_place_type<long>);
    case 5: return go(std::in_place_type<unsigned long>);
    case 6: return go(std::in_place_type<short>);
    case 7: return go(std::in_place_type<unsigned short>);
    case 8: return go(std::in_place_type<signed char>);
    case 9: return go(std::in_place_type<unsigned char>);
    case 10: return go(std::in_place_type<std::int64_t>);
    default: return go(std::in_place_type<std::size_t>);
    }
}

template <typename CharT>
void others(vp::source& s, vp::ctx& c)
{
    auto en = [&]<typename E>(std::in_place_type_t<E>)
    {
        using U = std::underlying_type_t<E>;
        U u = fm::gen_int<U>(s);
        one<CharT>(s, c, static_cast<E>(u), static_cast<__int128>(u), U"dbBoxX", true);
    };
    switch(s.draw(8))
    {
    case 0:
    {
        bool b = s.boolean();
        return one<CharT>(s, c, b, b, U"dbBoxX", true);
    }
    case 1: // a character of the format's own type
    {
        CharT ch;
        if constexpr(sizeof(CharT) == 1)
            ch = static_cast<CharT>(1 + s.draw(0x7F));
        else
            ch = static_cast<CharT>(um::gen_scalar(s));
        return one<CharT>(s, c, ch, static_cast<__int128>(ch), U"dbBoxX", true);
    }
    case 2:
    {
        utf::codepoint cp(um::gen_scalar(s));
        return one<CharT>(s, c, cp, static_cast<__int128>(char32_t(cp)), U"dbBoxX", true);
    }
    case 3: return en(std::in_place_type<e8>);
    case 4: return en(std::in_place_type<eu8>);
    case 5: return en(std::in_place_type<e16>);
    case 6: return en(std::in_place_type<e64>);
    default: return en(std::in_place_type<eu64>);
    }
}
} // namespace

VP_FACET(integers_narrow, 60000, 1500000, "a width, sign, alignment, prefix or presentation other than d is requested")
{
    integers<char>(s, c);
}

VP_FACET(integers_wide, 30000, 700000, "a width, sign, alignment, prefix or presentation other than d is requested")
{
    integers<wchar_t>(s, c);
}

VP_FACET(bool_char_enum_narrow, 40000, 900000, "a width, sign, alignment, prefix or presentation other than d is requested")
{
    others<char>(s, c);
}

VP_FACET(bool_char_enum_wide, 20000, 400000, "a width, sign, alignment, prefix or presentation other than d is requested")
{
    others<wchar_t>(s, c);
}

// Reading the digits back is an oracle that does not share the layout model.
VP_FACET(read_back, 30000, 600000, "the value has more than one digit")
{
    auto go = [&]<typename T>(std::in_place_type_t<T>)
    {
        T v = fm::gen_int<T>(s);
        char ty = s.pick({'d', 'b', 'B', 'o', 'x', 'X'});
        int base = ty == 'd' ? 10 : ty == 'o' ? 8 : (ty == 'b' || ty == 'B') ? 2 : 16;
        std::string f = std::string("{:") + ty + "}";
        c.note(f + " " + std::to_string(v));
        c.nontrivial_if(v > 9 || (std::is_signed_v<T> && v < T(0)));
        std::string r = papilio::format(f, v);
        T back{};
        auto [p, ec] = std::from_chars(r.data(), r.data() + r.size(), back, base);
        VP_CHECK(ec == std::errc() && p == r.data() + r.size() && back == v, "output " + vp::quote(r) + " does not read back");
    };
    switch(s.draw(6))
    {
    case 0: return go(std::in_place_type<int>);
    case 1: return go(std::in_place_type<unsigned>);
    case 2: return go(std::in_place_type<long long>);
    case 3: return go(std::in_place_type<unsigned long long>);
    case 4: return go(std::in_place_type<short>);
    default: return go(std::in_place_type<unsigned char>);
    }
}
