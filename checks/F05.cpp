// F05 - booleans, pointers and enumerations keep their identity when formatted
#include "fmtmodel.hpp"

using namespace papilio;

enum class color
{
    red,
    green = 1,
    blue = 2,
    far_left = -128,
    far_right = 127,
    minus = -1
};

namespace some_ns
{
enum class small_signed : signed char
{
    lowest = -128,
    zero = 0,
    highest = 127
};
enum class small_unsigned : unsigned char
{
    none = 0,
    one = 1,
    hundred = 100,
    last = 127,
    beyond = 128,
    far_beyond = 255
};
enum unscoped : int
{
    un_a = 3,
    un_b = 4,
    un_far = 1000
};
struct holder
{
    enum class nested : long long
    {
        x = 5,
        y = 6,
        huge = 0x7FFFFFFFFFFFFFFF,
        tiny = -0x7FFFFFFFFFFFFFFF - 1
    };
};
enum class wide_unsigned : unsigned long long
{
    p = 7,
    q = 8,
    top = ~0ull
};
} // namespace some_ns

namespace
{
struct entry
{
    long long value;
    const char* name;
};

template <typename E>
struct info;
template <>
struct info<color>
{
    static constexpr entry names[] = {{0, "red"}, {1, "green"}, {2, "blue"}, {-128, "far_left"}, {127, "far_right"}, {-1, "minus"}};
};
template <>
struct info<some_ns::small_signed>
{
    static constexpr entry names[] = {{-128, "lowest"}, {0, "zero"}, {127, "highest"}};
};
template <>
struct info<some_ns::small_unsigned>
{
    static constexpr entry names[] = {{0, "none"}, {1, "one"}, {100, "hundred"}, {127, "last"}, {128, "beyond"}, {255, "far_beyond"}};
};
template <>
struct info<some_ns::unscoped>
{
    static constexpr entry names[] = {{3, "un_a"}, {4, "un_b"}, {1000, "un_far"}};
};
template <>
struct info<some_ns::holder::nested>
{
    static constexpr entry names[] = {{5, "x"}, {6, "y"}, {0x7FFFFFFFFFFFFFFF, "huge"}, {-0x7FFFFFFFFFFFFFFF - 1, "tiny"}};
};
template <>
struct info<some_ns::wide_unsigned>
{
    static constexpr entry names[] = {{7, "p"}, {8, "q"}, {-1, "top"}};
};

fm::text widen(std::string_view s) { return fm::text(s.begin(), s.end()); }

template <typename CharT, typename E>
void enums(vp::source& s, vp::ctx& c, std::in_place_type_t<E>)
{
    using U = std::underlying_type_t<E>;
    U u;
    const auto& names = info<E>::names;
    if(s.chance(2, 3))
        u = static_cast<U>(names[s.draw(std::size(names))].value);
    else
        u = s.boolean() ? fm::gen_int<U>(s) : static_cast<U>(s.range(-140, 140));
    E e = static_cast<E>(u);
    const char* known = nullptr;
    for(auto& n : names)
        if(static_cast<U>(n.value) == u)
            known = n.name;
    bool in_range = std::cmp_greater_equal(u, -128) && std::cmp_less(u, 128);
    fm::spec sp = fm::gen(s, fm::f_width, U"s", 30);
    auto fmt = fm::field(sp);
    __int128 num = static_cast<__int128>(u);
    c.note(std::string(um::tname<CharT>()) + " " + vp::quote(um::enc<char>(fmt)) + " " + typeid(E).name() + " " + (num < 0 ? "-" : "") + um::enc<char>(fm::radix(num < 0 ? -num : num, 10, false)));
    c.tag(known ? (in_range ? "named" : "named_out_of_range") : (in_range ? "unnamed" : "unnamed_out_of_range"));
    c.nontrivial_if(!known || !in_range || sp.width);
    auto got = fm::call<CharT>(fmt, sp, e, static_cast<unsigned>(s.draw(2)));
    if(known && in_range)
        fm::expect<CharT>(got, fm::pad(sp, widen(known), false), "a named value");
    else if(known && got == um::enc<CharT>(fm::pad(sp, widen(known), false)))
        c.tag("out_of_range_but_named_rightly");
    else if(!in_range && !(num > 0 && num >= (static_cast<__int128>(1) << 64) - 128)) // those share the table's negative part
    {
        // documented: falls back to the integer representation
        fm::spec isp = sp;
        isp.type = U'd';
        fm::expect<CharT>(got, fm::integer(isp, num), "a value out of the supported range");
    }
    else
    {
        for(auto& n : names)
            VP_CHECK(got != um::enc<CharT>(fm::pad(sp, widen(n.name), false)), std::string("an unnamed value is shown as ") + n.name);
    }
    if(known && in_range)
        VP_CHECK(enum_name(e) == known, "enum_name() gives " + vp::quote(enum_name(e)));
}

template <typename CharT>
void all(vp::source& s, vp::ctx& c)
{
    switch(s.draw(5))
    {
    case 0:
    {
        bool b = s.boolean();
        fm::spec sp = fm::gen(s, fm::f_width, U"s", 30);
        auto fmt = U"<" + fm::field(sp) + U">";
        c.note(std::string(um::tname<CharT>()) + " " + vp::quote(um::enc<char>(fmt)) + (b ? " true" : " false"));
        c.tag("bool");
        c.nontrivial_if(sp.width > 5);
        fm::expect<CharT>(fm::call<CharT>(fmt, sp, b, static_cast<unsigned>(s.draw(2))), U"<" + fm::pad(sp, b ? U"true" : U"false", false) + U">", "bool");
        break;
    }
    case 1:
    {
        std::uintptr_t a = fm::gen_int<std::uintptr_t>(s);
        fm::spec sp = fm::gen(s, fm::f_width | fm::f_zero, U"pP", 40);
        auto fmt = U"<" + fm::field(sp) + U">";
        fm::spec nsp = sp;
        nsp.alt = true;
        nsp.type = sp.type == U'P' ? U'X' : U'x';
        unsigned kind = static_cast<unsigned>(s.draw(4));
        if(kind == 3)
            a = 0;
        c.note(std::string(um::tname<CharT>()) + " " + vp::quote(um::enc<char>(fmt)) + " pointer " + std::to_string(a));
        c.tag("pointer");
        c.nontrivial_if(sp.width > 6 || sp.type == U'P');
        auto want = U"<" + fm::integer(nsp, static_cast<__int128>(a)) + U">";
        unsigned nk = static_cast<unsigned>(s.draw(2));
        switch(kind)
        {
        case 0: fm::expect<CharT>(fm::call<CharT>(fmt, sp, reinterpret_cast<const void*>(a), nk), want, "const void*"); break;
        case 1: fm::expect<CharT>(fm::call<CharT>(fmt, sp, reinterpret_cast<int*>(a), nk), want, "int*"); break;
        case 2: fm::expect<CharT>(fm::call<CharT>(fmt, sp, reinterpret_cast<void*>(a), nk), want, "void*"); break;
        default: fm::expect<CharT>(fm::call<CharT>(fmt, sp, nullptr, nk), want, "nullptr"); break;
        }
        break;
    }
    default:
        switch(s.draw(6))
        {
        case 0: return enums<CharT>(s, c, std::in_place_type<color>);
        case 1: return enums<CharT>(s, c, std::in_place_type<some_ns::small_signed>);
        case 2: return enums<CharT>(s, c, std::in_place_type<some_ns::small_unsigned>);
        case 3: return enums<CharT>(s, c, std::in_place_type<some_ns::unscoped>);
        case 4: return enums<CharT>(s, c, std::in_place_type<some_ns::holder::nested>);
        default: return enums<CharT>(s, c, std::in_place_type<some_ns::wide_unsigned>);
        }
    }
}
} // namespace

#define RULE "an unnamed or far enumeration value, or padding, or upper case"
VP_FACET(narrow, 100000, 1500000, RULE)
{
    all<char>(s, c);
}

VP_FACET(wide, 50000, 700000, RULE)
{
    all<wchar_t>(s, c);
}

// a boolean or an enumeration shown as a number is that number, whatever its name
namespace
{
template <typename CharT>
void as_number(vp::source& s, vp::ctx& c)
{
    fm::spec sp = fm::gen(s, fm::f_width | fm::f_sign | fm::f_alt | fm::f_zero, U"dxXbBo", 40);
    if(!sp.type)
        sp.type = U'd';
    auto fmt = U"<" + fm::field(sp) + U">";
    unsigned nk = static_cast<unsigned>(s.draw(2));
    auto go = [&](auto v, __int128 num)
    {
        if(sp.type == U'o' && sp.alt && num == 0)
            sp.alt = false, fmt = U"<" + fm::field(sp) + U">";
        c.note(std::string(um::tname<CharT>()) + " " + vp::quote(um::enc<char>(fmt)) + " " + typeid(v).name() + " " + (num < 0 ? "-" : "") + um::enc<char>(fm::radix(num < 0 ? -num : num, 10, false)));
        c.nontrivial_if(num < 0 || num > 127);
        fm::expect<CharT>(fm::call<CharT>(fmt, sp, v, nk), U"<" + fm::integer(sp, num) + U">", "as a number");
    };
    auto en = [&]<typename E>(std::in_place_type_t<E>)
    {
        auto u = fm::gen_int<std::underlying_type_t<E>>(s);
        go(static_cast<E>(u), static_cast<__int128>(u));
    };
    switch(s.draw(7))
    {
    case 0:
    {
        bool b = s.boolean();
        return go(b, b);
    }
    case 1: return en(std::in_place_type<color>);
    case 2: return en(std::in_place_type<some_ns::small_signed>);
    case 3: return en(std::in_place_type<some_ns::small_unsigned>);
    case 4: return en(std::in_place_type<some_ns::unscoped>);
    case 5: return en(std::in_place_type<some_ns::holder::nested>);
    default: return en(std::in_place_type<some_ns::wide_unsigned>);
    }
}
} // namespace

VP_FACET(numbers, 30000, 500000, "a negative number or one above 127")
{
    if(s.boolean())
        as_number<char>(s, c);
    else
        as_number<wchar_t>(s, c);
}
