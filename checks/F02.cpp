// F02 - floating-point output equals the standard conversion plus layout
#include "fmtmodel.hpp"
#include <charconv>
#include <cmath>
#include <limits>

using namespace papilio;

namespace
{
constexpr unsigned feats = fm::f_sign | fm::f_zero | fm::f_precision | fm::f_loc | fm::f_width;

template <typename T>
T gen_float(vp::source& s)
{
    T v;
    switch(s.draw(8))
    {
    case 0: v = static_cast<T>(s.draw(1000)); break;
    case 1: v = static_cast<T>(s.draw(1000000)) / static_cast<T>(s.pick({1, 2, 4, 8, 10, 100, 1000, 3, 7, 64})); break;
    case 2:
        v = s.pick({T(0), T(1), T(0.1L), T(0.5), T(1.5), T(2.5), T(0.125), T(9.5), T(99.5), T(999999.5L), T(9999995), T(123456), T(1234567), T(0.0001L), T(0.00001L), T(0.000123456L), T(100000), T(1000000), T(1e15L), T(1e16L), T(1e17L), T(1e20L), T(1e21L), T(1e22L), T(1e23L), T(1e30L), T(3.14L)});
        break;
    case 3:
        v = s.pick({std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::epsilon()});
        break;
    case 4: // a power of ten, or near
        v = std::pow(T(10), static_cast<T>(s.range(-8, 24)));
        if(s.boolean())
            v = std::nextafter(v, s.boolean() ? T(0) : std::numeric_limits<T>::infinity());
        break;
    case 5: // a power of two, any exponent
        v = std::ldexp(T(1), static_cast<int>(s.range(std::numeric_limits<T>::min_exponent - std::numeric_limits<T>::digits, std::numeric_limits<T>::max_exponent - 1)));
        break;
    case 6: // any significand, exponent in a reach where text is short
        v = std::ldexp(static_cast<T>(s.draw(0) >> s.draw(60)), static_cast<int>(s.range(-80, 20)));
        break;
    default: // any significand and exponent
        v = std::ldexp(static_cast<T>(s.draw(0) | 1), static_cast<int>(s.range(std::numeric_limits<T>::min_exponent - std::numeric_limits<T>::digits, std::numeric_limits<T>::max_exponent - 64)));
        break;
    }
    return s.boolean() ? -v : v;
}

// digits of a non-negative finite value, by the standard conversion
template <typename T>
fm::text digits(T v, char32_t type, std::size_t prec, bool& upper)
{
    static std::vector<char> buf(12000);
    char* b = buf.data();
    char* e = b + buf.size();
    std::to_chars_result r{};
    upper = type == U'F' || type == U'E' || type == U'G' || type == U'A';
    std::chars_format f{};
    switch(type)
    {
    case U'f':
    case U'F': f = std::chars_format::fixed; break;
    case U'e':
    case U'E': f = std::chars_format::scientific; break;
    case U'a':
    case U'A': f = std::chars_format::hex; break;
    default: f = std::chars_format::general; break;
    }
    int p = static_cast<int>(prec);
    if(prec)
        r = std::to_chars(b, e, v, f, p);
    else if(type == 0)
        r = std::to_chars(b, e, v);
    else if(f == std::chars_format::hex)
        r = std::to_chars(b, e, v, f);
    else
        r = std::to_chars(b, e, v, f, 6);
    if(r.ec != std::errc())
        throw vp::discard{"longer than the oracle's buffer"};
    fm::text t;
    for(char* q = b; q != r.ptr; ++q)
        t += static_cast<char32_t>(upper && *q >= 'a' && *q <= 'z' ? *q - 32 : *q);
    return t;
}

template <typename CharT, typename T>
void one(vp::source& s, vp::ctx& c)
{
    T v = gen_float<T>(s);
    fm::spec sp = fm::gen(s, feats, U"fFeEgGaA", 40);
    if(sp.precision && s.chance(1, 16))
    {
        sp.precision = 15 + s.draw(200);
        sp.width = s.boolean() ? sp.width : 0;
    }
    fm::text want;
    bool upper = sp.type == U'F' || sp.type == U'E' || sp.type == U'G' || sp.type == U'A';
    if(std::isinf(v))
        want = fm::number(sp, std::signbit(v), U"", upper ? U"INF" : U"inf", false);
    else if(std::isnan(v))
        want = fm::number(sp, std::signbit(v), U"", upper ? U"NAN" : U"nan", false);
    else
        want = fm::number(sp, std::signbit(v), U"", digits(std::signbit(v) ? -v : v, sp.type, sp.precision, upper));
    auto fmt = fm::field(sp);
    unsigned nk = static_cast<unsigned>(s.draw(2));
    if(nk == 1 && sp.width > 127)
        nk = 0;
    char vb[64];
    std::snprintf(vb, sizeof vb, "%La", static_cast<long double>(v));
    c.note(std::string(um::tname<CharT>()) + " " + vp::quote(um::enc<char>(fmt)) + " value " + vb + " (" + (sizeof(T) == 4 ? "float" : sizeof(T) == 8 ? "double" :
                                                                                                                                             "long double")
           + ")");
    c.tag(std::string("type_") + (sp.type ? static_cast<char>(sp.type) : '0'));
    if(sp.precision)
        c.tag("precision");
    if(sp.zero && !sp.align && sp.width)
        c.tag("zero_padded");
    if(want.size() > 32)
        c.tag("long_text");
    c.tag(std::isfinite(v) ? "finite" : "not_finite");
    c.nontrivial_if(v != T(0) && (sp.type || sp.precision || sp.width || sp.sign));
    fm::expect<CharT>(fm::call<CharT>(fmt, sp, v, nk), want, "format");
}
} // namespace

#define RULE "a non-zero value, with a presentation, precision, width or sign"
VP_FACET(double_narrow, 60000, 1500000, RULE)
{
    one<char, double>(s, c);
}

VP_FACET(float_narrow, 40000, 800000, RULE)
{
    one<char, float>(s, c);
}

VP_FACET(long_double_narrow, 30000, 500000, RULE)
{
    one<char, long double>(s, c);
}

VP_FACET(double_wide, 30000, 600000, RULE)
{
    one<wchar_t, double>(s, c);
}

VP_FACET(float_wide, 15000, 300000, RULE)
{
    one<wchar_t, float>(s, c);
}

VP_FACET(long_double_wide, 15000, 300000, RULE)
{
    one<wchar_t, long double>(s, c);
}

// The default output determines the value.
VP_FACET(read_back, 40000, 1000000, "the value is not an integer below 1000")
{
    auto go = [&]<typename T>(std::in_place_type_t<T>)
    {
        T v = gen_float<T>(s);
        if(!std::isfinite(v))
            throw vp::discard{"not finite"};
        const char* f = s.pick({"{}", "{:a}", "{0}", "{: }"});
        std::string r = papilio::format(f, v);
        c.note(std::string(f) + " gives " + r);
        c.nontrivial_if(std::abs(v) >= T(1000) || v != std::floor(v));
        const char* b = r.data();
        if(*b == ' ')
            ++b;
        T back{};
        auto [p, ec] = std::from_chars(b, r.data() + r.size(), back, f[2] == 'a' ? std::chars_format::hex : std::chars_format::general);
        // denormals may be reported as out of range by from_chars implementations that use strtod
        VP_CHECK(p == r.data() + r.size(), "not a number: " + vp::quote(r));
        if(ec == std::errc())
            VP_CHECK(back == v && std::signbit(back) == std::signbit(v), "reads back as another value: " + vp::quote(r));
    };
    if(s.boolean())
        go(std::in_place_type<double>);
    else
        go(std::in_place_type<float>);
}
