// fmtmodel.hpp - generators of format specifications and the reference layout rules
// (written from the documentation, on sequences of Unicode scalar values).
#ifndef FMTMODEL_HPP
#define FMTMODEL_HPP
#include "utfmodel.hpp"
#include <algorithm>
#include <papilio/format.hpp>
#ifdef FM_XCHAR
#    include <papilio/xchar.hpp>
#endif
#include <variant>

namespace fm
{
using um::text;

struct spec
{
    char32_t fill = 0; // 0: none given
    char align = 0;    // 0 < > ^
    char sign = 0;     // 0 + - space
    bool alt = false, zero = false, loc = false;
    std::size_t width = 0;     // 0: none
    std::size_t precision = 0; // 0: none
    char32_t type = 0;
    int wmode = 0, pmode = 0; // 0 written out, 1 by position, 2 by name
    bool manual = false;      // numbered references

    bool plain() const { return !align && !sign && !alt && !zero && !loc && !width && !precision && !type; }

    // values for the two nested fields, in the order (argument 1, argument 2)
    std::pair<std::size_t, std::size_t> nested() const
    {
        if(manual)
            return {width ? width : 1, precision ? precision : 1};
        std::size_t a = 1, b = 1;
        if(width && wmode == 1)
        {
            a = width;
            b = precision ? precision : 1;
        }
        else
            a = precision ? precision : 1;
        return {a, b};
    }
};

inline text dec_text(std::uint64_t v)
{
    text r;
    do
        r.insert(r.begin(), U'0' + static_cast<char32_t>(v % 10));
    while(v /= 10);
    return r;
}

// the specification, without the colon
inline text spec_text(const spec& sp)
{
    text r;
    if(sp.align)
    {
        if(sp.fill)
            r += sp.fill;
        r += static_cast<char32_t>(sp.align);
    }
    if(sp.sign)
        r += static_cast<char32_t>(sp.sign);
    if(sp.alt)
        r += U'#';
    if(sp.zero)
        r += U'0';
    if(sp.width)
        r += sp.wmode == 0 ? dec_text(sp.width) : sp.wmode == 1 ? (sp.manual ? U"{1}" : U"{}") :
                                                                  U"{w}";
    if(sp.precision)
    {
        r += U'.';
        r += sp.pmode == 0 ? dec_text(sp.precision) : sp.pmode == 1 ? (sp.manual ? U"{2}" : U"{}") :
                                                                      U"{p}";
    }
    if(sp.loc)
        r += U'L';
    if(sp.type)
        r += sp.type;
    return r;
}

// the whole replacement field for argument 0
inline text field(const spec& sp, bool colon = false)
{
    text r = sp.manual ? U"{0" : U"{";
    text t = spec_text(sp);
    if(!t.empty() || colon)
        r += U":" + t;
    return r + U"}";
}

enum features : unsigned
{
    f_sign = 1,
    f_alt = 2,
    f_zero = 4,
    f_precision = 8,
    f_loc = 16,
    f_width = 32,
};

inline char32_t gen_fill(vp::source& s)
{
    switch(s.draw(4))
    {
    case 0: return U'*';
    case 1: return s.pick({U'0', U'<', U'>', U'^', U' ', U'-', U'+', U'#', U'.', U':', U'x', U'd', U'$', U'L', U'\'', U'"', U'1'});
    default:
    {
        char32_t c = um::gen_scalar(s);
        return c == U'{' || c == U'}' ? U'.' : c;
    }
    }
}

inline spec gen(vp::source& s, unsigned feats, std::u32string_view types, std::size_t max_width = 40)
{
    spec r;
    if(s.boolean())
    {
        r.align = s.pick({'<', '>', '^'});
        if(s.boolean())
            r.fill = gen_fill(s);
    }
    if((feats & f_sign) && s.boolean())
        r.sign = s.pick({'+', '-', ' '});
    if((feats & f_alt) && s.boolean())
        r.alt = true;
    if((feats & f_zero) && s.chance(1, 3))
        r.zero = true;
    if((feats & f_width) && s.chance(2, 3))
        r.width = 1 + s.small_size(max_width - 1);
    if((feats & f_precision) && s.boolean())
        r.precision = 1 + s.small_size(14);
    if((feats & f_loc) && s.chance(1, 8))
        r.loc = true;
    if(!types.empty() && s.chance(2, 3))
        r.type = types[s.draw(types.size())];
    r.manual = s.boolean();
    if(r.width && s.chance(1, 3))
        r.wmode = static_cast<int>(1 + s.draw(2));
    if(r.precision && s.chance(1, 3))
        r.pmode = static_cast<int>(1 + s.draw(2));
    return r;
}

// fill and alignment
inline text pad(const spec& sp, const text& body, bool right_by_default)
{
    std::size_t used = um::width(body);
    if(sp.width <= used)
        return body;
    std::size_t n = sp.width - used;
    char al = sp.align ? sp.align : right_by_default ? '>' :
                                                       '<';
    std::size_t left = al == '<' ? 0 : al == '>' ? n :
                                                   n / 2;
    char32_t f = sp.fill ? sp.fill : U' ';
    return text(left, f) + body + text(n - left, f);
}

// a number: sign, prefix, zeros, digits
inline text number(const spec& sp, bool neg, const text& prefix, const text& digits, bool finite = true)
{
    text head;
    if(neg)
        head = U"-";
    else if(sp.sign == '+')
        head = U"+";
    else if(sp.sign == ' ')
        head = U" ";
    if(sp.alt)
        head += prefix;
    text zeros;
    if(sp.zero && !sp.align && finite && sp.width > head.size() + digits.size())
        zeros.assign(sp.width - head.size() - digits.size(), U'0');
    return pad(sp, head + zeros + digits, true);
}

inline text radix(unsigned __int128 v, unsigned base, bool upper)
{
    text r;
    do
    {
        unsigned d = static_cast<unsigned>(v % base);
        r.insert(r.begin(), static_cast<char32_t>(d < 10 ? U'0' + d : (upper ? U'A' : U'a') + (d - 10)));
    } while(v /= base);
    return r;
}

// an integer in presentation type ty (0 or 'd', 'b', 'B', 'o', 'x', 'X')
inline text integer(const spec& sp, __int128 v)
{
    unsigned base = 10;
    bool upper = false;
    text prefix;
    switch(sp.type)
    {
    case U'b': base = 2, prefix = U"0b"; break;
    case U'B': base = 2, prefix = U"0B"; break;
    case U'o': base = 8, prefix = U"0"; break;
    case U'x': base = 16, prefix = U"0x"; break;
    case U'X': base = 16, prefix = U"0X", upper = true; break;
    default: break;
    }
    bool neg = v < 0;
    return number(sp, neg, prefix, radix(neg ? static_cast<unsigned __int128>(-v) : static_cast<unsigned __int128>(v), base, upper));
}

// integers biased to boundaries
template <typename T>
T gen_int(vp::source& s)
{
    using U = std::make_unsigned_t<T>;
    constexpr unsigned bits = sizeof(T) * 8;
    switch(s.draw(6))
    {
    case 0: return static_cast<T>(s.draw(20));
    case 1: return static_cast<T>(0 - s.draw(20));
    case 2: return s.boolean() ? std::numeric_limits<T>::max() - static_cast<T>(s.draw(3)) : std::numeric_limits<T>::min() + static_cast<T>(s.draw(3));
    case 3: return static_cast<T>((U(1) << s.draw(bits)) + static_cast<U>(s.draw(3)) - U(1));
    case 4:
    {
        U p = 1;
        for(std::uint64_t k = s.draw(20); k-- > 0 && p < std::numeric_limits<U>::max() / 10;)
            p = static_cast<U>(p * 10);
        p = static_cast<U>(p + s.draw(3) - 1);
        return static_cast<T>(s.boolean() ? U(0) - p : p);
    }
    default:
    {
        U u = static_cast<U>(static_cast<U>(s.draw(0)) >> s.draw(bits));
        return static_cast<T>(s.boolean() ? static_cast<U>(U(0) - u) : u);
    }
    }
}

template <typename CharT, typename... Args>
std::basic_string<CharT> vcall(const text& fmt, Args&&... args)
{
    auto f = um::enc<CharT>(fmt);
    um::exact<CharT> mem(f);
    using ctx_t = papilio::basic_format_context<papilio::format_iterator_for<CharT>, CharT>;
    return papilio::vformat(mem.view(), papilio::make_format_args<ctx_t>(std::forward<Args>(args)...));
}

// format argument 0 with a nested width and precision
template <typename CharT, typename T>
std::basic_string<CharT> call(const text& fmt, const spec& sp, T&& val, unsigned nested_kind = 0)
{
    auto [a, b] = sp.nested();
    static const std::basic_string<CharT> wn = um::enc<CharT>(U"w"), pn = um::enc<CharT>(U"p");
    if(nested_kind == 0)
    {
        int ai = static_cast<int>(a), bi = static_cast<int>(b), w = static_cast<int>(sp.width ? sp.width : 1), p = static_cast<int>(sp.precision ? sp.precision : 1);
        return vcall<CharT>(fmt, val, ai, bi, papilio::arg(wn.c_str(), w), papilio::arg(pn.c_str(), p));
    }
    unsigned long long ai = a, bi = b;
    signed char w = static_cast<signed char>(sp.width ? sp.width : 1);
    unsigned short p = static_cast<unsigned short>(sp.precision ? sp.precision : 1);
    return vcall<CharT>(fmt, val, ai, bi, papilio::arg(wn.c_str(), w), papilio::arg(pn.c_str(), p));
}

template <typename CharT>
void expect(const std::basic_string<CharT>& got, const text& want, const std::string& what)
{
    auto w = um::enc<CharT>(want);
    if(got != w)
        vp::fail(what + ": got " + vp::quote(got) + ", expected " + vp::quote(w));
}
} // namespace fm
#endif
