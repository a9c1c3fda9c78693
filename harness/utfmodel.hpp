// utfmodel.hpp - reference encoders/decoders (written from the Unicode standard's
// definition of the encoding forms, sharing nothing with the library) and generators
// of Unicode text.
#ifndef UTFMODEL_HPP
#define UTFMODEL_HPP
#include "vpbt.hpp"
#include <memory>
#include <string>
#include <string_view>
#include <vector>

namespace um
{
using text = std::u32string; // the model of a text: its sequence of scalar values

inline bool is_scalar(std::uint32_t v)
{
    return v < 0xD800 || (v > 0xDFFF && v < 0x110000);
}

// encoded form of one scalar value / one text
template <typename CharT>
std::basic_string<CharT> enc(char32_t c)
{
    std::basic_string<CharT> r;
    std::uint32_t v = c;
    if constexpr(sizeof(CharT) == 1)
    {
        auto put = [&](std::uint32_t b)
        { r.push_back(static_cast<CharT>(static_cast<unsigned char>(b))); };
        if(v < 0x80)
            put(v);
        else if(v < 0x800)
        {
            put(192 + v / 64);
            put(128 + v % 64);
        }
        else if(v < 0x10000)
        {
            put(224 + v / 4096);
            put(128 + v / 64 % 64);
            put(128 + v % 64);
        }
        else
        {
            put(240 + v / 262144);
            put(128 + v / 4096 % 64);
            put(128 + v / 64 % 64);
            put(128 + v % 64);
        }
    }
    else if constexpr(sizeof(CharT) == 2)
    {
        if(v < 0x10000)
            r.push_back(static_cast<CharT>(v));
        else
        {
            v -= 0x10000;
            r.push_back(static_cast<CharT>(55296 + v / 1024));
            r.push_back(static_cast<CharT>(56320 + v % 1024));
        }
    }
    else
        r.push_back(static_cast<CharT>(v));
    return r;
}

template <typename CharT>
std::basic_string<CharT> enc(std::u32string_view t)
{
    std::basic_string<CharT> r;
    for(char32_t c : t)
        r += enc<CharT>(c);
    return r;
}

// strict decoder; false when ill-formed
template <typename CharT>
bool dec(std::basic_string_view<CharT> s, text& out)
{
    out.clear();
    std::size_t i = 0;
    while(i < s.size())
    {
        if constexpr(sizeof(CharT) == 1)
        {
            std::uint32_t b = static_cast<unsigned char>(s[i]);
            std::size_t n = b < 0x80 ? 1 : b < 0xC2 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF5 ? 4 : 0;
            if(n == 0 || i + n > s.size())
                return false;
            std::uint32_t v = n == 1 ? b : n == 2 ? b - 192 : n == 3 ? b - 224 : b - 240;
            for(std::size_t k = 1; k < n; ++k)
            {
                std::uint32_t t = static_cast<unsigned char>(s[i + k]);
                if(t < 128 || t > 191)
                    return false;
                v = v * 64 + (t - 128);
            }
            if(!is_scalar(v) || (n == 3 && v < 0x800) || (n == 4 && v < 0x10000))
                return false;
            out.push_back(static_cast<char32_t>(v));
            i += n;
        }
        else if constexpr(sizeof(CharT) == 2)
        {
            std::uint32_t u = static_cast<std::uint16_t>(s[i]);
            if(u >= 0xD800 && u < 0xDC00)
            {
                if(i + 1 >= s.size())
                    return false;
                std::uint32_t l = static_cast<std::uint16_t>(s[i + 1]);
                if(l < 0xDC00 || l > 0xDFFF)
                    return false;
                out.push_back(static_cast<char32_t>(0x10000 + (u - 0xD800) * 1024 + (l - 0xDC00)));
                i += 2;
            }
            else if(u >= 0xDC00 && u < 0xE000)
                return false;
            else
            {
                out.push_back(static_cast<char32_t>(u));
                ++i;
            }
        }
        else
        {
            std::uint32_t u = static_cast<std::uint32_t>(s[i]);
            if(!is_scalar(u))
                return false;
            out.push_back(static_cast<char32_t>(u));
            ++i;
        }
    }
    return true;
}

template <typename CharT>
bool dec(const std::basic_string<CharT>& s, text& out)
{
    return dec(std::basic_string_view<CharT>(s), out);
}

inline int width(char32_t c)
{
    // the documented wide ranges (C++20 [format.string.std], as the library's documentation adopts)
    static const std::uint32_t r[][2] = {
        {0x1100, 0x115F}, {0x2329, 0x232A}, {0x2E80, 0x303E}, {0x3040, 0xA4CF}, {0xAC00, 0xD7A3}, {0xF900, 0xFAFF}, {0xFE10, 0xFE19}, {0xFE30, 0xFE6F}, {0xFF00, 0xFF60}, {0xFFE0, 0xFFE6}, {0x1F300, 0x1F64F}, {0x1F900, 0x1F9FF}, {0x20000, 0x2FFFD}, {0x30000, 0x3FFFD}
    };
    for(auto& p : r)
        if(c >= p[0] && c <= p[1])
            return 2;
    return 1;
}

inline std::size_t width(std::u32string_view t)
{
    std::size_t n = 0;
    for(char32_t c : t)
        n += static_cast<std::size_t>(width(c));
    return n;
}

// ------------------------------------------------------------------ generators
inline const std::vector<char32_t>& edges()
{
    static const std::vector<char32_t> v = {
        0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x103FF, 0x10400, 0x1FFFF, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FBFF, 0x10FC00, 0x10FFFE, 0x10FFFF,
        0xA0, 0xBF, 0xC0, 0xFF, 0x100, 0x10FF, 0x1100, 0x115F, 0x1160, 0x2328, 0x2329, 0x232A, 0x232B, 0x2E7F, 0x2E80, 0x303E, 0x303F, 0x3040, 0xA4CF, 0xA4D0, 0xABFF, 0xAC00, 0xD7A3, 0xD7A4, 0xF8FF, 0xF900, 0xFAFF, 0xFB00, 0xFE0F, 0xFE10, 0xFE19, 0xFE1A, 0xFE2F, 0xFE30, 0xFE6F, 0xFE70, 0xFEFF, 0xFF00, 0xFF60, 0xFF61, 0xFFDF, 0xFFE0, 0xFFE6, 0xFFE7, 0x1F2FF, 0x1F300, 0x1F64F, 0x1F650, 0x1F8FF, 0x1F900, 0x1F9FF, 0x1FA00, 0x2FFFD, 0x2FFFE, 0x30000, 0x3FFFD, 0x3FFFE,
        0xC4, 0x4E00, 0x1F351, 0x391, 0x416, 0x5D0, 0x20AC, 0x301, 0x200B, 0x200D, 0x202E, 0x0E33
    };
    return v;
}

// any scalar value except U+0000 (unless nul); small choices are plain letters
inline char32_t gen_scalar(vp::source& s, bool nul = false)
{
    switch(s.draw(9))
    {
    case 8:
    {
        // looks like a character that means something once its upper bits are lost
        static constexpr std::u32string_view special = U"{}{}:$?'[]().!<>=^+-#0L9 \"\\nx";
        char32_t ch = special[static_cast<std::size_t>(s.draw(special.size()))];
        if(s.boolean())
            return ch + 0x10000 * static_cast<char32_t>(1 + s.draw(0x10));
        char32_t hi = static_cast<char32_t>(1 + s.draw(0xF7));
        return ch + 0x100 * (hi >= 0xD8 ? hi + 8 : hi);
    }
    case 0:
    case 1: return U'a' + static_cast<char32_t>(s.draw(26));
    case 2: return static_cast<char32_t>(1 + s.draw(0x7F));
    case 3:
    case 4: return s.pick(edges());
    case 5: return static_cast<char32_t>(0x80 + s.draw(0x780));
    case 6:
    {
        std::uint32_t v = static_cast<std::uint32_t>(0x800 + s.draw(0x10000 - 0x800 - 0x800));
        if(v >= 0xD800)
            v += 0x800;
        return static_cast<char32_t>(v);
    }
    default:
        if(nul && s.draw(6) == 5)
            return U'\0';
        return static_cast<char32_t>(0x10000 + s.draw(0x100000));
    }
}

// a scalar biased towards a small alphabet that collides often (repeats, shared prefixes)
inline char32_t gen_small(vp::source& s)
{
    static const char32_t a[] = {U'a', U'b', U'c', 0xC4, 0xC5, 0x4E00, 0x4E01, 0x1F351, 0x1F352, 0xD7FF, 0xE000, 0x10FFFF};
    return a[s.draw(12)];
}

inline text gen_text(vp::source& s, std::size_t max, bool nul = false)
{
    std::size_t n = s.small_size(max);
    bool small = s.chance(1, 3);
    text t;
    for(std::size_t i = 0; i < n; ++i)
        t.push_back(small ? gen_small(s) : gen_scalar(s, nul));
    return t;
}

inline bool mixed(std::u32string_view t)
{
    bool a = false, b = false;
    for(char32_t c : t)
        (c < 0x80 ? a : b) = true;
    return b && t.size() > 1;
}

// An exactly sized heap copy: any read past either end is an AddressSanitizer report.
template <typename CharT>
class exact
{
public:
    explicit exact(std::basic_string_view<CharT> s, bool terminate = false)
        : m_n(s.size()), m_p(new CharT[s.size() + (terminate ? 1 : 0)])
    {
        for(std::size_t i = 0; i < m_n; ++i)
            m_p[i] = s[i];
        if(terminate)
            m_p[m_n] = CharT(0);
    }

    explicit exact(const std::basic_string<CharT>& s, bool terminate = false)
        : exact(std::basic_string_view<CharT>(s), terminate) {}

    const CharT* data() const { return m_p.get(); }

    std::size_t size() const { return m_n; }

    std::basic_string_view<CharT> view() const { return {m_p.get(), m_n}; }

private:
    std::size_t m_n;
    std::unique_ptr<CharT[]> m_p;
};

template <typename CharT>
const char* tname()
{
    if constexpr(std::is_same_v<CharT, char>) return "char";
    else if constexpr(std::is_same_v<CharT, wchar_t>) return "wchar_t";
    else if constexpr(std::is_same_v<CharT, char8_t>) return "char8_t";
    else if constexpr(std::is_same_v<CharT, char16_t>) return "char16_t";
    else return "char32_t";
}

// call f.template operator()<CharT>() for the i-th character type
template <typename F>
decltype(auto) with_char(std::size_t i, F&& f)
{
    switch(i % 5)
    {
    case 0: return f.template operator()<char>();
    case 1: return f.template operator()<char16_t>();
    case 2: return f.template operator()<char32_t>();
    case 3: return f.template operator()<char8_t>();
    default: return f.template operator()<wchar_t>();
    }
}
} // namespace um

#endif
