// F04 - debug presentation escapes text losslessly
#include "fmtmodel.hpp"
#include <list>
#include <vector>

using namespace papilio;

namespace
{
template <typename CharT>
struct item
{
    std::basic_string<CharT> units;
    bool valid;
    char32_t ch = 0;
};

// Splits any sequence of units into characters and invalid units (one item per maximal
// invalid subsequence; each unit of it is shown on its own).
template <typename CharT>
std::vector<item<CharT>> split(const std::basic_string<CharT>& u)
{
    std::vector<item<CharT>> r;
    std::size_t i = 0;
    while(i < u.size())
    {
        bool ok = false;
        std::size_t lim = sizeof(CharT) == 1 ? 4 : sizeof(CharT) == 2 ? 2 :
                                                                        1;
        for(std::size_t n = 1; n <= lim && i + n <= u.size(); ++n)
        {
            um::text t;
            auto sub = u.substr(i, n);
            if(um::dec(sub, t) && t.size() == 1)
            {
                r.push_back({sub, true, t[0]});
                i += n;
                ok = true;
                break;
            }
        }
        if(!ok)
        {
            r.push_back({u.substr(i, 1), false});
            ++i;
        }
    }
    return r;
}

template <typename CharT>
std::uint32_t unit(CharT c)
{
    if constexpr(sizeof(CharT) == 1)
        return static_cast<unsigned char>(c);
    else if constexpr(sizeof(CharT) == 2)
        return static_cast<std::uint16_t>(c);
    else
        return static_cast<std::uint32_t>(c);
}

template <typename CharT>
std::basic_string<CharT> escape(const std::basic_string<CharT>& u, char32_t quote)
{
    std::basic_string<CharT> r;
    for(auto& it : split(u))
    {
        fm::text e;
        if(!it.valid)
            e = U"\\x{" + fm::radix(unit(it.units[0]), 16, false) + U"}";
        else if(it.ch == U'\t')
            e = U"\\t";
        else if(it.ch == U'\n')
            e = U"\\n";
        else if(it.ch == U'\r')
            e = U"\\r";
        else if(it.ch == U'\\')
            e = U"\\\\";
        else if(it.ch == quote)
            e = fm::text(U"\\") + quote;
        else if(it.ch < 0x20 || it.ch == 0x7F)
            e = U"\\u{" + fm::radix(it.ch, 16, false) + U"}";
        if(e.empty())
            r += it.units;
        else
            r += um::enc<CharT>(e);
    }
    return r;
}

// the inverse, on units
template <typename CharT>
std::basic_string<CharT> unescape(const std::basic_string<CharT>& u)
{
    std::basic_string<CharT> r;
    for(std::size_t i = 0; i < u.size();)
    {
        if(u[i] != CharT('\\'))
        {
            r += u[i++];
            continue;
        }
        VP_CHECK(i + 1 < u.size(), "output ends in an escape: " + vp::quote(u));
        char k = static_cast<char>(u[i + 1]);
        i += 2;
        switch(k)
        {
        case 't': r += CharT('\t'); break;
        case 'n': r += CharT('\n'); break;
        case 'r': r += CharT('\r'); break;
        case '\\': r += CharT('\\'); break;
        case '"': r += CharT('"'); break;
        case '\'': r += CharT('\''); break;
        case 'u':
        case 'x':
        {
            VP_CHECK(i < u.size() && u[i] == CharT('{'), "escape without brace: " + vp::quote(u));
            ++i;
            std::uint32_t v = 0;
            unsigned n = 0;
            while(i < u.size() && u[i] != CharT('}'))
            {
                char d = static_cast<char>(u[i]);
                VP_CHECK((d >= '0' && d <= '9') || (d >= 'a' && d <= 'f'), "bad digit in an escape: " + vp::quote(u));
                v = v * 16 + static_cast<std::uint32_t>(d <= '9' ? d - '0' : d - 'a' + 10);
                ++i;
                ++n;
            }
            VP_CHECK(i < u.size() && n > 0, "unterminated escape: " + vp::quote(u));
            ++i;
            if(k == 'u')
                r += um::enc<CharT>(static_cast<char32_t>(v));
            else
                r += static_cast<CharT>(v);
            break;
        }
        default: vp::fail("unknown escape in " + vp::quote(u));
        }
    }
    return r;
}

char32_t gen_ch(vp::source& s)
{
    switch(s.draw(5))
    {
    case 0: return s.pick({U'\t', U'\n', U'\r', U'\\', U'"', U'\''});
    case 1: return static_cast<char32_t>(s.draw(0x20));
    case 2: return s.pick({U'\x7F', U'u', U'x', U'{', U'}', U'\x80', U'\x85', U'\x9F', U'\xA0', U'\x1F', U' ', U'n', U't', U'0', U'a'});
    default: return um::gen_scalar(s, true);
    }
}

template <typename CharT>
std::basic_string<CharT> gen_units(vp::source& s, bool ill, bool& has_ill)
{
    std::basic_string<CharT> r;
    std::size_t n = s.small_size(10);
    for(std::size_t i = 0; i < n; ++i)
    {
        if(ill && s.chance(1, 3))
        {
            has_ill = true;
            if constexpr(sizeof(CharT) == 1)
            {
                switch(s.draw(4))
                {
                case 0: r += static_cast<CharT>(0x80 + s.draw(0x80)); break;
                case 1: // a cut character
                {
                    auto e = um::enc<CharT>(static_cast<char32_t>(0x80 + s.draw(0xD000)));
                    r += e.substr(0, 1 + s.draw(e.size()));
                    break;
                }
                case 2: // overlong forms, surrogates, beyond U+10FFFF
                    for(unsigned char b : s.pick({std::string("\xC0\x80"), std::string("\xC1\xBF"), std::string("\xE0\x80\x80"), std::string("\xE0\x9F\xBF"), std::string("\xED\xA0\x80"), std::string("\xED\xBF\xBF"), std::string("\xF0\x80\x80\x80"), std::string("\xF0\x8F\xBF\xBF"), std::string("\xF4\x90\x80\x80"), std::string("\xF5\x80\x80\x80"), std::string("\xF7\xBF\xBF\xBF"), std::string("\xC0\x8A"), std::string("\xFF"), std::string("\xF8\x88\x80\x80\x80")}))
                        r += static_cast<CharT>(b);
                    break;
                default:
                {
                    auto e = um::enc<CharT>(static_cast<char32_t>(0x10000 + s.draw(0x100000)));
                    r += e.substr(0, 1 + s.draw(3));
                    break;
                }
                }
            }
            else
            {
                std::uint32_t v = static_cast<std::uint32_t>(0xD800 + s.draw(0x800));
                if(sizeof(CharT) == 4 && s.chance(1, 3))
                    v = static_cast<std::uint32_t>(s.boolean() ? 0x110000 + s.draw(3) : s.draw(0));
                r += static_cast<CharT>(v);
            }
        }
        else
            r += um::enc<CharT>(gen_ch(s));
    }
    return r;
}

template <typename CharT>
void check(const std::basic_string<CharT>& got, const std::basic_string<CharT>& u, char32_t quote, bool mask = true)
{
    auto back = unescape(got);
    VP_CHECK(back == u, "undoing the escapes of " + vp::quote(got) + " gives " + vp::quote(back));
    auto want = escape(u, quote);
    VP_CHECK(got == want, "got " + vp::quote(got) + ", expected " + vp::quote(want));
}

template <typename CharT>
bool has_special(const std::basic_string<CharT>& u)
{
    return escape(u, U'"') != u;
}

template <typename CharT>
void strings(vp::source& s, vp::ctx& c, bool ill)
{
    bool has_ill = false;
    auto u = gen_units<CharT>(s, ill, has_ill);
    c.note(std::string(um::tname<CharT>()) + " " + vp::quote(u));
    um::exact<CharT> e(u), fe(um::enc<CharT>(U"<{:?}>"));
    c.nontrivial_if(u.size() > 1 && (ill ? has_ill : has_special(u)));
    std::basic_string<CharT> got;
    switch(s.draw(3))
    {
    case 0: got = fm::vcall<CharT>(U"<{:?}>", e.view()); break;
    case 1: got = fm::vcall<CharT>(U"<{0:?}>", u); break;
    default:
    {
        utf::basic_string_container<CharT> k(independent, e.view());
        got = fm::vcall<CharT>(U"<{:?}>", k);
        break;
    }
    }
    VP_CHECK(got.size() >= 2 && got.front() == CharT('<') && got.back() == CharT('>'), "surroundings changed");
    check<CharT>(got.substr(1, got.size() - 2), u, U'"');
}

template <typename CharT>
void ranges(vp::source& s, vp::ctx& c)
{
    bool has_ill = false;
    auto u = gen_units<CharT>(s, false, has_ill);
    c.note(std::string("range of ") + um::tname<CharT>() + " " + vp::quote(u));
    c.nontrivial_if(u.size() > 1 && has_special(u));
    if constexpr(sizeof(CharT) == 1)
    {
        std::vector<utf::codepoint> v;
        um::text t;
        um::dec(u, t);
        for(char32_t ch : t)
            v.push_back(utf::codepoint(ch));
        check<CharT>(fm::vcall<CharT>(U"{:?s}", v), u, U'"');
        auto plain = fm::vcall<CharT>(U"{:s}", v);
        VP_CHECK(plain == u, "string presentation: " + vp::quote(plain));
    }
    else
    {
        std::list<CharT> v(u.begin(), u.end());
        check<CharT>(fm::vcall<CharT>(U"{:?s}", v), u, U'"');
        auto plain = fm::vcall<CharT>(U"{:s}", v);
        VP_CHECK(plain == u, "string presentation: " + vp::quote(plain));
    }
}
} // namespace

