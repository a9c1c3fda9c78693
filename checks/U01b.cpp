// U01 - histories of one code point object: whichever way it was given its character, it is that
// character for every observer, whatever it held before
#include "utfmodel.hpp"
#include <array>
#include <papilio/utf/codepoint.hpp>
#include <papilio/utf/string.hpp>
#include <span>
#include <sstream>

using namespace papilio;
using utf::codepoint;

namespace
{
std::string hex(char32_t c)
{
    char b[16];
    std::snprintf(b, sizeof b, "U+%04X", unsigned(c));
    return b;
}

// every way to read a code point
void observe(const codepoint& cp, char32_t m, const std::string& how)
{
    const std::string e = um::enc<char>(m);
    auto bad = [&](const char* what)
    { vp::fail(how + ": " + what + " (expected " + hex(m) + ", bytes " + vp::quote(std::string_view(cp)) + ")"); };
    if(cp.size_bytes() != e.size())
        bad("size_bytes");
    if(std::memcmp(cp.u8data(), e.data(), e.size()) || std::memcmp(cp.data(), e.data(), e.size()))
        bad("data");
    if(std::string_view(cp) != e || std::u8string_view(cp) != um::enc<char8_t>(m))
        bad("view");
    if(char32_t(cp) != m)
        bad("char32_t");
    auto [a8, n8] = cp.as_array();
    auto [ac, nc] = cp.as_array<char>();
    auto [au, nu] = cp.as_array<unsigned char>();
    if(n8 != e.size() || nc != e.size() || nu != e.size() || std::memcmp(a8.data(), e.data(), n8) || std::memcmp(ac.data(), e.data(), nc) || std::memcmp(au.data(), e.data(), nu))
        bad("as_array");
    if(cp.empty() != (m == 0) || bool(cp) != (m != 0))
        bad("empty");
    if(!(cp == m) || !(m == cp) || cp != m || !(cp == codepoint(m)) || (cp <=> m) != 0 || (m <=> cp) != 0 || (cp <=> codepoint(m)) != 0 || cp < m || m < cp)
        bad("comparison with itself");
    std::string o = "<";
    if(&cp.append_to(o) != &o || o != "<" + e)
        bad("append_to<char>");
    std::u16string o16 = u"<";
    cp.append_to(o16);
    if(o16 != u"<" + um::enc<char16_t>(m))
        bad("append_to<char16_t>");
    std::u32string o32;
    cp.append_to(o32);
    if(o32 != std::u32string(1, m))
        bad("append_to<char32_t>");
    char buf[8];
    if(cp.append_to_as<char>(buf) != buf + e.size() || std::string_view(buf, e.size()) != e)
        bad("append_to_as<char>");
    auto d16 = utf::decoder<char16_t>::from_codepoint(cp);
    if(std::u16string(d16.chars, d16.size) != um::enc<char16_t>(m) || d16.processed_size != e.size())
        bad("decoder<char16_t>");
    std::ostringstream os;
    os << cp;
    if(os.str() != e)
        bad("operator<<");
}
} // namespace

VP_FACET(codepoint_history, 60000, 1000000, "the object is given characters of at least two encoded lengths in at least two ways")
{
    codepoint cp{}; // (like an int, it holds nothing in particular when it is not initialised)
    char32_t m = 0;
    observe(cp, m, "default");
    std::size_t n = 1 + s.draw(8);
    unsigned lens = 0, ways = 0;
    for(std::size_t i = 0; i < n; ++i)
    {
        char32_t ch = s.chance(1, 16) ? U'\0' : um::gen_scalar(s, false);
        const std::string e = um::enc<char>(ch);
        const std::u8string e8 = um::enc<char8_t>(ch);
        // exactly the bytes of the character, so that reading past them is seen
        um::exact<char> x(e);
        um::exact<char8_t> x8(e8);
        std::uint8_t len = std::uint8_t(e.size());
        std::string how;
        unsigned w = static_cast<unsigned>(s.draw(14));
        switch(w)
        {
        case 0: how = "assign(char32_t)"; VP_CHECK(&cp.assign(ch) == &cp, how); break;
        case 1: how = "assign(char*, n)"; VP_CHECK(&cp.assign(x.data(), len) == &cp, how); break;
        case 2: how = "assign(char8_t*, n)"; VP_CHECK(&cp.assign(x8.data(), len) == &cp, how); break;
        case 3:
            how = "assign(bytes)";
            if(len == 1)
                cp.assign(e8[0]);
            else if(len == 2)
                cp.assign(e8[0], e8[1]);
            else if(len == 3)
                cp.assign(e8[0], e8[1], e8[2]);
            else
                cp.assign(e8[0], e8[1], e8[2], e8[3]);
            break;
        case 4:
        case 5:
        {
            how = w == 4 ? "assign(span)" : "span constructor";
            std::array<unsigned char, 4> a{};
            for(auto& b : a)
                b = static_cast<unsigned char>(s.draw(256));
            for(std::size_t k = 0; k < len; ++k)
                a[k] = static_cast<unsigned char>(e[k]);
            if(w == 4)
                cp.assign(std::span<const unsigned char, 4>(a));
            else if(s.boolean())
                cp = codepoint(std::span<const unsigned char, 4>(a));
            else
                cp = codepoint(std::span<unsigned char, 4>(a));
            break;
        }
        case 6: how = "char constructor"; cp = codepoint(x.data(), len); break;
        case 7: how = "char8_t constructor"; cp = codepoint(x8.data(), len); break;
        case 8: how = "char32_t constructor"; cp = codepoint(ch); break;
        case 9: how = "clear"; cp.clear(), ch = 0; break;
        case 10: how = "assign nothing"; s.boolean() ? cp.assign(x.data(), std::uint8_t(0)) : cp.assign(x8.data(), std::uint8_t(0)), ch = 0; break;
        case 11:
        {
            how = "literal operator-like front()";
            cp = utf::basic_string_ref<char>(x.view()).front();
            break;
        }
        case 12:
        {
            how = "UTF-16 decoder";
            um::exact<char16_t> u(um::enc<char16_t>(ch));
            auto r = utf::decoder<char16_t>::to_codepoint(u.view());
            VP_CHECK(r.second == u.size(), how);
            cp = r.first;
            break;
        }
        default:
        {
            how = "copy of an array";
            auto [a, k] = codepoint(ch).as_array<char>();
            cp = codepoint(a.data(), k);
        }
        }
        m = ch;
        lens |= 1u << um::enc<char>(m).size();
        ways |= 1u << w;
        c.note(how + " " + hex(m));
        observe(cp, m, how);
        codepoint copy(cp);
        observe(copy, m, how + ", copied");
        char32_t other = um::gen_scalar(s, false);
        codepoint oc(other);
        VP_CHECK((cp <=> oc) == (m <=> other) && (cp == oc) == (m == other) && (cp < other) == (m < other) && (other < cp) == (other < m) && ((other <=> cp) == (other <=> m)), how + " compared with " + hex(other));
    }
    c.nontrivial_if((lens & (lens - 1)) && (ways & (ways - 1)));
}
