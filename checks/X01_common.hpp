// X01 - all character types give the same text
#ifndef X01_COMMON_HPP
#define X01_COMMON_HPP
#define FM_XCHAR
#include "mutfmt.hpp"

using gf::builder;
using gf::text;

// What a call did, in Unicode characters
struct outcome
{
    text out{};
    bool failed = false;
    std::string why{}; // for messages only

    friend bool operator==(const outcome& a, const outcome& b)
    {
        return a.failed == b.failed && (a.failed || a.out == b.out);
    }

    std::string show() const { return failed ? "an error (" + why + ")" : vp::quote(um::enc<char>(out)); }
};

// The call in one character type. The arguments are drawn from s: the same choices for all.
template <typename CharT>
outcome with_zoo(vp::source& s, std::size_t n_args, const text& fmt, std::string* kinds);

template <typename CharT>
outcome with_program(const builder& b);


#define X01_EACH(M) M(char) M(wchar_t) M(char8_t) M(char16_t) M(char32_t)
#define X01_DECL(T)                                                                                \
    extern template outcome with_zoo<T>(vp::source&, std::size_t, const text&, std::string*);      \
    extern template outcome with_program<T>(const builder&);
#endif
