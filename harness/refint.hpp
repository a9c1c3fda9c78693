// refint.hpp - reference reading of a format string: what a call must give, or how and where it must fail.
// Written on sequences of Unicode scalar values. Arguments are gf::values, lists of int and null pointers.
#ifndef REFINT_HPP
#define REFINT_HPP
#include "genfmt.hpp"
#include <charconv>

namespace ri
{
using um::text;

enum class kind
{
    text,     // a result
    script,   // format_error with a reason code (and a position)
    format,   // format_error without
    range,    // std::out_of_range
    runtime,  // std::runtime_error that is no format_error
    argument, // std::invalid_argument
    other,    // another std::exception
};

inline const char* kind_name(kind k)
{
    static const char* n[] = {"text", "script error", "format_error", "out_of_range", "runtime_error", "invalid_argument", "another exception"};
    return n[static_cast<int>(k)];
}

using code = papilio::script_error_code;

struct halt
{
    kind k;
    code ec = code::no_error;
    long pos = -1; // -1: none
};

struct unmodelled
{};

// a value, or a part of one
struct val
{
    enum
    {
        simple, // gf::value
        list,   // of int
        null,   // no value
        pointer // null pointer
    } k = simple;
    gf::value v;
    std::vector<int> l;
};

inline val of(const gf::value& v)
{
    val r;
    r.v = v;
    return r;
}

inline val of_int(long long i, unsigned k = gf::k_ll)
{
    val r;
    r.v.k = k;
    r.v.i = i;
    return r;
}

inline val of_cp(char32_t c)
{
    val r;
    r.v.k = gf::k_cp;
    r.v.c = c;
    return r;
}

inline val of_str(text t)
{
    val r;
    r.v.k = gf::k_str;
    r.v.s = std::move(t);
    return r;
}

inline val of_list(std::vector<int> l)
{
    val r;
    r.k = val::list;
    r.l = std::move(l);
    return r;
}

inline val of_null(bool ptr = false)
{
    val r;
    r.k = ptr ? val::pointer : val::null;
    return r;
}

struct interp
{
    text in;
    std::vector<val> pos;
    std::vector<std::pair<text, val>> named;
    std::size_t (*units)(const text&) = nullptr; // size of a text in code units
    bool facets = true;                          // locales know this character type

    text out{};
    bool known = true; // every part of the output so far is modelled

    std::size_t p = 0, next = 0;
    bool manual = false, nested = false;

    bool at_end() const { return p >= in.size(); }
    char32_t ch() const { return in[p]; }

    [[noreturn]] void err(code ec, std::size_t at) { throw halt{kind::script, ec, nested ? -1 : static_cast<long>(at)}; }
    [[noreturn]] void err(code ec) { err(ec, p); }
    [[noreturn]] void eos() { err(code::end_of_string); }
    [[noreturn]] static void bad(kind k = kind::format) { throw halt{k}; }

    static bool digit(char32_t c) { return U'0' <= c && c <= U'9'; }
    static bool name_ch(char32_t c) { return digit(c) || (U'A' <= c && c <= U'Z') || (U'a' <= c && c <= U'z') || c == U'_' || c >= 0x80; }
    void ws()
    {
        while(!at_end() && text(U" \n\t\r\v\f").find(ch()) != text::npos)
            ++p;
    }
    text take_name()
    {
        std::size_t b = p;
        if(!at_end() && name_ch(ch()) && !digit(ch()))
            for(++p; !at_end() && name_ch(ch());)
                ++p;
        return in.substr(b, p - b);
    }

    // ----------------------------------------------------- parts of values
    val index(const val& v, long long i)
    {
        if(v.k == val::list)
        {
            long long n = static_cast<long long>(v.l.size());
            if(i < 0)
                i += n;
            return i >= 0 && i < n ? of_int(v.l[static_cast<std::size_t>(i)], gf::k_int) : of_null();
        }
        if(v.k == val::simple && v.v.k == gf::k_str)
        {
            long long n = static_cast<long long>(v.v.s.size());
            if(i < 0)
                i += n;
            return of_cp(i >= 0 && i < n ? v.v.s[static_cast<std::size_t>(i)] : U'\0');
        }
        bad(kind::runtime);
    }

    val slice(const val& v, long long a, long long b, bool open)
    {
        auto cut = [&](long long n)
        {
            if(a < 0)
                a = a + n < 0 ? 0 : a + n;
            if(open || b > n)
                b = n;
            else if(b < 0)
                b += n;
            return a < b;
        };
        if(v.k == val::list)
        {
            if(!cut(static_cast<long long>(v.l.size())))
                return of_null();
            return of_list({v.l.begin() + a, v.l.begin() + b});
        }
        if(v.k == val::simple && v.v.k == gf::k_str)
        {
            if(!cut(static_cast<long long>(v.v.s.size())))
                return of_str({});
            return of_str(v.v.s.substr(static_cast<std::size_t>(a), static_cast<std::size_t>(b - a)));
        }
        bad(kind::runtime);
    }

    val attribute(const val& v, const text& n)
    {
        if(v.k == val::list && n == U"size")
            return of_int(static_cast<long long>(v.l.size()));
        if(v.k == val::simple && v.v.k == gf::k_str)
        {
            if(n == U"length")
                return of_int(static_cast<long long>(v.v.s.size()));
            if(n == U"size")
                return of_int(static_cast<long long>(units(v.v.s)));
        }
        bad(kind::argument);
    }

    // ----------------------------------------------------- references
    long long integer()
    {
        if(at_end())
            eos();
        bool neg = ch() == U'-';
        if(neg)
            ++p;
        if(at_end())
            eos();
        if(!digit(ch()))
            err(code::invalid_index);
        __int128 v = 0;
        bool over = false;
        for(; !at_end() && digit(ch()); ++p)
        {
            v = v * 10 + (neg ? -1 : 1) * static_cast<int>(ch() - U'0');
            if(v < std::numeric_limits<long long>::min() || v > std::numeric_limits<long long>::max())
            {
                over = true;
                v = 0;
            }
        }
        if(over)
            bad(kind::range);
        return static_cast<long long>(v);
    }

    text string() // after the opening quote
    {
        text r;
        for(; !at_end(); ++p)
        {
            char32_t c = ch();
            if(c == U'\'')
            {
                ++p;
                return r;
            }
            if(c == U'\\')
            {
                ++p;
                if(at_end())
                    err(code::invalid_string);
                c = ch();
                c = c == U'n' ? U'\n' : c == U't' ? U'\t' :
                                                    c;
            }
            r += c;
        }
        eos();
    }

    val reference()
    {
        if(at_end())
            eos();
        val v = base();
        for(;;)
        {
            if(at_end())
                return v;
            if(ch() == U'.')
            {
                ++p;
                text n = take_name();
                if(n.empty())
                    err(code::invalid_attribute);
                v = attribute(v, n);
            }
            else if(ch() == U'[')
            {
                ++p;
                if(at_end())
                    eos();
                int how = 0; // 0 number 1 slice 2 key
                long long a = 0, b = 0;
                bool open = true;
                if(ch() == U'\'')
                {
                    ++p;
                    string();
                    how = 2;
                }
                else if(ch() == U':' || ch() == U'-' || digit(ch()))
                {
                    bool from = ch() != U':';
                    if(from)
                        a = integer();
                    if(at_end())
                        eos();
                    if(ch() == U':')
                    {
                        how = 1;
                        ++p;
                        if(at_end())
                            eos();
                        if(ch() == U'-' || digit(ch()))
                        {
                            b = integer();
                            open = b == std::numeric_limits<long long>::max();
                        }
                    }
                }
                else
                    err(code::invalid_index);
                if(at_end())
                    eos();
                if(ch() != U']')
                    err(code::invalid_index);
                ++p;
                if(how == 2)
                    bad(kind::runtime); // no argument here has keys
                v = how == 0 ? index(v, a) : slice(v, a, b, open);
            }
            else
                return v;
        }
    }

    val base()
    {
        char32_t c = ch();
        if(digit(c))
        {
            std::size_t i = 0;
            for(; !at_end() && digit(ch()); ++p)
                i = i > 1000000 ? i : i * 10 + (ch() - U'0');
            manual = true;
            if(i >= pos.size())
                bad();
            return pos[i];
        }
        if(name_ch(c))
        {
            text n = take_name();
            for(auto& a : named)
                if(a.first == n)
                    return a.second;
            bad(kind::range);
        }
        if(c == U'}' || c == U':' || c == U'.' || c == U'[')
        {
            if(manual)
                bad();
            if(next >= pos.size())
            {
                ++next;
                bad(kind::range);
            }
            return pos[next++];
        }
        err(code::invalid_field_name);
    }

    // ----------------------------------------------------- specifications
    std::size_t amount(bool precision)
    {
        if(!precision && ch() == U'0')
            bad();
        if(ch() == U'{')
        {
            ++p;
            nested = true;
            val v = reference();
            if(at_end() || ch() != U'}')
                bad();
            nested = false;
            ++p;
            if(v.k != val::simple)
                bad(kind::argument);
            if(!gf::is_int(v.v) || (precision ? v.v.i < 0 : v.v.i <= 0))
                bad();
            return moderate(static_cast<std::size_t>(v.v.i));
        }
        if(!digit(ch()))
            bad();
        unsigned __int128 r = 0;
        bool over = false;
        for(; !at_end() && digit(ch()); ++p)
        {
            r = r * 10 + (ch() - U'0');
            if(r > std::numeric_limits<std::size_t>::max())
            {
                over = true;
                r = 0;
            }
        }
        if(over)
            bad();
        return moderate(static_cast<std::size_t>(r));
    }

    static std::size_t moderate(std::size_t n)
    {
        if(n > 10000)
            throw vp::discard{"asks for much memory"};
        return n;
    }

    bool stop() const { return at_end() || ch() == U'}'; }

    fm::spec specification(std::u32string_view types, bool precision)
    {
        auto is_align = [](char32_t c)
        { return c == U'<' || c == U'>' || c == U'^'; };
        fm::spec sp;
        if(stop())
            return sp;
        if(p + 1 < in.size() && is_align(in[p + 1]))
        {
            sp.fill = in[p];
            sp.align = static_cast<char>(in[p + 1]);
            p += 2;
        }
        else if(is_align(ch()))
            sp.align = static_cast<char>(in[p++]);
        if(stop())
            return sp;
        if(ch() == U'+' || ch() == U'-' || ch() == U' ')
        {
            sp.sign = static_cast<char>(ch());
            if(sp.sign == '-')
                sp.sign = 0;
            ++p;
        }
        if(stop())
            return sp;
        if(ch() == U'#')
        {
            sp.alt = true;
            ++p;
        }
        if(stop())
            return sp;
        if(ch() == U'0')
        {
            sp.zero = true;
            ++p;
        }
        if(stop())
            return sp;
        if(digit(ch()) || ch() == U'{')
            sp.width = amount(false);
        if(stop())
            return sp;
        if(ch() == U'.')
        {
            if(!precision)
                bad();
            ++p;
            if(at_end())
                bad();
            sp.precision = amount(true);
            sp.pmode = 1; // given
        }
        if(stop())
            return sp;
        if(ch() == U'L')
        {
            sp.loc = true;
            ++p;
        }
        if(stop())
            return sp;
        if(types.find(ch()) == types.npos)
            bad();
        sp.type = in[p++];
        return sp;
    }

    // reads the specification of a value and gives its text
    text present(const val& v, bool write)
    {
        if(v.k == val::null)
            bad();
        if(v.k == val::list)
        {
            if(!stop())
                throw unmodelled{};
            text r = U"[";
            for(std::size_t i = 0; i < v.l.size(); ++i)
                r += (i ? U", " : U"") + gf::num(v.l[i]);
            return r + U"]";
        }
        if(v.k == val::pointer)
        {
            fm::spec sp = specification(U"pP", false);
            if(sp.loc)
                bad();
            sp.type = sp.type == U'P' ? U'X' : U'x';
            sp.alt = true;
            return fm::integer(sp, 0);
        }
        const gf::value& g = v.v;
        bool number = gf::is_int(g) || (g.k & gf::k_floats);
        fm::spec sp = gf::is_int(g) ? specification(U"XxBbodc", false) : (g.k & gf::k_floats) ? specification(U"fFgGeEaA", true) :
                                                                     g.k == gf::k_bool        ? specification(U"sXxBbod", false) :
                                                                     g.k == gf::k_cp          ? specification(U"XxBbodc?", false) :
                                                                                                specification(U"s?", true);
        if(!write)
            return {};
        if(gf::is_int(g) && sp.type == U'c')
        {
            if(g.i < 0 || g.i > 0x10FFFF)
                bad();
            if(g.i >= 0xD800 && g.i <= 0xDFFF)
                known = false;
            return sp.zero ? (known = false, text()) : fm::pad(sp, text(1, static_cast<char32_t>(g.i)), false);
        }
        bool numeric = number || (g.k == gf::k_bool && sp.type && sp.type != U's') || (g.k == gf::k_cp && sp.type && sp.type != U'c' && sp.type != U'?');
        // not laid down by the documentation
        if(sp.type == U'?' || (sp.zero && !numeric) || (sp.alt && (sp.type == U'o' || (g.k & gf::k_floats))) || (sp.pmode && !sp.precision))
        {
            known = false;
            return {};
        }
        if(g.k == gf::k_bool && !numeric && sp.loc && !facets)
            bad(kind::other);
        if(g.k == gf::k_cp && numeric)
            return fm::integer(sp, g.c);
        try
        {
            return gf::print(sp, g);
        }
        catch(const vp::discard&)
        {
            known = false;
            return {};
        }
    }

    void replacement(bool write)
    {
        val v = reference();
        if(at_end())
            eos();
        if(ch() == U':')
            ++p;
        else if(ch() != U'}')
            err(code::unenclosed_brace);
        text t = present(v, write);
        if(write)
            out += t;
        if(at_end())
            eos();
        if(ch() != U'}')
            err(code::unenclosed_brace);
        ++p;
    }

    // ----------------------------------------------------- scripts
    gf::svalue operand()
    {
        if(at_end())
            eos();
        gf::svalue r;
        char32_t c = ch();
        if(c == U'{')
        {
            ++p;
            val v = reference();
            if(at_end())
                eos();
            if(ch() != U'}')
                err(code::unenclosed_brace);
            ++p;
            if(v.k != val::simple)
                bad(kind::argument);
            return gf::to_svalue(v.v);
        }
        if(c == U'\'')
        {
            ++p;
            r.k = 2;
            r.s = string();
            return r;
        }
        if(c == U'-' || c == U'.' || digit(c))
        {
            std::size_t b = p, e = p + (c == U'-');
            std::size_t d = e;
            while(e < in.size() && digit(in[e]))
                ++e;
            bool none = e == d;
            if(e < in.size() && in[e] == U'.')
            {
                std::size_t f = e + 1;
                while(f < in.size() && digit(in[f]))
                    ++f;
                if(none && f == e + 1)
                    err(code::invalid_condition, b);
                std::string t(in.begin() + static_cast<long>(b), in.begin() + static_cast<long>(f));
                r.k = 1;
                if(std::from_chars(t.data(), t.data() + t.size(), r.f, std::chars_format::fixed).ec != std::errc())
                    bad(kind::runtime);
                p = f;
                return r;
            }
            if(none)
                err(code::invalid_condition, b);
            r.i = integer();
            return r;
        }
        err(code::invalid_condition);
    }

    void condition_end()
    {
        ws();
        if(at_end())
            eos();
        if(ch() != U'?')
            err(code::invalid_condition);
        ++p;
    }

    bool condition()
    {
        ws();
        if(at_end())
            eos();
        if(ch() == U'!')
        {
            ++p;
            ws();
            gf::svalue v = operand();
            condition_end();
            return !gf::truth(v);
        }
        gf::svalue a = operand();
        ws();
        if(at_end())
            eos();
        char32_t c = ch();
        if(text(U"=!<>").find(c) == text::npos)
        {
            condition_end();
            return gf::truth(a);
        }
        ++p;
        int op = c == U'=' ? 0 : c == U'!' ? 1 :
                             c == U'<'     ? 2 :
                                             4; // == != < <= > >=
        if(op < 2)
        {
            if(at_end())
                eos();
            if(ch() != U'=')
                err(code::invalid_operator);
            ++p;
        }
        else if(!at_end() && ch() == U'=')
        {
            ++p;
            ++op;
        }
        ws();
        gf::svalue b = operand();
        condition_end();
        if(op < 2)
            return gf::equal(a, b) == (op == 0);
        int o = gf::order(a, b);
        if(o == 2)
            return false;
        return op == 2 ? o < 0 : op == 3 ? o <= 0 :
                             op == 4     ? o > 0 :
                                           o >= 0;
    }

    void branch(bool chosen)
    {
        ws();
        if(at_end())
            eos();
        if(ch() == U'\'')
        {
            ++p;
            if(chosen)
                out += string();
            else
                for(bool esc = false; !at_end(); esc = !esc && in[p - 1] == U'\\')
                {
                    char32_t c = in[p++];
                    if(c == U'\'' && !esc)
                        break;
                }
        }
        else if(ch() == U'{')
        {
            ++p;
            replacement(chosen);
        }
        else
            err(code::invalid_string);
        ws();
    }

    void script()
    {
        bool c = condition();
        branch(c);
        bool done = c;
        while(!at_end() && ch() == U':')
        {
            ++p;
            ws();
            if(!at_end() && ch() == U'$')
            {
                ++p;
                ws();
                c = condition();
                branch(c && !done);
                done |= c;
            }
            else
            {
                branch(!done);
                break;
            }
        }
        if(at_end())
            eos();
        if(ch() != U'}')
            err(code::unenclosed_brace);
        ++p;
    }

    void all()
    {
        while(!at_end())
        {
            char32_t c = in[p++];
            if(c == U'}')
            {
                if(at_end())
                    eos();
                if(ch() != U'}')
                    err(code::unenclosed_brace);
                ++p;
                out += U'}';
            }
            else if(c == U'{')
            {
                if(at_end())
                    eos();
                if(ch() == U'{')
                {
                    ++p;
                    out += U'{';
                }
                else if(ch() == U'$')
                {
                    ++p;
                    script();
                }
                else
                    replacement(true);
            }
            else
                out += c;
        }
    }

    halt run()
    {
        try
        {
            all();
            return {kind::text};
        }
        catch(const halt& h)
        {
            return h;
        }
    }
};
} // namespace ri
#endif
