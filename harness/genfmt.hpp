// genfmt.hpp - generates whole format strings together with their arguments and the expected
// text. The expected text is computed while generating, from the documented grammar; nothing
// of the library's parser is used.
#ifndef GENFMT_HPP
#define GENFMT_HPP
#include "fmtmodel.hpp"
#include <charconv>
#include <cmath>
#include <functional>
#include <optional>

namespace gf
{
using um::text;

enum kind : unsigned
{
    k_i8 = 1,
    k_u16 = 2,
    k_int = 4,
    k_uint = 8,
    k_ll = 16,
    k_ull = 32, // at most INT64_MAX (see the known finding of S02 for larger ones)
    k_float = 64,
    k_double = 128,
    k_bool = 256,
    k_cp = 512,
    k_str = 1024,
    k_width = 2048, // an integer usable as a nested width or precision
    k_ints = k_i8 | k_u16 | k_int | k_uint | k_ll | k_ull | k_width,
    k_floats = k_float | k_double,
    k_any = 4095,
    k_user = 4096, // a type of the harness (given in pos or named beforehand)
};

struct value
{
    unsigned k = k_int;
    long long i = 0;
    double f = 0;
    char32_t c = 0;
    text s;
    unsigned flavour = 0; // how it is handed over (kind of string, type of width)
};

inline bool is_int(const value& v) { return v.k & k_ints; }

// the text of a number written in a format string
inline text num(long long v)
{
    std::string t = std::to_string(v);
    return text(t.begin(), t.end());
}

inline text ascii(std::string_view v) { return text(v.begin(), v.end()); }

inline std::string show(const value& v)
{
    if(v.k == k_str)
        return vp::quote(um::enc<char>(v.s));
    if(v.k == k_cp)
        return "'" + um::enc<char>(v.c) + "'";
    if(v.k == k_bool)
        return v.i ? "true" : "false";
    if(v.k & k_floats)
    {
        char b[64];
        std::snprintf(b, sizeof b, "%a", v.f);
        return b;
    }
    return std::to_string(v.i);
}

inline value gen_value(vp::source& s, unsigned mask, std::size_t max_text = 12)
{
    static constexpr unsigned kinds[] = {k_int, k_str, k_double, k_bool, k_cp, k_i8, k_u16, k_uint, k_ll, k_ull, k_float, k_width};
    std::vector<unsigned> ok;
    for(unsigned k : kinds)
        if(k & mask)
            ok.push_back(k);
    value v;
    v.k = ok[s.draw(ok.size())];
    switch(v.k)
    {
    case k_int: v.i = fm::gen_int<int>(s); break;
    case k_i8: v.i = fm::gen_int<signed char>(s); break;
    case k_u16: v.i = fm::gen_int<unsigned short>(s); break;
    case k_uint: v.i = fm::gen_int<unsigned int>(s); break;
    case k_ll: v.i = fm::gen_int<long long>(s); break;
    case k_ull: v.i = fm::gen_int<long long>(s) & 0x7FFFFFFFFFFFFFFF; break;
    case k_width:
        v.i = s.range(1, 30);
        v.flavour = static_cast<unsigned>(s.draw(4));
        break;
    case k_bool: v.i = s.boolean(); break;
    case k_float:
    case k_double:
        switch(s.draw(6))
        {
        case 0: v.f = static_cast<double>(s.range(-20, 20)); break;
        case 1: v.f = static_cast<double>(s.range(-4000, 4000)) / 64; break;
        case 2: v.f = static_cast<double>(s.range(-4000, 4000)) / 100; break;
        case 3: v.f = s.pick({0.0, -0.0, 1e10, 1e-10, 3.14, 1.0 / 3, 123456789.0}); break;
        case 4: v.f = s.pick({HUGE_VAL, -HUGE_VAL, std::nan("")}); break;
        default: v.f = std::ldexp(static_cast<double>(s.range(-100000, 100000)), static_cast<int>(s.range(-20, 20))); break;
        }
        if(v.k == k_float)
            v.f = static_cast<float>(v.f);
        break;
    case k_cp:
        // a narrow char argument only stands for an ASCII character
        v.c = um::gen_scalar(s);
        v.flavour = static_cast<unsigned>(s.draw(3));
        break;
    default:
        v.s = um::gen_text(s, max_text);
        v.flavour = static_cast<unsigned>(s.draw(4));
        break;
    }
    return v;
}

// digits of a floating-point value by the standard conversion (see F02)
template <typename T>
text float_digits(T v, char32_t type, std::size_t prec)
{
    char buf[512];
    bool upper = type == U'F' || type == U'E' || type == U'G' || type == U'A';
    std::chars_format f = std::chars_format::general;
    switch(type)
    {
    case U'f':
    case U'F': f = std::chars_format::fixed; break;
    case U'e':
    case U'E': f = std::chars_format::scientific; break;
    case U'a':
    case U'A': f = std::chars_format::hex; break;
    default: break;
    }
    std::to_chars_result r{};
    if(prec)
        r = std::to_chars(buf, buf + sizeof buf, v, f, static_cast<int>(prec));
    else if(type == 0)
        r = std::to_chars(buf, buf + sizeof buf, v);
    else if(f == std::chars_format::hex)
        r = std::to_chars(buf, buf + sizeof buf, v, f);
    else
        r = std::to_chars(buf, buf + sizeof buf, v, f, 6);
    if(r.ec != std::errc())
        throw vp::discard{"longer than the oracle's buffer"};
    text t;
    for(char* q = buf; q != r.ptr; ++q)
        t += static_cast<char32_t>(upper && *q >= 'a' && *q <= 'z' ? *q - 32 : *q);
    return t;
}

inline text print_float(const fm::spec& sp, const value& v)
{
    bool upper = sp.type == U'F' || sp.type == U'E' || sp.type == U'G' || sp.type == U'A';
    bool neg = std::signbit(v.f);
    if(std::isinf(v.f))
        return fm::number(sp, neg, U"", upper ? U"INF" : U"inf", false);
    if(std::isnan(v.f))
        return fm::number(sp, neg, U"", upper ? U"NAN" : U"nan", false);
    double a = neg ? -v.f : v.f;
    return fm::number(sp, neg, U"", v.k == k_float ? float_digits(static_cast<float>(a), sp.type, sp.precision) : float_digits(a, sp.type, sp.precision));
}

inline text cut(const text& t, std::size_t prec)
{
    std::size_t w = 0, i = 0;
    while(i < t.size() && w + static_cast<std::size_t>(um::width(t[i])) <= prec)
        w += static_cast<std::size_t>(um::width(t[i++]));
    return t.substr(0, i);
}

// the text of a value under a specification
inline text print(const fm::spec& sp, const value& v)
{
    if(is_int(v))
        return fm::integer(sp, v.i);
    if(v.k & k_floats)
        return print_float(sp, v);
    if(v.k == k_bool)
    {
        if(sp.type && sp.type != U's')
            return fm::integer(sp, v.i);
        return fm::pad(sp, v.i ? U"true" : U"false", false);
    }
    if(v.k == k_cp)
        return fm::pad(sp, text(1, v.c), false);
    return fm::pad(sp, sp.precision ? cut(v.s, sp.precision) : v.s, false);
}

// what a condition sees
struct svalue
{
    int k = 0; // 0 integer or boolean, 1 single precision number, 2 text
    long long i = 0;
    float f = 0;
    text s;
};

inline svalue to_svalue(const value& v)
{
    svalue r;
    if(is_int(v) || v.k == k_bool)
        r.i = v.i;
    else if(v.k & k_floats)
    {
        r.k = 1;
        r.f = static_cast<float>(v.f);
    }
    else
    {
        r.k = 2;
        r.s = v.k == k_cp ? text(1, v.c) : v.s;
    }
    return r;
}

inline bool truth(const svalue& v)
{
    return v.k == 0 ? v.i != 0 : v.k == 1 ? v.f != 0 :
                                            !v.s.empty();
}

inline bool equal(const svalue& a, const svalue& b)
{
    if(a.k == 2 || b.k == 2)
        return a.k == b.k && a.s == b.s;
    if(a.k == 0 && b.k == 0)
        return a.i == b.i;
    float x = a.k ? a.f : static_cast<float>(a.i), y = b.k ? b.f : static_cast<float>(b.i);
    return x == y || std::abs(x - y) < std::numeric_limits<float>::epsilon();
}

// -1 0 1, or 2 when unordered
inline int order(const svalue& a, const svalue& b)
{
    if(a.k == 2 || b.k == 2)
        return a.k != b.k ? 2 : a.s < b.s ? -1 :
                                  b.s < a.s;
    if(a.k == 0 && b.k == 0)
        return a.i < b.i ? -1 : b.i < a.i;
    float x = a.k ? a.f : static_cast<float>(a.i), y = b.k ? b.f : static_cast<float>(b.i);
    if(std::isnan(x) || std::isnan(y))
        return 2;
    return x < y ? -1 : y < x;
}

// Generates a format string, its arguments and the expected result, left to right.
struct builder
{
    vp::source& s;
    text fmt{};
    text out{};
    std::vector<value> pos{};
    std::vector<std::pair<text, value>> named{};
    bool fixed = false;   // the arguments are given: none may be added
    bool manual = false;  // an explicit number was used
    std::size_t next = 0; // next automatic number
    bool emit = true;     // inside a chosen branch (or outside of scripts)
    bool uppercase_names = true;
    std::size_t max_text = 12;

    unsigned n_fields = 0, n_auto = 0, n_manual = 0, n_named = 0, n_nested = 0, n_scripts = 0, n_skipped = 0, n_literals = 0, n_braces = 0, n_ops = 0, n_strings = 0, n_escapes = 0, n_chains = 0;

    std::function<value()> user_value{};
    std::function<void(builder&)> extra{}; // writes another kind of replacement field

    explicit builder(vp::source& src)
        : s(src) {}

    void put(const text& t)
    {
        if(emit)
            out += t;
    }

    text gen_name()
    {
        static const text first = U"abcxyzABCXYZ_\u00C4\u4E00\U0001F351mMnN";
        static const text rest = first + U"0123456789";
        for(int tries = 0; tries < 50; ++tries)
        {
            text r(1, first[s.draw(first.size())]);
            for(std::size_t n = s.small_size(5); n > 0; --n)
                r += rest[s.draw(rest.size())];
            bool used = false;
            for(auto& p : named)
                used |= p.first == r;
            if(!used)
                return r;
        }
        throw vp::discard{"no fresh name"};
    }

    value fresh(unsigned mask) { return mask == k_user ? user_value() : gen_value(s, mask, max_text); }

    // Appends a reference to an argument of one of these kinds; gives its value.
    value ref(unsigned mask)
    {
        for(int tries = 0; tries < 20; ++tries)
        {
            switch(s.draw(3))
            {
            case 0: // automatic
                if(manual)
                    break;
                if(next < pos.size() ? !(pos[next].k & mask) : fixed)
                    break;
                if(next == pos.size())
                    pos.push_back(fresh(mask));
                ++n_auto;
                return pos[next++];
            case 1: // explicit number
            {
                std::size_t i = s.draw(pos.size() + 1);
                if(i == pos.size())
                {
                    if(fixed || pos.size() >= 12)
                        break;
                    pos.push_back(fresh(mask));
                }
                if(!(pos[i].k & mask))
                    break;
                manual = true;
                ++n_manual;
                fmt += num(static_cast<long long>(i));
                return pos[i];
            }
            default:
            {
                std::size_t i = s.draw(named.size() + 1);
                if(i == named.size())
                {
                    if(fixed || named.size() >= 8)
                        break;
                    text n = gen_name();
                    named.emplace_back(n, fresh(mask));
                }
                if(!(named[i].second.k & mask))
                    break;
                ++n_named;
                fmt += named[i].first;
                return named[i].second;
            }
            }
        }
        for(auto& [n, v] : named)
            if(v.k & mask)
            {
                ++n_named;
                fmt += n;
                return v;
            }
        throw vp::discard{"no argument of that kind"};
    }

    // ------------------------------------------------------- literal text
    text gen_literal(std::size_t max)
    {
        text r;
        for(std::size_t n = s.small_size(max); n > 0; --n)
        {
            switch(s.draw(5))
            {
            case 0: r += s.pick({U'{', U'}'}); break;
            case 1: r += s.pick({U'$', U'\\', U'\'', U'"', U':', U'[', U']', U'.', U'?', U'!', U' ', U'\n', U'%', U'0', U'\0'}); break;
            default: r += um::gen_scalar(s, true); break;
            }
        }
        return r;
    }

    void literal(const text& t)
    {
        ++n_literals;
        for(char32_t c : t)
        {
            fmt += c;
            if(c == U'{' || c == U'}')
            {
                fmt += c;
                ++n_braces;
            }
        }
        put(t);
    }

    // ------------------------------------------------------- replacement field
    std::size_t nested(std::size_t max)
    {
        if(s.chance(2, 3))
        {
            std::size_t w = 1 + s.small_size(max - 1);
            fmt += num(static_cast<long long>(w));
            return w;
        }
        fmt += U'{';
        value v = ref(k_width);
        fmt += U'}';
        ++n_nested;
        return static_cast<std::size_t>(v.i);
    }

    // Appends a specification fitting the value.
    fm::spec gen_spec(const value& v)
    {
        fm::spec sp;
        if(s.chance(1, 2))
        {
            sp.align = s.pick({'<', '>', '^'});
            if(s.boolean())
            {
                sp.fill = fm::gen_fill(s);
                fmt += sp.fill;
            }
            fmt += static_cast<char32_t>(sp.align);
        }
        bool number = is_int(v) || (v.k & k_floats);
        if(number && s.chance(1, 3))
        {
            sp.sign = s.pick({'+', '-', ' '});
            fmt += static_cast<char32_t>(sp.sign);
        }
        if(is_int(v) && s.chance(1, 3))
        {
            sp.alt = true;
            fmt += U'#';
        }
        if(number && s.chance(1, 4))
        {
            sp.zero = true;
            fmt += U'0';
        }
        if(s.chance(1, 2))
            sp.width = nested(30);
        if((v.k & (k_floats | k_str)) && s.chance(1, 3))
        {
            fmt += U'.';
            sp.precision = nested(14);
        }
        if(s.chance(1, 2))
        {
            std::u32string_view types = is_int(v) ? U"dbBoxX" : v.k & k_floats ? U"fFeEgGaA" : v.k == k_bool ? U"s" : v.k == k_cp ? U"c" : U"s";
            sp.type = types[s.draw(types.size())];
            fmt += sp.type;
        }
        // octal zero with '#' is outside the documented cases
        if(is_int(v) && v.i == 0 && sp.alt && sp.type == U'o')
            throw vp::discard{"octal zero with a prefix"};
        return sp;
    }

    // Sometimes continues a reference to a string with an access; gives the accessed value.
    value chain(value v)
    {
        while(v.k == k_str && s.chance(1, 6))
        {
            ++n_chains;
            value r;
            std::size_t n = v.s.size();
            switch(s.draw(3))
            {
            case 0:
                fmt += U".length";
                r.k = k_ull;
                r.i = static_cast<long long>(n);
                break;
            case 1:
            {
                if(n == 0)
                    return v;
                std::size_t i = s.draw(n);
                fmt += U'[' + num(s.boolean() ? static_cast<long long>(i) : static_cast<long long>(i) - static_cast<long long>(n)) + U']';
                r.k = k_cp;
                r.c = v.s[i];
                break;
            }
            default:
            {
                std::size_t a = s.draw(n + 1), e = a + s.draw(n - a + 1);
                bool to_end = s.boolean(), from_start = s.boolean();
                if(to_end)
                    e = n;
                if(from_start)
                    a = 0;
                fmt += U'[' + (from_start ? U"" : num(static_cast<long long>(a))) + U':' + (to_end ? U"" : num(static_cast<long long>(e))) + U']';
                r.k = k_str;
                r.s = v.s.substr(a, e - a);
                break;
            }
            }
            v = r;
        }
        return v;
    }

    void field()
    {
        ++n_fields;
        if(extra && s.boolean())
            return extra(*this);
        fmt += U'{';
        value v = chain(ref(k_any));
        fm::spec sp;
        if(s.chance(2, 3))
        {
            fmt += U':';
            sp = gen_spec(v);
        }
        fmt += U'}';
        put(print(sp, v));
    }

    // ------------------------------------------------------- scripts
    void ws()
    {
        if(s.chance(1, 2))
            return;
        for(std::size_t n = 1 + s.small_size(2); n > 0; --n)
            fmt += s.pick({U' ', U' ', U'\t', U'\n', U'\r', U'\v', U'\f'});
    }

    text gen_constant()
    {
        text t;
        for(std::size_t n = s.small_size(8); n > 0; --n)
        {
            if(s.chance(1, 4))
                t += s.pick({U'\'', U'\\', U'{', U'}', U':', U'?', U'$', U'\n', U'\t', U'"', U'n', U't'});
            else
                t += um::gen_scalar(s);
        }
        return t;
    }

    void string_constant(const text& t)
    {
        ++n_strings;
        fmt += U'\'';
        for(char32_t c : t)
        {
            if(c == U'\'' || c == U'\\')
            {
                fmt += U'\\';
                fmt += c;
                ++n_escapes;
            }
            else if((c == U'\n' || c == U'\t') && s.boolean())
            {
                fmt += c == U'\n' ? U"\\n" : U"\\t";
                ++n_escapes;
            }
            else if(c != U'n' && c != U't' && s.chance(1, 8))
            {
                fmt += U'\\'; // any other character stands for itself
                fmt += c;
                ++n_escapes;
            }
            else
                fmt += c;
        }
        fmt += U'\'';
    }

    // Appends an operand; near: a value the operand should often collide with.
    svalue operand(const svalue* near = nullptr)
    {
        if(s.boolean())
        {
            fmt += U'{';
            value v = chain(ref(k_any));
            fmt += U'}';
            return to_svalue(v);
        }
        svalue r;
        bool close = near && s.chance(2, 3);
        switch(close ? near->k : static_cast<int>(s.draw(3)))
        {
        case 0:
            r.i = close ? near->i : fm::gen_int<long long>(s);
            if(close && s.boolean() && r.i > std::numeric_limits<long long>::min() + 2 && r.i < std::numeric_limits<long long>::max() - 2)
                r.i += s.range(-1, 1);
            fmt += num(r.i);
            break;
        case 1:
        {
            // a decimal constant: what is written is what the standard conversion reads
            std::string t;
            if(close && std::isfinite(near->f) && std::abs(near->f) < 1e6f)
            {
                char b[64];
                std::snprintf(b, sizeof b, "%.*f", static_cast<int>(s.range(1, 9)), static_cast<double>(near->f));
                t = b;
            }
            else
            {
                if(s.boolean())
                    t += '-';
                if(s.chance(5, 6))
                    t += std::to_string(s.draw(s.pick({10, 1000, 100000000})));
                t += '.';
                if(t == "." || t == "-." || s.chance(5, 6))
                    t += std::to_string(s.draw(s.pick({10, 1000, 100000000})));
            }
            r.k = 1;
            auto res = std::from_chars(t.data(), t.data() + t.size(), r.f, std::chars_format::fixed);
            if(res.ec != std::errc())
                throw vp::discard{"constant out of range"};
            fmt += ascii(t);
            break;
        }
        default:
            r.k = 2;
            r.s = close ? near->s : gen_constant();
            if(close && s.boolean())
            {
                if(!r.s.empty() && s.boolean())
                    r.s.pop_back();
                else
                    r.s += um::gen_scalar(s);
            }
            string_constant(r.s);
            break;
        }
        return r;
    }

    // Appends a condition with its '?'.
    bool condition()
    {
        ws();
        bool r;
        switch(s.draw(4))
        {
        case 0:
        {
            r = truth(operand());
            ws();
            break;
        }
        case 1:
        {
            fmt += U'!';
            ws();
            r = !truth(operand());
            ws();
            ++n_ops;
            break;
        }
        default:
        {
            svalue a = operand();
            ws();
            static const char* ops[] = {"==", "!=", "<", ">", "<=", ">="};
            std::size_t op = s.draw(6);
            fmt += ascii(ops[op]);
            ws();
            svalue b = operand(&a);
            ws();
            ++n_ops;
            int o = order(a, b);
            bool eq = equal(a, b);
            switch(op)
            {
            case 0: r = eq; break;
            case 1: r = !eq; break;
            case 2: r = o == -1; break;
            case 3: r = o == 1; break;
            case 4: r = o == -1 || o == 0; break;
            default: r = o == 1 || o == 0; break;
            }
            break;
        }
        }
        fmt += U'?';
        return r;
    }

    void result(bool chosen)
    {
        ws();
        bool saved = emit;
        emit = emit && chosen;
        if(!chosen)
            ++n_skipped;
        if(s.boolean())
        {
            text t = gen_constant();
            string_constant(t);
            put(t);
        }
        else
            field();
        emit = saved;
        ws();
    }

    void script()
    {
        ++n_scripts;
        fmt += U"{$";
        bool done = condition();
        result(done);
        for(std::size_t n = s.small_size(3); n > 0; --n)
        {
            fmt += U':';
            ws();
            fmt += U'$';
            bool cnd = condition();
            result(cnd && !done);
            done |= cnd;
        }
        if(s.boolean())
        {
            fmt += U':';
            result(!done);
        }
        fmt += U'}';
    }

    // A whole format string. weights: literal, field, script
    void program(std::size_t max_pieces, unsigned wl, unsigned wf, unsigned wsc)
    {
        for(std::size_t n = 1 + s.small_size(max_pieces - 1); n > 0; --n)
        {
            std::uint64_t r = s.draw(wl + wf + wsc);
            if(r < wl)
                literal(gen_literal(8));
            else if(r < wl + wf)
                field();
            else
                script();
        }
    }

    std::string note() const
    {
        std::string r = vp::quote(um::enc<char>(fmt)) + " with (";
        for(auto& v : pos)
            r += show(v) + ", ";
        for(auto& [n, v] : named)
            r += um::enc<char>(n) + "=" + show(v) + ", ";
        return r + ")";
    }
};

// The arguments of a program, encoded and collected in a dynamic argument list.
// Strings are handed over as views of exactly sized blocks, owned strings or string references.
template <typename CharT>
struct holder
{
    using ctx_t = papilio::basic_format_context<papilio::format_iterator_for<CharT>, CharT>;
    std::vector<std::unique_ptr<um::exact<CharT>>> mem;
    std::vector<std::unique_ptr<std::basic_string<CharT>>> strings;

    std::basic_string_view<CharT> view(const text& t)
    {
        mem.push_back(std::make_unique<um::exact<CharT>>(um::enc<CharT>(t)));
        return mem.back()->view();
    }

    const std::basic_string<CharT>& string(const text& t)
    {
        strings.push_back(std::make_unique<std::basic_string<CharT>>(um::enc<CharT>(t)));
        return *strings.back();
    }

    // calls f with a reference to an lvalue of the argument's own type
    template <typename F>
    void with(const value& v, F&& f)
    {
        switch(v.k)
        {
        case k_i8:
        {
            auto x = static_cast<signed char>(v.i);
            return f(x);
        }
        case k_u16:
        {
            auto x = static_cast<unsigned short>(v.i);
            return f(x);
        }
        case k_int:
        {
            auto x = static_cast<int>(v.i);
            return f(x);
        }
        case k_uint:
        {
            auto x = static_cast<unsigned>(v.i);
            return f(x);
        }
        case k_ll:
        {
            long long x = v.i;
            return f(x);
        }
        case k_ull:
        {
            auto x = static_cast<unsigned long long>(v.i);
            return f(x);
        }
        case k_width:
            if(v.flavour == 0)
            {
                int x = static_cast<int>(v.i);
                return f(x);
            }
            if(v.flavour == 1)
            {
                unsigned long x = static_cast<unsigned long>(v.i);
                return f(x);
            }
            if(v.flavour == 2)
            {
                signed char x = static_cast<signed char>(v.i);
                return f(x);
            }
            else
            {
                long long x = v.i;
                return f(x);
            }
        case k_float:
        {
            auto x = static_cast<float>(v.f);
            return f(x);
        }
        case k_double:
        {
            double x = v.f;
            return f(x);
        }
        case k_bool:
        {
            bool x = v.i != 0;
            return f(x);
        }
        case k_cp:
            if(v.flavour == 1)
            {
                char32_t x = v.c;
                return f(x);
            }
            if(v.flavour == 2 && v.c < 0x80)
            {
                CharT x = static_cast<CharT>(v.c);
                return f(x);
            }
            else
            {
                papilio::utf::codepoint x(v.c);
                return f(x);
            }
        default:
            if(v.flavour == 0)
            {
                std::basic_string_view<CharT> x = view(v.s);
                return f(x);
            }
            if(v.flavour == 1)
            {
                const std::basic_string<CharT>& x = string(v.s);
                return f(x);
            }
            if(v.flavour == 2 && v.s.find(U'\0') == text::npos)
            {
                mem.push_back(std::make_unique<um::exact<CharT>>(um::enc<CharT>(v.s), true));
                const CharT* x = mem.back()->data();
                return f(x);
            }
            else
            {
                papilio::utf::basic_string_ref<CharT> x = view(v.s);
                return f(x);
            }
        }
    }

    template <typename Args>
    void fill(Args& args, const builder& b)
    {
        for(auto& v : b.pos)
            with(v, [&](auto& x)
                 { args.emplace(x); });
        for(auto& [n, v] : b.named)
        {
            const CharT* np = string(n).c_str();
            with(v, [&](auto& x)
                 { args.emplace(papilio::arg(np, x)); });
        }
    }
};

// Formats through a dynamic argument list.
template <typename CharT>
std::basic_string<CharT> run(const builder& b)
{
    using H = holder<CharT>;
    H h;
    papilio::basic_dynamic_format_args<typename H::ctx_t, CharT> args;
    h.fill(args, b);
    um::exact<CharT> mem(um::enc<CharT>(b.fmt));
    return papilio::vformat(mem.view(), args);
}
} // namespace gf
#endif
