// L01 - the locale affects output only where asked
#ifndef L01_COMMON_HPP
#define L01_COMMON_HPP
#define FM_XCHAR
#include "mutfmt.hpp"
#include "zoo.hpp"
#include <papilio/print.hpp>
#include <iomanip>
#include <locale>
#include <sstream>

using gf::builder;
using gf::text;

// Facets that change everything the standard library takes from a locale
template <typename CharT>
struct loud_numpunct : std::numpunct<CharT>
{
    std::basic_string<CharT> yes, no;
    loud_numpunct(std::basic_string<CharT> y, std::basic_string<CharT> n)
        : yes(std::move(y)), no(std::move(n)) {}

protected:
    CharT do_decimal_point() const override { return CharT(';'); }
    CharT do_thousands_sep() const override { return CharT('_'); }
    std::string do_grouping() const override { return "\1"; }
    std::basic_string<CharT> do_truename() const override { return yes; }
    std::basic_string<CharT> do_falsename() const override { return no; }
};

template <typename CharT>
struct loud_time : std::time_put<CharT>
{
protected:
    typename std::time_put<CharT>::iter_type do_put(typename std::time_put<CharT>::iter_type out, std::ios_base&, CharT, const std::tm*, char f, char) const override
    {
        *out++ = CharT('~');
        *out++ = static_cast<CharT>(f);
        return out;
    }
};

inline std::locale loud(const text& yes, const text& no)
{
    std::locale l = std::locale::classic();
    l = std::locale(l, new loud_numpunct<char>(um::enc<char>(yes), um::enc<char>(no)));
    l = std::locale(l, new loud_numpunct<wchar_t>(um::enc<wchar_t>(yes), um::enc<wchar_t>(no)));
    l = std::locale(l, new loud_time<char>);
    l = std::locale(l, new loud_time<wchar_t>);
    return l;
}

template <typename CharT>
text dec_all(const std::basic_string<CharT>& s)
{
    text t;
    if(!um::dec(s, t))
        vp::fail("invalid text in the oracle: " + vp::quote(s));
    return t;
}

// The locales of a case: names of booleans are random, so that a name of another locale is noticed
struct locales
{
    text yes, no, gyes, gno;
    std::locale supplied, global, before;

    static text name(vp::source& s)
    {
        return um::gen_text(s, 7);
    }

    explicit locales(vp::source& s)
        : yes(name(s)), no(name(s)), gyes(U"G" + name(s)), gno(U"g" + name(s)), supplied(loud(yes, no)), global(loud(gyes, gno))
    {
        before = std::locale::global(s.chance(1, 4) ? std::locale::classic() : global);
    }

    ~locales() { std::locale::global(before); }

    locales(const locales&) = delete;
    locales& operator=(const locales&) = delete;

    std::string note() const
    {
        return "supplied " + vp::quote(um::enc<char>(yes)) + "/" + vp::quote(um::enc<char>(no));
    }
};

template <typename CharT>
constexpr bool has_locale = std::is_same_v<CharT, char> || std::is_same_v<CharT, wchar_t>;

template <typename CharT>
using base_ctx = papilio::basic_format_context<papilio::format_iterator_for<CharT>, CharT>;

// A call with a list of arguments and perhaps a locale
template <typename CharT, typename Args>
std::basic_string<CharT> run_list(const std::locale* loc, std::basic_string_view<CharT> fmt, const Args& args, unsigned way)
{
    using str = std::basic_string<CharT>;
    if constexpr(has_locale<CharT>)
    {
        if(way == 0)
            return loc ? papilio::vformat(*loc, fmt, args) : papilio::vformat(fmt, args);
        if(way == 1)
        {
            str r;
            if(loc)
                papilio::vformat_to(std::back_inserter(r), *loc, fmt, args);
            else
                papilio::vformat_to(std::back_inserter(r), fmt, args);
            return r;
        }
    }
    else if(!loc && way < 2)
        return papilio::vformat(fmt, args);
    using ctx_t = base_ctx<CharT>;
    str r;
    papilio::basic_format_parse_context<ctx_t> pctx(fmt, args);
    papilio::locale_ref ref;
    if(loc)
        ref = *loc;
    ctx_t fctx(ref, std::back_inserter(r), args);
    papilio::basic_interpreter<ctx_t>{}.format(pctx, fctx);
    return r;
}

// ----------------------------------------------------------------- without the option
template <typename CharT>
void unasked(vp::source& s, vp::ctx& c)
{
    locales l(s);
    builder b(s);
    b.program(6, 2, 3, 2);
    c.note(std::string(um::tname<CharT>()) + " " + b.note() + " " + l.note());
    c.nontrivial_if(b.n_fields + b.n_scripts >= 1);
    using H = gf::holder<CharT>;
    H h;
    papilio::basic_dynamic_format_args<typename H::ctx_t, CharT> args;
    h.fill(args, b);
    um::exact<CharT> mem(um::enc<CharT>(b.fmt));
    bool with = s.chance(3, 4);
    fm::expect<CharT>(run_list<CharT>(with ? &l.supplied : nullptr, mem.view(), args, static_cast<unsigned>(s.draw(3))), b.out, "without L");
}

inline text zoo_field(vp::source& s, bool loc)
{
    text fmt = s.boolean() ? U"{0" : U"{";
    if(s.chance(1, 4))
        fmt += s.pick<text>({U"[0]", U"[-1]", U"[1:]", U".length", U".first", U".value", U".text", U".year", U"[0][0]"});
    if(!loc && s.chance(1, 3))
        return fmt + U"}";
    fmt += U':';
    if(loc && s.chance(1, 4)) // for the elements of a list
        fmt += U':';
    fm::spec sp;
    if(s.boolean())
        sp = fm::gen(s, fm::f_sign | fm::f_alt | fm::f_zero | fm::f_width | fm::f_precision, U"dxobscfeagpnmt?", 20);
    sp.manual = false;
    sp.loc = loc;
    if(sp.wmode == 2)
        sp.wmode = 0;
    if(sp.pmode == 2)
        sp.pmode = 0;
    fmt += fm::spec_text(sp);
    if(s.chance(1, 4))
        fmt += s.pick<text>({U"%Y-%m-%d", U"%c", U"%H:%M:%S", U"%x", U"%A %B %p", U"%", U":", U":d"});
    return fmt + U"}";
}

// the same choices, under the classic and under the other locales
template <typename CharT>
void unasked_kinds(vp::source& s, vp::ctx& c)
{
    text fmt = zoo_field(s, false);
    locales l(s);
    zoo::store st;
    papilio::basic_dynamic_format_args<base_ctx<CharT>, CharT> args;
    std::string kind = zoo::with<CharT>(s, st, false, [&](const auto& x)
                                        { args.emplace(x); args.emplace(x); });
    c.note(std::string(um::tname<CharT>()) + " " + vp::quote(um::enc<char>(fmt)) + " with " + kind + " " + l.note());
    c.tag(kind);
    um::exact<CharT> mem(um::enc<CharT>(fmt));
    auto outcome = [&](const std::locale* loc, unsigned way) -> std::pair<std::basic_string<CharT>, std::string>
    {
        try
        {
            return {run_list<CharT>(loc, mem.view(), args, way), ""};
        }
        catch(const std::exception& e)
        {
            return {{}, std::string(typeid(e).name()) + e.what()};
        }
    };
    auto got = outcome(s.chance(3, 4) ? &l.supplied : nullptr, static_cast<unsigned>(s.draw(3)));
    auto mine = std::locale::global(std::locale::classic());
    auto want = outcome(nullptr, 0);
    std::locale::global(mine);
    c.nontrivial_if(want.second.empty());
    if(got != want)
        vp::fail("got " + vp::quote(got.first) + got.second + ", under the classic locale " + vp::quote(want.first) + want.second);
}

// ----------------------------------------------------------------- booleans with the option
// A user type that formats booleans of its own in nested calls
template <typename CharT>
struct vote
{
    bool yes;
};

template <typename CharT>
class papilio::formatter<vote<CharT>, CharT>
{
public:
    template <typename ParseContext>
    auto parse(ParseContext& ctx)
    {
        return ctx.begin();
    }

    template <typename Context>
    auto format(const vote<CharT>& v, Context& ctx) const
    {
        static const auto f = um::enc<CharT>(U"<{0:L}{0}>");
        papilio::format_context_traits<Context>::format_to(ctx, std::basic_string_view<CharT>(f), v.yes);
        return ctx.out();
    }
};

template <typename CharT>
void booleans(vp::source& s, vp::ctx& c)
{
    using str = std::basic_string<CharT>;
    locales l(s);
    bool with = s.chance(3, 4);
    zoo::store st;
    text fmt, want;
    const text yes = with ? l.yes : U"true", no = with ? l.no : U"false";
    text widths;
    papilio::basic_dynamic_format_args<base_ctx<CharT>, CharT> args;
    std::size_t n = 1 + s.draw(4);
    std::string vals;
    bool padded = false;
    for(std::size_t i = 0; i < n; ++i)
    {
        bool v = s.boolean();
        vals += v ? "T" : "F";
        text name = v ? yes : no;
        switch(s.draw(8))
        {
        case 0: // a list
        {
            bool w = s.boolean();
            args.emplace(st.keep(std::vector<bool>{v, w}));
            vals += w ? "T" : "F";
            fmt += U"{::L}";
            want += U"[" + name + U", " + (w ? yes : no) + U"]";
            break;
        }
        case 1: // by a user formatter
            args.emplace(st.keep(vote<CharT>{v}));
            fmt += U"{}";
            want += U"<" + name + (v ? U"true" : U"false") + U">";
            break;
        case 2: // as a number
            args.emplace(v);
            fmt += U"{:Ld}";
            want += v ? U"1" : U"0";
            break;
        case 3: // without the option
            args.emplace(v);
            fmt += U"{}";
            want += v ? U"true" : U"false";
            break;
        default:
        {
            args.emplace(v);
            fm::spec sp = fm::gen(s, fm::f_width, U"s", 20);
            sp.loc = true;
            sp.manual = false;
            sp.wmode = 0;
            fmt += fm::field(sp);
            want += fm::pad(sp, name, false);
            padded |= sp.width > um::width(name);
            break;
        }
        }
        fmt += U"|";
        want += U"|";
    }
    c.note(std::string(um::tname<CharT>()) + " " + vp::quote(um::enc<char>(fmt)) + " with " + vals + (with ? " " : " not ") + l.note());
    c.tag(with ? "supplied" : "not supplied");
    c.nontrivial_if(padded || n > 1);
    um::exact<CharT> mem(um::enc<CharT>(fmt));
    auto view = mem.view();
    str got;
    got = run_list<CharT>(with ? &l.supplied : nullptr, view, args, static_cast<unsigned>(s.draw(3)));
    fm::expect<CharT>(got, want, "booleans");
}

// every entry point that takes a locale
template <typename CharT>
void entry_points(vp::source& s, vp::ctx& c)
{
    using str = std::basic_string<CharT>;
    using namespace papilio;
    locales l(s);
    bool v = s.boolean();
    int num = fm::gen_int<int>(s);
    fm::spec sp = fm::gen(s, fm::f_width, U"s", 20);
    sp.loc = true;
    sp.manual = false;
    sp.wmode = 0;
    text fmt = fm::field(sp) + U"{:L}{}{}";
    auto expect = [&](bool with)
    {
        text name = with ? (v ? l.yes : l.no) : text(v ? U"true" : U"false");
        return um::enc<CharT>(fm::pad(sp, name, false) + gf::num(num) + gf::num(num) + (v ? U"true" : U"false"));
    };
    um::exact<CharT> mem(um::enc<CharT>(fmt));
    auto f = mem.view();
    str got;
    const str want = expect(true);
    unsigned how = static_cast<unsigned>(s.draw(8));
    c.note(std::string(um::tname<CharT>()) + " way " + std::to_string(how) + " " + vp::quote(um::enc<char>(fmt)) + " " + l.note());
    c.nontrivial_if(want != expect(false));
    c.tag(std::to_string(how));
    std::locale& loc = l.supplied;
    switch(how)
    {
    case 0: got = papilio::format(loc, f, v, num, num, v); break;
    case 1: got = papilio::vformat(loc, f, make_format_args<base_ctx<CharT>>(v, num, num, v)); break;
    case 2: papilio::format_to(std::back_inserter(got), loc, f, v, num, num, v); break;
    case 3:
    {
        std::size_t n = s.size(want.size() + 2);
        std::vector<CharT> out(std::min(n, want.size()));
        auto r = papilio::format_to_n(out.begin(), static_cast<std::ptrdiff_t>(n), loc, f, v, num, num, v);
        VP_CHECK(r.out == out.end(), "the returned iterator is not past the last character");
        got.assign(out.begin(), out.end());
        VP_CHECK(got == want.substr(0, n), "got " + vp::quote(got) + ", expected the beginning of " + vp::quote(want));
        got = want;
        break;
    }
    case 4:
    {
        std::size_t n = papilio::formatted_size(loc, f, v, num, num, v);
        VP_CHECK(n == want.size(), "formatted_size gives " + std::to_string(n) + " for " + std::to_string(want.size()));
        got = want;
        break;
    }
    case 5:
    {
        // a locale that lives no longer than the call
        got = papilio::format(std::locale(l.supplied), f, v, num, num, v);
        break;
    }
    case 6: // one after the other
    {
        got = papilio::format(loc, f, v, num, num, v);
        str second = papilio::format(f, v, num, num, v);
        VP_CHECK(second == expect(false), "a call without a locale gives " + vp::quote(second));
        str third = papilio::format(std::locale::classic(), f, v, num, num, v);
        VP_CHECK(third == expect(false), "a call with the classic locale gives " + vp::quote(third));
        break;
    }
    default:
        if constexpr(std::is_same_v<CharT, char>)
        {
            std::ostringstream os;
            os.imbue(loc);
            bool line = s.boolean();
            if(line)
                papilio::println(os, f, v, num, num, v);
            else
                papilio::print(os, f, v, num, num, v);
            got = os.str();
            if(line)
            {
                VP_CHECK(!got.empty() && got.back() == '\n', "no newline");
                got.pop_back();
            }
        }
        else
            got = want;
        break;
    }
    fm::expect<CharT>(got, dec_all(want), "entry point");
}

// ----------------------------------------------------------------- other values with the option
inline bool takes_locale(const std::string& kind)
{
    for(auto k : {"bool", "vector<bool>", "tm", "pointer", "nullptr", "thread"})
        if(kind == k)
            return true;
    return false;
}

template <typename CharT>
void other_kinds(vp::source& s, vp::ctx& c)
{
    text fmt = zoo_field(s, true);
    locales l(s);
    zoo::store st;
    papilio::basic_dynamic_format_args<base_ctx<CharT>, CharT> args;
    std::string kind = zoo::with<CharT>(s, st, false, [&](const auto& x)
                                        { args.emplace(x); args.emplace(x); });
    if(takes_locale(kind))
        throw vp::discard{"a kind that uses the locale"};
    std::size_t at = fmt.rfind(U'L');
    text without = fmt;
    without.erase(at, 1);
    c.note(std::string(um::tname<CharT>()) + " " + vp::quote(um::enc<char>(fmt)) + " with " + kind + " " + l.note());
    c.tag(kind);
    um::exact<CharT> mem(um::enc<CharT>(fmt)), plain(um::enc<CharT>(without));
    std::basic_string<CharT> got;
    try
    {
        got = run_list<CharT>(&l.supplied, mem.view(), args, static_cast<unsigned>(s.draw(3)));
    }
    catch(const std::exception&)
    {
        throw vp::discard{"not applicable"};
    }
    auto want = run_list<CharT>(nullptr, plain.view(), args, 0);
    c.nontrivial();
    VP_CHECK(got == want, "got " + vp::quote(got) + ", without L " + vp::quote(want));
}

// values formatted by streams and times, which take the supplied locale and no other
struct amount
{
    long units;

    template <typename CharT>
    friend std::basic_ostream<CharT>& operator<<(std::basic_ostream<CharT>& os, const amount& a)
    {
        return os << a.units << CharT('/') << 0.5 << CharT('/') << std::boolalpha << (a.units % 2 == 0);
    }
};

template <typename CharT>
void streamed(vp::source& s, vp::ctx& c)
{
    using str = std::basic_string<CharT>;
    locales l(s);
    bool asked = s.chance(2, 3), with = s.chance(2, 3);
    amount a{s.range(-10000000, 10000000)};
    std::tm t{};
    t.tm_year = static_cast<int>(s.range(0, 200));
    t.tm_mon = static_cast<int>(s.range(0, 11));
    t.tm_mday = static_cast<int>(s.range(1, 28));
    bool time = s.boolean();
    std::size_t width = s.boolean() ? 0 : s.size(40);
    std::locale used = asked && with ? l.supplied : std::locale::classic();
    std::basic_ostringstream<CharT> os;
    os.imbue(used);
    text fmt = U"{:";
    if(width)
        fmt += U"*>" + gf::num(static_cast<long long>(width));
    if(asked)
        fmt += U"L";
    if(time)
    {
        text f = s.pick<text>({U"%Y", U"%c", U"%d.%m.%Y", U"%x %X", U"%B"});
        auto e = um::enc<CharT>(f);
        os << std::put_time(&t, e.c_str());
        fmt += f;
    }
    else
        os << a;
    fmt += U"}";
    text body = dec_all(os.str());
    fm::spec sp;
    sp.fill = U'*';
    sp.align = '>';
    sp.width = width;
    text want = fm::pad(sp, body, false);
    c.note(std::string(um::tname<CharT>()) + " " + vp::quote(um::enc<char>(fmt)) + (time ? " time" : " " + std::to_string(a.units)) + (with ? " " : " not ") + l.note());
    c.nontrivial_if(asked);
    c.tag(asked ? with ? "asked, supplied" : "asked, not supplied" : "not asked");
    um::exact<CharT> mem(um::enc<CharT>(fmt));
    str got;
    auto call = [&](const auto& v)
    {
        papilio::basic_dynamic_format_args<base_ctx<CharT>, CharT> args;
        args.emplace(v);
        got = run_list<CharT>(with ? &l.supplied : nullptr, mem.view(), args, static_cast<unsigned>(s.draw(3)));
    };
    if(time)
        call(t);
    else
        call(a);
    fm::expect<CharT>(got, want, "streamed");
}

#define RULE_UN "at least one field or script"
#define RULE_UK "the call gives text"
#define RULE_BO "several values, or a name with padding"
#define RULE_EP "the supplied locale changes the text"
#define RULE_OK "the option is accepted"
#define RULE_ST "the option is given"
#endif
