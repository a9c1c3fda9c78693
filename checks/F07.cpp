// F07 - wrapper values are formatted as what they hold
#include "genfmt.hpp"
#include <bitset>
#include <complex>
#include <expected>
#include <map>
#include <papilio/formatter/chrono.hpp>
#include <papilio/formatter/filesystem.hpp>
#include <papilio/formatter/misc.hpp>
#include <sstream>
#include <system_error>

using namespace papilio;
using gf::text;

namespace
{
// ------------------------------------------------------------ held values and their text
template <typename CharT>
struct plain
{
    static text of(int v) { return gf::num(v); }

    static text of(long long v) { return gf::num(v); }

    static text of(bool v) { return v ? U"true" : U"false"; }

    static text of(double v)
    {
        gf::value g;
        g.k = gf::k_double;
        g.f = v;
        return gf::print({}, g);
    }

    static text of(utf::codepoint v) { return text(1, static_cast<char32_t>(v)); }

    static text of(const std::basic_string<CharT>& v)
    {
        text t;
        um::dec(v, t);
        return t;
    }

    static text of(std::monostate) { return U"monostate"; }

    template <typename T>
    static text of(const std::vector<T>& v)
    {
        text r = U"[";
        for(std::size_t i = 0; i < v.size(); ++i)
            r += (i ? U", " : U"") + of(v[i]);
        return r + U"]";
    }

    template <typename A, typename B>
    static text of(const std::pair<A, B>& v) { return U"(" + of(v.first) + U", " + of(v.second) + U")"; }

    template <typename T>
    static text of(const std::optional<T>& v) { return v.has_value() ? of(*v) : text(U"nullopt"); }

    template <typename... T>
    static text of(const std::variant<T...>& v)
    {
        return std::visit([](const auto& x)
                          { return of(x); },
                          v);
    }

    template <typename T, typename E>
    static text of(const std::expected<T, E>& v) { return v.has_value() ? of(*v) : of(v.error()); }
};

template <typename T>
struct maker;

template <typename T>
T make(vp::source& s)
{
    if constexpr(std::is_same_v<T, bool>)
        return s.boolean();
    else if constexpr(std::is_integral_v<T>)
        return s.boolean() ? static_cast<T>(s.range(-9, 9)) : fm::gen_int<T>(s);
    else if constexpr(std::is_same_v<T, double>)
        return gf::gen_value(s, gf::k_double).f;
    else if constexpr(std::is_same_v<T, utf::codepoint>)
        return utf::codepoint(um::gen_scalar(s));
    else if constexpr(std::is_same_v<T, std::monostate>)
        return {};
    else
        return maker<T>::make(s);
}

template <typename C>
struct maker<std::basic_string<C>>
{
    static std::basic_string<C> make(vp::source& s)
    {
        // sometimes the text of a placeholder
        if(s.chance(1, 8))
            return um::enc<C>(s.pick({U"nullopt", U"monostate", U"{}", U"{0}"}));
        return um::enc<C>(um::gen_text(s, 24));
    }
};

template <typename T>
struct maker<std::vector<T>>
{
    static std::vector<T> make(vp::source& s)
    {
        std::vector<T> r;
        for(std::size_t n = s.small_size(4); n > 0; --n)
            r.push_back(::make<T>(s));
        return r;
    }
};

template <typename A, typename B>
struct maker<std::pair<A, B>>
{
    static std::pair<A, B> make(vp::source& s)
    {
        A a = ::make<A>(s);
        return {std::move(a), ::make<B>(s)};
    }
};

template <typename T>
struct maker<std::optional<T>>
{
    static std::optional<T> make(vp::source& s)
    {
        if(s.chance(1, 3))
            return std::nullopt;
        return ::make<T>(s);
    }
};

template <typename... T>
struct maker<std::variant<T...>>
{
    static std::variant<T...> make(vp::source& s)
    {
        std::variant<T...> r;
        std::size_t i = s.draw(sizeof...(T));
        [&]<std::size_t... I>(std::index_sequence<I...>)
        {
            ((I == i ? (void)r.template emplace<I>(::make<T>(s)) : void()), ...);
        }(std::index_sequence_for<T...>());
        return r;
    }
};

template <typename T, typename E>
struct maker<std::expected<T, E>>
{
    static std::expected<T, E> make(vp::source& s)
    {
        if(s.boolean())
            return ::make<T>(s);
        return std::unexpected(::make<E>(s));
    }
};

// Formats w after each step of a history of assignments.
template <typename CharT, typename W>
void history(vp::source& s, vp::ctx& c, const char* name)
{
    W w = make<W>(s);
    std::size_t steps = 1 + s.small_size(4);
    c.note(std::string(um::tname<CharT>()) + " " + name);
    bool changed = false;
    for(std::size_t i = 0; i < steps; ++i)
    {
        if(i)
        {
            changed = true;
            if(s.boolean())
                w = make<W>(s);
            else
            {
                W o = make<W>(s);
                std::swap(w, o);
            }
        }
        text want = plain<CharT>::of(w);
        c.note(vp::quote(um::enc<char>(want)));
        bool explicit_number = s.boolean(), colon = s.boolean();
        text f = U"<{";
        if(explicit_number)
            f += U'0';
        if(colon)
            f += U':';
        f += U"}|{";
        f += explicit_number ? U"1}>" : U"}>";
        const W& k = w;
        auto got = s.boolean() ? fm::vcall<CharT>(f, w, 7) : fm::vcall<CharT>(f, k, 7);
        fm::expect(got, U"<" + want + U"|7>", "wrong text");
    }
    c.nontrivial_if(changed);
}

template <typename CharT>
void wrappers(vp::source& s, vp::ctx& c)
{
    using S = std::basic_string<CharT>;
    switch(s.draw(12))
    {
    case 0: return history<CharT, std::optional<int>>(s, c, "optional<int>");
    case 1: return history<CharT, std::optional<S>>(s, c, "optional<string>");
    case 2: return history<CharT, std::optional<std::optional<bool>>>(s, c, "optional<optional<bool>>");
    case 3: return history<CharT, std::optional<std::vector<double>>>(s, c, "optional<vector<double>>");
    case 4: return history<CharT, std::variant<int, S>>(s, c, "variant<int, string>");
    case 5: return history<CharT, std::variant<std::monostate, S, double, bool>>(s, c, "variant<monostate, string, double, bool>");
    case 6: return history<CharT, std::variant<int, int, std::optional<int>>>(s, c, "variant<int, int, optional<int>>");
    case 7: return history<CharT, std::variant<std::vector<int>, std::pair<int, S>, utf::codepoint>>(s, c, "variant<vector<int>, pair<int, string>, codepoint>");
    case 8: return history<CharT, std::expected<int, S>>(s, c, "expected<int, string>");
    case 9: return history<CharT, std::expected<S, int>>(s, c, "expected<string, int>");
    case 10: return history<CharT, std::expected<std::optional<S>, std::variant<bool, S>>>(s, c, "expected<optional<string>, variant<bool, string>>");
    default: return history<CharT, std::pair<std::optional<int>, std::variant<std::monostate, int>>>(s, c, "pair<optional<int>, variant<monostate, int>>");
    }
}

#define RULE_W "the wrapper was assigned another value before it was formatted"
} // namespace

VP_FACET(wrappers_narrow, 40000, 800000, RULE_W)
{
    wrappers<char>(s, c);
}

VP_FACET(wrappers_wide, 20000, 400000, RULE_W)
{
    wrappers<wchar_t>(s, c);
}

namespace
{
struct thrower
{
    thrower() = default;

    thrower(const thrower&) { throw 1; }

    thrower& operator=(const thrower&) { throw 1; }

    operator int() const { throw 1; }
};
} // namespace

// A variant that lost its value, and specifications (wrappers accept none), are reported.
VP_FACET(no_value_and_specifications, 4000, 40000, "every case")
{
    c.nontrivial();
    try
    {
        if(s.boolean())
        {
            std::variant<int, std::string> v = 3;
            try
            {
                v.emplace<0>(thrower());
            }
            catch(int)
            {}
            c.note("valueless variant");
            auto r = papilio::format("<{}>", v);
            if(v.valueless_by_exception())
                vp::fail("a variant without a value was formatted as " + vp::quote(r));
            return;
        }
        fm::spec sp = fm::gen(s, fm::f_width | fm::f_sign | fm::f_precision, U"sdx", 20);
        sp.wmode = sp.pmode = 0;
        sp.manual = true;
        if(sp.plain())
            sp.type = U's';
        text f = fm::field(sp);
        c.note(vp::quote(um::enc<char>(f)));
        std::string r;
        switch(s.draw(3))
        {
        case 0: r = fm::vcall<char>(f, std::optional<int>(make<int>(s))); break;
        case 1: r = fm::vcall<char>(f, std::variant<int, std::string>(make<int>(s))); break;
        default: r = fm::vcall<char>(f, std::expected<int, std::string>(make<int>(s))); break;
        }
        vp::fail("a specification was accepted and gave " + vp::quote(r));
    }
    catch(const std::bad_variant_access&)
    {
        c.tag("bad_variant_access");
    }
    catch(const format_error&)
    {
        c.tag("format_error");
    }
}

// ------------------------------------------------------------ values with a text
namespace
{
text escape(const text& t)
{
    text r;
    for(char32_t ch : t)
    {
        if(ch == U'\t')
            r += U"\\t";
        else if(ch == U'\n')
            r += U"\\n";
        else if(ch == U'\r')
            r += U"\\r";
        else if(ch == U'\\')
            r += U"\\\\";
        else if(ch == U'"')
            r += U"\\\"";
        else
            r += ch;
    }
    return r;
}

template <typename CharT>
void check_layout(vp::source& s, vp::ctx& c, const fm::spec& sp, const std::basic_string<CharT>& got, const text& body)
{
    text want = fm::pad(sp, body, false);
    c.nontrivial_if(sp.width > um::width(body));
    fm::expect(got, want, "wrong text");
}

template <typename CharT>
void paths(vp::source& s, vp::ctx& c)
{
    text t;
    for(std::size_t n = s.small_size(5); n > 0; --n)
    {
        switch(s.draw(5))
        {
        case 0: t += U'/'; break;
        case 1: t += s.pick({U"..", U".", U"//", U"\\", U"a\"b", U"\t"}); break;
        default:
            for(std::size_t k = s.small_size(6); k > 0; --k)
                t += s.boolean() ? static_cast<char32_t>(s.range(0x20, 0x7E)) : s.pick({U'\xC4', U'\x3A9', U'\x4E00', U'\x1F351'});
            break;
        }
    }
    std::filesystem::path p(um::enc<char>(t));
    fm::spec sp = fm::gen(s, fm::f_width, U"g?", 40);
    if(sp.type == U'?')
    {
        sp.align = 0;
        sp.fill = 0;
        sp.width = 0;
    }
    text f = fm::field(sp, s.boolean());
    c.note(std::string(um::tname<CharT>()) + " path " + vp::quote(um::enc<char>(t)) + " " + vp::quote(um::enc<char>(f)));
    auto got = fm::call<CharT>(f, sp, p);
    // the text of a path is what the standard library says it is
    um::dec(sp.type == U'g' ? p.generic_string<CharT>() : p.string<CharT>(), t);
    if(sp.type == U'?')
    {
        c.nontrivial_if(escape(t) != t);
        fm::expect(got, escape(t), "wrong debug text");
    }
    else
        check_layout(s, c, sp, got, t);
}

std::tm make_tm(vp::source& s, bool odd)
{
    std::tm t{};
    t.tm_sec = static_cast<int>(s.range(0, 60));
    t.tm_min = static_cast<int>(s.range(0, 59));
    t.tm_hour = static_cast<int>(s.range(0, 23));
    t.tm_mday = static_cast<int>(s.range(1, 31));
    t.tm_mon = static_cast<int>(s.range(0, 11));
    t.tm_wday = static_cast<int>(s.range(0, 6));
    t.tm_yday = static_cast<int>(s.range(0, 365));
    t.tm_year = static_cast<int>(s.boolean() ? s.range(70, 140) : s.range(-900, 8099));
    t.tm_isdst = static_cast<int>(s.range(-1, 1));
    if(odd)
    {
        int v = fm::gen_int<int>(s);
        switch(s.draw(7))
        {
        case 0: t.tm_sec = v; break;
        case 1: t.tm_min = v; break;
        case 2: t.tm_hour = v; break;
        case 3: t.tm_mday = v; break;
        case 4: t.tm_mon = v; break;
        case 5: t.tm_wday = v; break;
        default: t.tm_year = v; break;
        }
    }
    return t;
}

text asctime_text(const std::tm& t)
{
    static const char* wd[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
    static const char* mo[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    auto zero2 = [](int v)
    {
        std::string d = std::to_string(v < 0 ? -static_cast<long long>(v) : v);
        std::string sign = v < 0 ? "-" : "";
        while(sign.size() + d.size() < 2)
            d = "0" + d;
        return sign + d;
    };
    std::string day = std::to_string(t.tm_mday), year = std::to_string(1900LL + t.tm_year);
    while(day.size() < 2)
        day = " " + day;
    while(year.size() < 4)
        year = " " + year;
    return gf::ascii(
        std::string(t.tm_wday >= 0 && t.tm_wday < 7 ? wd[t.tm_wday] : "???") + " " + (t.tm_mon >= 0 && t.tm_mon < 12 ? mo[t.tm_mon] : "???") + " " + day + " " + zero2(t.tm_hour) + ":" + zero2(t.tm_min) + ":" + zero2(t.tm_sec) + " " + year
    );
}

template <typename CharT>
void times(vp::source& s, vp::ctx& c)
{
    bool chrono = s.boolean();
    std::tm t = make_tm(s, !chrono && s.chance(1, 4));
    fm::spec sp = fm::gen(s, fm::f_width | fm::f_loc, U"", 60);
    text f = fm::field(sp, chrono), body;
    if(chrono)
    {
        std::string cs = "%";
        cs += s.pick({'Y', 'y', 'm', 'd', 'H', 'M', 'S', 'j', 'A', 'a', 'B', 'b', 'p', 'F', 'T', 'D', 'R', 'e', 'w', 'u', 'C', 'n', 't', '%', 'c', 'x', 'X', 'I'});
        text spec = gf::ascii(cs), literals;
        for(std::size_t n = s.small_size(5); n > 0; --n)
        {
            if(s.boolean())
            {
                char k = s.pick({'Y', 'm', 'd', 'H', 'M', 'S', 'j', 'A', 'B', '%'});
                spec += U'%';
                spec += static_cast<char32_t>(k);
            }
            else
            {
                char32_t ch = sizeof(CharT) == 1 || s.boolean() ? static_cast<char32_t>(s.range(0x20, 0x7E)) : s.pick({U'\x4E00', U'\xC4'});
                if(ch == U'}' || ch == U'%')
                    ch = U'-';
                spec += ch;
            }
        }
        // the reference: each conversion by strftime, everything else as it stands
        for(std::size_t i = 0; i < spec.size(); ++i)
        {
            if(spec[i] != U'%')
            {
                body += spec[i];
                continue;
            }
            char one[3] = {'%', static_cast<char>(spec[++i]), 0}, buf[200];
            std::size_t n = std::strftime(buf, sizeof buf, one, &t);
            body += gf::ascii({buf, n});
        }
        f.pop_back();
        f += spec + U"}";
    }
    else
        body = asctime_text(t);
    c.note(std::string(um::tname<CharT>()) + " time " + std::to_string(t.tm_year) + "/" + std::to_string(t.tm_mon) + "/" + std::to_string(t.tm_mday) + " " + std::to_string(t.tm_hour) + ":" + std::to_string(t.tm_min) + ":" + std::to_string(t.tm_sec) + " wday " + std::to_string(t.tm_wday) + " " + vp::quote(um::enc<char>(f)));
    auto got = fm::call<CharT>(f, sp, t);
    check_layout(s, c, sp, got, body);
}

// a type of the user's that can be inserted into streams
struct insertable
{
    int a = 0;
    std::string b;

    template <typename C>
    friend std::basic_ostream<C>& operator<<(std::basic_ostream<C>& os, const insertable& v)
    {
        return os << C('<') << v.a << C('|') << v.b.c_str() << C('>');
    }
};

template <typename CharT>
void insertables(vp::source& s, vp::ctx& c)
{
    fm::spec sp = fm::gen(s, fm::f_width | fm::f_loc, U"", 40);
    text f = fm::field(sp, s.boolean());
    auto go = [&](const auto& v)
    {
        std::basic_ostringstream<CharT> os;
        os.imbue(std::locale::classic());
        os << v;
        text body;
        um::dec(os.str(), body);
        c.note(std::string(um::tname<CharT>()) + " " + vp::quote(um::enc<char>(body)) + " " + vp::quote(um::enc<char>(f)));
        auto got = fm::call<CharT>(f, sp, v);
        check_layout(s, c, sp, got, body);
    };
    switch(s.draw(3))
    {
    case 0:
    {
        insertable v{fm::gen_int<int>(s), {}};
        for(std::size_t n = s.small_size(40); n > 0; --n)
            v.b += static_cast<char>(s.range(0x20, 0x7E));
        return go(v);
    }
    case 1: return go(std::complex<double>(static_cast<double>(s.range(-99, 99)) / 4, static_cast<double>(s.range(-99, 99)) / 8));
    default: return go(std::bitset<9>(s.draw(512)));
    }
}

#define RULE_L "the text is shorter than the width asked for"
} // namespace

VP_FACET(paths_, 30000, 500000, "the text is shorter than the width asked for, or has characters to escape")
{
    if(s.boolean())
        paths<char>(s, c);
    else
        paths<wchar_t>(s, c);
}

VP_FACET(calendar_times, 40000, 800000, RULE_L)
{
    if(s.chance(2, 3))
        times<char>(s, c);
    else
        times<wchar_t>(s, c);
}

VP_FACET(stream_insertable, 30000, 500000, RULE_L)
{
    if(s.chance(2, 3))
        insertables<char>(s, c);
    else
        insertables<wchar_t>(s, c);
}

VP_FACET(thread_ids, 2000, 20000, "the thread is running")
{
    std::thread::id id = s.boolean() ? std::this_thread::get_id() : std::thread::id();
    c.nontrivial_if(id != std::thread::id());
    std::ostringstream os;
    std::wostringstream ws;
    os << id;
    ws << id;
    VP_CHECK(papilio::format("<{}>", id) == "<" + os.str() + ">", os.str());
    VP_CHECK(papilio::format(L"<{}>", id) == L"<" + ws.str() + L">", os.str());
}
