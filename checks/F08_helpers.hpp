// F08 - formatters of users built with the parsing helpers of the library, and with argument numbers of their own
#ifndef F08_HELPERS_HPP
#define F08_HELPERS_HPP
#define FM_XCHAR
#include "genfmt.hpp"
#include <locale>
#include <optional>
#include <vector>

using namespace papilio;
using gf::text;

// a text laid out by the simple specification; the parsed data is shown first if 'show' is set
template <bool Locale>
struct simple_user
{
    text body;
    bool show = false;
};

// the parsed standard specification is shown
template <bool Precision>
struct std_user
{
    std::u32string types;
};

// its specification is a list of references to arguments: "a" the next one, "n<digits>;" by number, "k<name>;" by name
struct by_reference
{};

inline text show_data(std::size_t width, char32_t fill, char align, bool loc)
{
    return gf::num(static_cast<long long>(width)) + U"," + (fill ? gf::num(static_cast<long long>(fill)) : text(U"none")) + U"," +
           (align ? text(1, static_cast<char32_t>(align)) : text(U"=")) + U"," + (loc ? text(U"L") : text(U"-"));
}

inline char align_char(format_align a)
{
    switch(a)
    {
    case format_align::left: return '<';
    case format_align::right: return '>';
    case format_align::middle: return '^';
    default: return 0;
    }
}

inline text show_std(const fm::spec& sp, std::size_t precision)
{
    return show_data(sp.width, sp.fill, sp.align, sp.loc) + U"," + text(1, sp.sign ? static_cast<char32_t>(sp.sign) : U'=') + (sp.alt ? U"#" : U"") +
           (sp.zero ? U"0" : U"") + U"." + gf::num(static_cast<long long>(precision)) + U"," + (sp.type ? text(1, sp.type) : text(U"none"));
}

namespace papilio
{
template <bool Locale, typename CharT>
class formatter<simple_user<Locale>, CharT>
{
public:
    template <typename ParseContext>
    auto parse(ParseContext& ctx) -> typename ParseContext::iterator
    {
        simple_formatter_parser<ParseContext, Locale> parser;
        auto [data, it] = parser.parse(ctx);
        m_data = data;
        return it;
    }

    template <typename Context>
    auto format(const simple_user<Locale>& v, Context& ctx) const -> typename Context::iterator
    {
        using traits = format_context_traits<Context>;
        if(v.show)
        {
            const char32_t f = m_data.has_fill() ? static_cast<char32_t>(m_data.fill) : U'\0';
            if((f ? f : U'~') != static_cast<char32_t>(m_data.fill_or(U'~')))
                vp::fail("fill_or");
            traits::append(ctx, std::basic_string_view<CharT>(um::enc<CharT>(show_data(m_data.width, f, align_char(m_data.align), m_data.use_locale))));
            return traits::out(ctx);
        }
        string_formatter<CharT> fmt;
        fmt.set_data(m_data.to_std_data());
        const auto body = um::enc<CharT>(v.body);
        return fmt.format(std::basic_string_view<CharT>(body), ctx);
    }

private:
    simple_formatter_data m_data;
};

template <bool Precision, typename CharT>
class formatter<std_user<Precision>, CharT>
{
public:
    template <typename ParseContext, typename Context>
    auto format(const std_user<Precision>& v, ParseContext& pctx, Context& ctx) const -> typename Context::iterator
    {
        using traits = format_context_traits<Context>;
        std_formatter_parser<ParseContext, Precision> parser;
        auto [data, it] = parser.parse(pctx, v.types);
        if(it != pctx.begin())
            vp::fail("the position of the parse context is not the one returned");
        data.check_type(v.types);
        if(data.contains_type(U"~"))
        {
            if(data.type != U'\0')
                vp::fail("contains_type");
        }
        else
        {
            bool refused = false;
            try
            {
                data.check_type(U"~!");
            }
            catch(const format_error&)
            {
                refused = true;
            }
            if(!refused)
                vp::fail("check_type accepts a type that is not listed");
        }
        if(static_cast<char32_t>(data.type_or(U'~')) != (data.type ? data.type : U'~'))
            vp::fail("type_or");
        fm::spec sp;
        sp.width = data.width;
        sp.fill = data.fill ? static_cast<char32_t>(data.fill) : U'\0';
        sp.align = align_char(data.align);
        sp.loc = data.use_locale;
        sp.sign = data.sign == format_sign::positive ? '+' : data.sign == format_sign::space  ? ' ' :
                                                         data.sign == format_sign::negative ? '-' :
                                                                                              0;
        sp.alt = data.alternate_form;
        sp.zero = data.fill_zero;
        sp.type = data.type;
        const std::size_t precision = data.precision == std_formatter_data{}.precision ? 0 : data.precision;
        traits::append(ctx, std::basic_string_view<CharT>(um::enc<CharT>(show_std(sp, precision))));
        return traits::out(ctx);
    }
};

template <typename CharT>
class formatter<by_reference, CharT>
{
public:
    template <typename ParseContext>
    auto parse(ParseContext& ctx) -> typename ParseContext::iterator
    {
        auto it = ctx.begin();
        while(it != ctx.end() && char32_t(*it) != U'}')
        {
            const char32_t kind = *it;
            ++it;
            if(kind == U'a')
            {
                const std::size_t id = ctx.current_arg_id();
                ctx.next_arg_id();
                m_refs.emplace_back(id, std::nullopt);
                continue;
            }
            std::basic_string<CharT> word;
            for(; it != ctx.end() && char32_t(*it) != U';'; ++it)
                word += static_cast<CharT>(char32_t(*it));
            if(it == ctx.end())
                throw format_error("unterminated reference");
            ++it;
            if(kind == U'n')
            {
                std::size_t id = 0;
                for(CharT ch : word)
                    id = id * 10 + static_cast<std::size_t>(ch - CharT('0'));
                ctx.check_arg_id(id);
                m_refs.emplace_back(id, std::nullopt);
            }
            else
            {
                ctx.check_arg_id(std::basic_string_view<CharT>(word));
                m_refs.emplace_back(0, word);
            }
        }
        return it;
    }

    template <typename Context>
    auto format(const by_reference&, Context& ctx) const -> typename Context::iterator
    {
        using traits = format_context_traits<Context>;
        traits::append(ctx, CharT('<'));
        for(auto& [id, name] : m_refs)
        {
            if(name)
                traits::format_to(ctx, PAPILIO_TSTRING_VIEW(CharT, "{},"), number(traits::get_args(ctx).get(std::basic_string_view<CharT>(*name))));
            else
                traits::format_to(ctx, PAPILIO_TSTRING_VIEW(CharT, "{},"), number(traits::get_args(ctx).get(id)));
        }
        traits::append(ctx, CharT('>'));
        return traits::out(ctx);
    }

private:
    template <typename Arg>
    static long long number(const Arg& arg)
    {
        return basic_variable<CharT>(arg.to_variant()).template as<long long>();
    }

    std::vector<std::pair<std::size_t, std::optional<std::basic_string<CharT>>>> m_refs;
};
} // namespace papilio

namespace
{
template <typename CharT, typename T>
std::optional<std::basic_string<CharT>> attempt(const text& fmt, const fm::spec& sp, const T& val)
{
    try
    {
        return fm::call<CharT>(fmt, sp, val, sp.manual);
    }
    catch(const format_error&)
    {
        return std::nullopt;
    }
}

template <typename CharT>
void compare(const std::optional<std::basic_string<CharT>>& got, const std::optional<text>& want)
{
    if(!got && want)
        vp::fail("refused; expected " + vp::quote(*want));
    if(got && !want)
        vp::fail("got " + vp::quote(*got) + "; expected a format error");
    if(got)
        fm::expect<CharT>(*got, *want, "result");
}

template <typename CharT>
void helpers(vp::source& s, vp::ctx& c)
{
    const text before = um::gen_text(s, 3, false), after = um::gen_text(s, 3, false);
    auto lit = [](const text& t)
    {
        text r;
        for(char32_t ch : t)
        {
            r += ch;
            if(ch == U'{' || ch == U'}')
                r += ch;
        }
        return r;
    };
    const unsigned kind = static_cast<unsigned>(s.draw(4));
    const bool simple = kind < 2, flag = kind % 2;
    std::u32string types;
    for(std::size_t n = simple ? 0 : 1 + s.draw(4); n > 0; --n)
    {
        // a character that cannot be taken for another part of the specification
        char32_t t = s.chance(2, 3) ? U"abcxyzXYZ?_%$"[s.draw(13)] : um::gen_scalar(s);
        if(t == 0 || t < 0x30 || (t >= U'0' && t <= U'9') || t == U'<' || t == U'>' || t == U'^' || t == U'L' || t == U'{' || t == U'}' || t == U'~' || t == U'!')
            t = U'q';
        types += t;
    }
    fm::spec sp = fm::gen(s, fm::f_width | (simple ? 0u : fm::f_sign | fm::f_alt | fm::f_zero | fm::f_precision) | fm::f_loc, types);
    if(s.chance(1, 4))
        sp.loc = true;
    const bool valid_loc = !simple || flag || !sp.loc;
    const bool valid_precision = simple || flag || !sp.precision;
    text ft = fm::field(sp, s.boolean());
    bool valid = valid_loc && valid_precision;
    if(s.chance(1, 5))
    {
        // a character that the specification has no place for
        char32_t extra = U"~&@,;"[s.draw(5)];
        if(types.find(extra) == types.npos)
        {
            if(ft.find(U':') == ft.npos)
                ft.insert(ft.size() - 1, U":");
            ft.insert(ft.size() - 1, 1, extra);
            valid = false;
            c.tag("character too many");
        }
    }
    const text body = um::gen_text(s, 6);
    const bool show = s.boolean();
    c.note(std::string(um::tname<CharT>()) + " " + vp::quote(ft) + " kind " + vp::str(kind));
    c.nontrivial_if(sp.width && (sp.align || sp.loc));
    c.tag(simple ? flag ? "simple with locale" : "simple" : flag ? "standard with precision" : "standard");
    const text fmt = lit(before) + ft + lit(after);
    std::optional<std::basic_string<CharT>> got;
    text want;
    if(simple)
    {
        want = show ? show_data(sp.width, sp.fill, sp.align, sp.loc) : fm::pad(sp, body, false);
        got = flag ? attempt<CharT>(fmt, sp, simple_user<true>{body, show}) : attempt<CharT>(fmt, sp, simple_user<false>{body, show});
    }
    else
    {
        want = show_std(sp, sp.precision);
        got = flag ? attempt<CharT>(fmt, sp, std_user<true>{types}) : attempt<CharT>(fmt, sp, std_user<false>{types});
    }
    compare<CharT>(got, valid ? std::optional<text>(before + want + after) : std::nullopt);
}

template <typename CharT>
void references(vp::source& s, vp::ctx& c)
{
    // arguments: 0 and 1 are the user's, the others numbers
    constexpr std::size_t count = 6;
    const long long nums[] = {s.pick({-5ll, 42ll, 1ll << 40}), 11, 22, 33};
    static const char32_t* names[] = {U"x", U"long_name", U"missing"};
    bool manual = false, failed = false;
    std::size_t next = 0;
    text fmt, want;
    std::size_t uses = 0;
    auto value_of = [&](std::size_t id)
    { return id < 2 ? text(U"?") : gf::num(nums[id - 2]); };
    for(std::size_t n = 1 + s.draw(3); n > 0 && !failed; --n)
    {
        fmt += U"[";
        want += U"[";
        // the field itself
        const std::size_t self = s.draw(2);
        if(!manual && next < 2)
        {
            fmt += U"{:";
            ++next;
        }
        else
        {
            fmt += U"{" + gf::num(static_cast<long long>(self)) + U":";
            manual = true;
        }
        want += U"<";
        for(std::size_t k = s.draw(5); k > 0; --k)
        {
            ++uses;
            switch(s.draw(4))
            {
            case 0:
            case 1:
                if(!manual && next < 2)
                    break; // the arguments of the user type are no numbers
                fmt += U"a";
                if(failed)
                    break;
                if(manual || next >= count)
                    failed = true;
                else
                    want += value_of(next++) + U",";
                break;
            case 2:
            {
                std::size_t id = 2 + s.draw(count - 1); // one past the last is missing
                fmt += U"n" + gf::num(static_cast<long long>(id)) + U";";
                if(failed)
                    break;
                manual = true;
                if(id >= count)
                    failed = true;
                else
                    want += value_of(id) + U",";
                break;
            }
            default:
            {
                std::size_t i = s.draw(8);
                i = i < 4 ? 0 : i < 7 ? 1 :
                                        2;
                fmt += text(U"k") + names[i] + U";";
                if(failed)
                    break;
                if(i == 2)
                    failed = true;
                else
                    want += (i ? text(U"-7") : text(U"77")) + U",";
            }
            }
        }
        fmt += U"}]";
        want += U">]";
    }
    if(!failed && s.boolean())
    {
        fmt += U"{}";
        if(manual || next >= count)
            failed = true;
        else if(next < 2)
            want += U"<>";
        else
            want += value_of(next);
    }
    c.note(std::string(um::tname<CharT>()) + " " + vp::quote(fmt));
    c.nontrivial_if(uses >= 2);
    if(failed)
        c.tag("refused");
    static const auto x = um::enc<CharT>(text(names[0])), y = um::enc<CharT>(text(names[1]));
    std::optional<std::basic_string<CharT>> got;
    try
    {
        got = fm::vcall<CharT>(fmt, by_reference{}, by_reference{}, nums[0], nums[1], static_cast<short>(nums[2]), static_cast<unsigned>(nums[3]), papilio::arg(x.c_str(), 77), papilio::arg(y.c_str(), -7ll));
    }
    catch(const format_error&)
    {
    }
    catch(const std::out_of_range&)
    {
    }
    catch(const std::bad_variant_access&)
    {
        vp::fail("a number that refers to another argument");
    }
    compare<CharT>(got, failed ? std::nullopt : std::optional<text>(want));
}
} // namespace
#endif
