// F08 - a user formatter sees exactly its own specification and value
#ifndef F08_COMMON_HPP
#define F08_COMMON_HPP
#include "genfmt.hpp"
#include <tuple>
#include <optional>
#include <vector>

using namespace papilio;
using gf::text;

// One kind of user type per way of supplying a formatter.
//  0 specialisation with a parsing and a formatting step
//  1 specialisation with one step
//  2 free function that accepts no specification
//  3 free function with the parse context
//  4 specialisation built on a formatter of the library
//  5 as 0, but large and not trivial (captured in another way)
template <int K>
struct user
{
    long long id = 0;
};

template <>
struct user<5>
{
    long long id = 0;
    std::string payload = std::string(40, 'p');
    char more[100] = {};
};

struct event
{
    int kind;
    long long id;
    text spec;

    bool operator==(const event&) const = default;
};

inline std::vector<event> formatted; // what the formatting steps saw
inline std::string broken;           // what no formatter may see
inline std::size_t stop_short = ~std::size_t(0);
inline const std::locale* expected_locale = nullptr;
inline std::size_t expected_args = 0;

// Reads the characters up to the brace that closes the field.
template <typename It>
It read_spec(It it, It end, text& out)
{
    std::size_t open = 0, n = 0;
    while(it != end && n++ < stop_short)
    {
        char32_t ch = *it;
        if(ch == U'}' && open-- == 0)
            break;
        if(ch == U'{')
            ++open;
        out += ch;
        ++it;
    }
    return it;
}

template <typename Context>
void check_context(Context& ctx)
{
    if(expected_locale && ctx.getloc() != *expected_locale)
        broken = "the context of the formatting step has another locale";
    if(ctx.get_args().indexed_size() + ctx.get_args().named_size() != expected_args)
        broken = "the context of the formatting step has other arguments";
}

// Writes "kind:id[spec]" in one of several ways.
template <typename Context>
auto write(int kind, long long id, const text& spec, Context& ctx)
{
    using CharT = typename Context::char_type;
    using traits = format_context_traits<Context>;
    formatted.push_back({kind, id, spec});
    check_context(ctx);
    auto sp = um::enc<CharT>(spec);
    switch(static_cast<unsigned long long>(id) % 4)
    {
    case 0:
    {
        traits::format_to(ctx, PAPILIO_TSTRING_VIEW(CharT, "{}:{}[{}]"), kind, id, sp);
        return traits::out(ctx);
    }
    case 1:
    {
        auto num = um::enc<CharT>(gf::num(kind) + U":" + gf::num(id) + U"[");
        traits::append(ctx, std::basic_string_view<CharT>(num));
        traits::append(ctx, std::basic_string_view<CharT>(sp));
        traits::append(ctx, CharT(']'));
        return ctx.out();
    }
    case 2:
    {
        auto out = ctx.out();
        for(CharT ch : um::enc<CharT>(gf::num(kind) + U":" + gf::num(id) + U"[" + spec + U"]"))
            *out++ = ch;
        return out;
    }
    default:
        return papilio::format_to(ctx.out(), PAPILIO_TSTRING_VIEW(CharT, "{1}:{2}[{0}]"), sp, kind, id);
    }
}

template <int K, typename CharT>
struct two_steps
{
    text spec;

    template <typename ParseContext>
    auto parse(ParseContext& ctx) -> typename ParseContext::iterator
    {
        if(!spec.empty())
            broken = "the parsing step was given a used formatter";
        return read_spec(ctx.begin(), ctx.end(), spec);
    }

    template <typename Context>
    auto format(const user<K>& v, Context& ctx) const -> typename Context::iterator
    {
        return write(K, v.id, spec, ctx);
    }
};

namespace papilio
{
template <typename CharT>
class formatter<user<0>, CharT> : public two_steps<0, CharT>
{};

template <typename CharT>
class formatter<user<5>, CharT> : public two_steps<5, CharT>
{};

template <typename CharT>
class formatter<user<1>, CharT>
{
public:
    template <typename ParseContext, typename Context>
    auto format(const user<1>& v, ParseContext& pctx, Context& ctx) const -> typename Context::iterator
    {
        text spec;
        pctx.advance_to(read_spec(pctx.begin(), pctx.end(), spec));
        return write(1, v.id, spec, ctx);
    }
};

template <typename CharT>
class formatter<user<4>, CharT>
{
public:
    template <typename ParseContext>
    auto parse(ParseContext& ctx) -> typename ParseContext::iterator
    {
        return fmt.parse(ctx);
    }

    template <typename Context>
    auto format(const user<4>& v, Context& ctx) const -> typename Context::iterator
    {
        formatted.push_back({4, v.id, U""});
        check_context(ctx);
        return fmt.format(v.id, ctx);
    }

private:
    formatter<long long, CharT> fmt;
};
} // namespace papilio

template <typename Context>
auto format(const user<2>& v, Context& ctx) -> typename Context::iterator
{
    return write(2, v.id, U"", ctx);
}

template <typename ParseContext, typename Context>
auto format(const user<3>& v, ParseContext& pctx, Context& ctx) -> typename Context::iterator
{
    text spec;
    pctx.advance_to(read_spec(pctx.begin(), pctx.end(), spec));
    return write(3, v.id, spec, ctx);
}

namespace
{
constexpr int n_styles = 6;

text gen_user_spec(vp::source& s, std::size_t max, int depth = 0)
{
    text r;
    for(std::size_t n = s.small_size(max); n > 0; --n)
    {
        if(depth < 2 && s.chance(1, 6))
            r += U"{" + gen_user_spec(s, 3, depth + 1) + U"}";
        else if(s.boolean())
            r += s.pick({U':', U'$', U'\'', U'?', U'<', U'>', U'0', U'.', U'[', U' ', U'\\', U'"', U'!', U's', U'L', U'*', U'n'});
        else
        {
            char32_t ch = um::gen_scalar(s);
            r += ch == U'{' || ch == U'}' ? U'_' : ch;
        }
    }
    return r;
}

template <typename CharT>
using ctx_for = basic_format_context<format_iterator_for<CharT>, CharT>;

struct ulist
{
    std::vector<std::unique_ptr<user<0>>> u0;
    std::vector<std::unique_ptr<user<1>>> u1;
    std::vector<std::unique_ptr<user<2>>> u2;
    std::vector<std::unique_ptr<user<3>>> u3;
    std::vector<std::unique_ptr<user<4>>> u4;
    std::vector<std::unique_ptr<user<5>>> u5;

    template <typename F>
    void with(const gf::value& v, F&& f)
    {
        auto go = [&](auto& list)
        {
            using U = typename std::remove_cvref_t<decltype(list)>::value_type::element_type;
            list.push_back(std::make_unique<U>());
            list.back()->id = v.i;
            f(*list.back());
        };
        switch(v.flavour)
        {
        case 0: return go(u0);
        case 1: return go(u1);
        case 2: return go(u2);
        case 3: return go(u3);
        case 4: return go(u4);
        default: return go(u5);
        }
    }
};

struct program
{
    gf::builder b;
    std::vector<event> expected;
    unsigned n_user = 0;

    explicit program(vp::source& s)
        : b(s)
    {
        // user values among the others, by position and by name
        for(std::size_t n = s.small_size(4); n > 0; --n)
            b.pos.push_back(s.chance(2, 3) ? user_value(s) : gf::gen_value(s, gf::k_any));
        for(std::size_t n = 1 + s.small_size(2); n > 0; --n)
        {
            text name = b.gen_name();
            b.named.emplace_back(name, user_value(s));
        }
        b.user_value = [this]
        { return user_value(b.s); };
        b.extra = [this](gf::builder&)
        { user_field(); };
    }

    static gf::value user_value(vp::source& s)
    {
        gf::value v;
        v.k = gf::k_user;
        v.i = s.boolean() ? s.range(0, 99) : fm::gen_int<long long>(s);
        v.flavour = static_cast<unsigned>(s.draw(n_styles));
        return v;
    }

    void user_field()
    {
        ++n_user;
        vp::source& s = b.s;
        b.fmt += U'{';
        gf::value v = b.ref(gf::k_user);
        text spec;
        int kind = static_cast<int>(v.flavour);
        if(kind == 4)
        {
            gf::value as;
            as.k = gf::k_ll;
            as.i = v.i;
            fm::spec sp;
            if(s.chance(2, 3))
            {
                b.fmt += U':';
                sp = b.gen_spec(as);
            }
            b.put(gf::print(sp, as));
        }
        else
        {
            if(s.chance(2, 3))
            {
                b.fmt += U':';
                if(kind != 2)
                    spec = gen_user_spec(s, 10);
                b.fmt += spec;
            }
            b.put(gf::num(kind) + U":" + gf::num(v.i) + U"[" + spec + U"]");
        }
        b.fmt += U'}';
        if(b.emit)
            expected.push_back({kind, v.i, spec});
    }

    template <typename H, typename Args>
    void fill(H& h, ulist& u, Args& args)
    {
        for(auto& v : b.pos)
        {
            if(v.k == gf::k_user)
                u.with(v, [&](auto& x)
                       { args.emplace(x); });
            else
                h.with(v, [&](auto& x)
                       { args.emplace(x); });
        }
        for(auto& [n, v] : b.named)
        {
            auto* np = h.string(n).c_str();
            if(v.k == gf::k_user)
                u.with(v, [&](auto& x)
                       { args.emplace(papilio::arg(np, x)); });
            else
                h.with(v, [&](auto& x)
                       { args.emplace(papilio::arg(np, x)); });
        }
        expected_args = b.pos.size() + b.named.size();
    }
};

std::string show(const std::vector<event>& l)
{
    std::string r;
    for(auto& e : l)
        r += std::to_string(e.kind) + ":" + std::to_string(e.id) + "[" + um::enc<char>(e.spec) + "] ";
    return vp::quote(r);
}

inline void reset()
{
    formatted.clear();
    broken.clear();
    stop_short = ~std::size_t(0);
    expected_locale = nullptr;
}

struct punct : std::numpunct<char>
{};

template <typename CharT>
void programs(vp::source& s, vp::ctx& c)
{
    program p(s);
    p.b.program(8, 2, 6, 2);
    c.note(std::string(um::tname<CharT>()) + " " + p.b.note());
    c.nontrivial_if(p.n_user >= 2);
    if(p.b.n_skipped)
        c.tag("skipped branch");
    reset();
    gf::holder<CharT> h;
    ulist u;
    basic_dynamic_format_args<ctx_for<CharT>, CharT> args;
    p.fill(h, u, args);
    um::exact<CharT> mem(um::enc<CharT>(p.b.fmt));
    std::basic_string<CharT> got;
    if(std::is_same_v<CharT, char> || std::is_same_v<CharT, wchar_t>)
    {
        if(s.boolean())
        {
            static const std::locale loc(std::locale::classic(), new punct);
            expected_locale = &loc;
            if constexpr(std::is_same_v<CharT, char> || std::is_same_v<CharT, wchar_t>)
                got = papilio::vformat(loc, mem.view(), args);
        }
        else
        {
            expected_locale = &std::locale::classic();
            got = papilio::vformat(mem.view(), args);
        }
    }
    else
        got = papilio::vformat(mem.view(), args);
    VP_CHECK(broken.empty(), broken);
    if(formatted != p.expected)
        vp::fail("the formatting steps saw " + show(formatted) + ", expected " + show(p.expected));
    fm::expect<CharT>(got, p.b.out, "wrong text");
}

// A formatter that stops before the end of its specification, in a chosen or in a skipped branch.
template <typename CharT>
void short_parse(vp::source& s, vp::ctx& c)
{
    static const int kinds[] = {0, 1, 3, 5};
    reset();
    gf::value v = program::user_value(s);
    v.flavour = static_cast<unsigned>(kinds[s.draw(4)]);
    text spec = gen_user_spec(s, 8, 2); // without braces
    if(spec.empty())
        spec = U"x";
    bool free_simple = s.chance(1, 5);
    if(free_simple)
        v.flavour = 2;
    stop_short = s.draw(spec.size());
    text f = U"a{0:" + spec + U"}b";
    c.note(vp::quote(um::enc<char>(f)) + " of kind " + std::to_string(v.flavour) + " stopping after " + std::to_string(stop_short) + " characters");
    c.nontrivial();
    gf::holder<CharT> h;
    ulist u;
    basic_dynamic_format_args<ctx_for<CharT>, CharT> args;
    u.with(v, [&](auto& x)
           { args.emplace(x); });
    expected_args = 1;
    um::exact<CharT> mem(um::enc<CharT>(f));
    std::basic_string<CharT> got;
    try
    {
        got = papilio::vformat(mem.view(), args);
    }
    catch(const format_error&)
    {
        return;
    }
    vp::fail("a specification left unconsumed was accepted: " + vp::quote(got));
}
// As elements of ranges and tuples, and inside of wrappers.
template <typename CharT>
void elements(vp::source& s, vp::ctx& c)
{
    reset();
    std::vector<user<0>> v;
    for(std::size_t n = s.small_size(5); n > 0; --n)
        v.push_back({fm::gen_int<long long>(s)});
    text spec, f = U"<{", want = U"<";
    std::vector<event> events;
    auto one = [&](int kind, long long id, const text& sp)
    {
        events.push_back({kind, id, sp});
        return gf::num(kind) + U":" + gf::num(id) + U"[" + sp + U"]";
    };
    std::basic_string<CharT> got;
    expected_args = 1;
    switch(s.draw(4))
    {
    case 0:
    {
        text open = U"[", close = U"]";
        if(s.chance(3, 4))
        {
            f += U':';
            if(s.boolean())
            {
                f += U'n';
                open = close = U"";
            }
            spec = gen_user_spec(s, 8);
            f += U":" + spec;
        }
        want += open;
        for(std::size_t i = 0; i < v.size(); ++i)
            want += (i ? U", " : U"") + one(0, v[i].id, spec);
        want += close;
        f += U"}>";
        c.note(std::string(um::tname<CharT>()) + " vector of " + std::to_string(v.size()) + " " + vp::quote(um::enc<char>(f)));
        got = fm::vcall<CharT>(f, v);
        c.nontrivial_if(v.size() >= 2 && !spec.empty());
        break;
    }
    case 1:
    {
        if(s.chance(3, 4))
        {
            spec = gen_user_spec(s, 8);
            f += U":" + spec;
        }
        for(std::size_t i = 0; i < v.size(); ++i)
            want += (i ? U"; " : U"") + one(0, v[i].id, spec);
        f += U"}>";
        c.note(std::string(um::tname<CharT>()) + " join of " + std::to_string(v.size()) + " " + vp::quote(um::enc<char>(f)));
        got = fm::vcall<CharT>(f, join(v, PAPILIO_TSTRING_VIEW(CharT, "; ")));
        c.nontrivial_if(v.size() >= 2 && !spec.empty());
        break;
    }
    case 2:
    {
        std::tuple<user<0>, user<1>, user<2>, user<3>> t;
        std::get<0>(t).id = s.range(-9, 9);
        std::get<1>(t).id = s.range(-9, 9);
        std::get<2>(t).id = s.range(-9, 9);
        std::get<3>(t).id = s.range(-9, 9);
        want += U"(" + one(0, std::get<0>(t).id, U"");
        want += U", " + one(1, std::get<1>(t).id, U"");
        want += U", " + one(2, std::get<2>(t).id, U"");
        want += U", " + one(3, std::get<3>(t).id, U"") + U")";
        f += U"}>";
        c.note(std::string(um::tname<CharT>()) + " tuple");
        got = fm::vcall<CharT>(f, t);
        c.nontrivial();
        break;
    }
    default:
    {
        std::variant<std::optional<user<5>>, user<3>> w;
        if(s.boolean())
        {
            w.template emplace<0>(std::in_place);
            std::get<0>(w)->id = s.range(-9, 9);
            want += one(5, std::get<0>(w)->id, U"");
        }
        else
        {
            w = user<3>{s.range(-9, 9)};
            want += one(3, std::get<1>(w).id, U"");
        }
        f += U"}>";
        c.note(std::string(um::tname<CharT>()) + " variant of optional");
        got = fm::vcall<CharT>(f, w);
        c.nontrivial();
        break;
    }
    }
    want += U">";
    std::string was = broken;
    if(was.find("other arguments") != std::string::npos)
        was.clear(); // elements may be formatted by a nested call with its own arguments
    VP_CHECK(was.empty(), was);
    if(formatted != events)
        vp::fail("the formatting steps saw " + show(formatted) + ", expected " + show(events));
    fm::expect<CharT>(got, want, "wrong text");
}
} // namespace
#define RULE_F08 "at least two fields with user formatters"
#endif
