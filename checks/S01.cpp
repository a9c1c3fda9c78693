// S01 - script conditions decide by value and only the chosen branch speaks
#include "genfmt.hpp"

using namespace papilio;
using gf::builder;

namespace
{
int formatted = 0;

// formatting it is an effect, and fails on demand
struct loud
{
    int tag;
    bool fails;
};

// the same, with a formatter that parses and formats in one step
struct loud2
{
    int tag;
    bool fails;
};
} // namespace

namespace papilio
{
template <typename CharT>
struct formatter<loud, CharT>
{
    template <typename ParseContext>
    auto parse(ParseContext& ctx)
    {
        auto it = ctx.begin();
        while(it != ctx.end() && *it == U'!')
            ++it;
        return it;
    }

    template <typename Context>
    auto format(const loud& v, Context& ctx) const
    {
        using context_t = format_context_traits<Context>;
        ++formatted;
        if(v.fails)
            throw std::logic_error("formatted");
        context_t::format_to(ctx, PAPILIO_TSTRING_VIEW(CharT, "<{}>"), v.tag);
        return ctx.out();
    }
};

template <typename CharT>
struct formatter<loud2, CharT>
{
    template <typename ParseContext, typename Context>
    auto format(const loud2& v, ParseContext& pc, Context& ctx) const
    {
        using context_t = format_context_traits<Context>;
        ++formatted;
        if(v.fails)
            throw std::logic_error("formatted");
        pc.skip_spec();
        context_t::format_to(ctx, PAPILIO_TSTRING_VIEW(CharT, "<{}>"), v.tag);
        return ctx.out();
    }
};
} // namespace papilio

namespace
{
void kinds(vp::ctx& c, const builder& b)
{
    c.nontrivial_if(b.n_ops && (b.n_skipped || b.n_fields) && b.fmt.size() > 12);
    if(b.n_skipped)
        c.tag("with_skipped_branch");
    if(b.n_escapes)
        c.tag("escapes");
    if(b.n_chains)
        c.tag("access");
    if(b.n_nested)
        c.tag("nested");
}

template <typename CharT>
void scripts(vp::source& s, vp::ctx& c)
{
    builder b(s);
    b.program(5, 1, 1, 6);
    c.note(std::string(um::tname<CharT>()) + " " + b.note());
    kinds(c, b);
    fm::expect<CharT>(gf::run<CharT>(b), b.out, "script");
}

// Only the branch chosen is formatted, and nothing of the others matters but the numbering.
template <typename CharT>
void effects(vp::source& s, vp::ctx& c)
{
    builder b(s);
    um::text want;
    std::vector<loud> l1;
    std::vector<loud2> l2;
    int expected_calls = 0;
    b.literal(b.gen_literal(3));
    b.fmt += U"{$";
    bool done = false;
    std::size_t branches = 1 + s.small_size(4);
    bool els = s.boolean();
    for(std::size_t i = 0; i < branches + els; ++i)
    {
        if(i)
        {
            b.fmt += U':';
            b.ws();
        }
        bool take = false;
        if(i < branches)
        {
            if(i)
                b.fmt += U'$';
            bool cnd = b.condition();
            take = cnd && !done;
            done |= cnd;
        }
        else
            take = !done;
        b.ws();
        bool second = s.boolean();
        std::string name = (second ? "q" : "l") + std::to_string(second ? l2.size() : l1.size());
        b.fmt += U'{' + gf::ascii(name);
        static const char32_t* specs1[] = {U"", U":", U":!", U":!!!"};
        static const char32_t* specs2[] = {U"", U":", U":x", U":{a}", U":{{}}", U":a b'c'?$"};
        b.fmt += second ? specs2[s.draw(6)] : specs1[s.draw(4)];
        b.fmt += U'}';
        b.ws();
        if(second)
            l2.push_back({static_cast<int>(i), !take});
        else
            l1.push_back({static_cast<int>(i), !take});
        if(take)
        {
            ++expected_calls;
            b.out += U"<" + gf::num(static_cast<long long>(i)) + U">";
        }
    }
    b.fmt += U'}';
    b.literal(b.gen_literal(3));
    c.note(std::string(um::tname<CharT>()) + " " + b.note());
    c.nontrivial_if(branches > 1);
    c.tag(expected_calls ? "a_branch" : "no_branch");
    gf::holder<CharT> h;
    basic_dynamic_format_args<typename gf::holder<CharT>::ctx_t, CharT> args;
    h.fill(args, b);
    for(std::size_t i = 0; i < l1.size(); ++i)
        args.emplace(papilio::arg(h.string(gf::ascii("l" + std::to_string(i))).c_str(), l1[i]));
    for(std::size_t i = 0; i < l2.size(); ++i)
        args.emplace(papilio::arg(h.string(gf::ascii("q" + std::to_string(i))).c_str(), l2[i]));
    um::exact<CharT> mem(um::enc<CharT>(b.fmt));
    formatted = 0;
    auto got = papilio::vformat(mem.view(), args);
    fm::expect<CharT>(got, b.out, "script");
    VP_CHECK(formatted == expected_calls, "formatting steps run: " + std::to_string(formatted) + ", expected " + std::to_string(expected_calls));
}

// The same script with other whitespace gives the same.
template <typename CharT>
void spaces(vp::source& s, vp::ctx& c)
{
    // tokens of a script; whitespace may stand between any two after the first
    std::vector<um::text> tok = {U"{$"};
    auto operand = [&]
    {
        static const char32_t* ops[] = {U"{0}", U"{1}", U"{n}", U"{t}", U"'a b'", U"''", U"' '", U"0", U"1", U"-3", U"2.5", U"-.5", U"{t[0]}", U"{t.length}", U"{0:}"};
        tok.push_back(ops[s.draw(14)]);
    };
    auto condition = [&]
    {
        switch(s.draw(3))
        {
        case 0: operand(); break;
        case 1:
            tok.push_back(U"!");
            operand();
            break;
        default:
        {
            static const char32_t* ops[] = {U"==", U"!=", U"<", U">", U"<=", U">="};
            operand();
            tok.push_back(ops[s.draw(6)]);
            operand();
        }
        }
        tok.push_back(U"?");
    };
    auto result = [&]
    {
        static const char32_t* rs[] = {U"'x y'", U"''", U"' '", U"{0}", U"{1:5}", U"{t:_>8}", U"{n:#x}", U"' \\' '"};
        tok.push_back(rs[s.draw(8)]);
    };
    condition();
    result();
    for(std::size_t n = s.small_size(2); n > 0; --n)
    {
        tok.push_back(U":");
        tok.push_back(U"$");
        condition();
        result();
    }
    if(s.boolean())
    {
        tok.push_back(U":");
        result();
    }
    tok.push_back(U"}");
    um::text tight, loose;
    for(std::size_t i = 0; i < tok.size(); ++i)
    {
        if(i)
        {
            for(std::size_t n = s.small_size(4); n > 0; --n)
                loose += s.pick({U' ', U'\t', U'\n', U'\r', U'\v', U'\f'});
        }
        tight += tok[i];
        loose += tok[i];
    }
    int a = static_cast<int>(s.range(-3, 3));
    double d = static_cast<double>(s.range(-6, 6)) / 2;
    int n = static_cast<int>(s.draw(3));
    static const std::basic_string<CharT> texts[] = {um::enc<CharT>(U"a b"), um::enc<CharT>(U" "), um::enc<CharT>(U"\u4E00"), um::enc<CharT>(U"a")};
    const auto& t = texts[s.draw(4)];
    static const std::basic_string<CharT> nn = um::enc<CharT>(U"n"), tn = um::enc<CharT>(U"t");
    c.note(std::string(um::tname<CharT>()) + " " + vp::quote(um::enc<char>(loose)) + " with " + std::to_string(a) + ", " + std::to_string(d) + ", n=" + std::to_string(n));
    c.nontrivial_if(loose.size() > tight.size() + 3);
    auto x = fm::vcall<CharT>(tight, a, d, papilio::arg(nn.c_str(), n), papilio::arg(tn.c_str(), t));
    auto y = fm::vcall<CharT>(loose, a, d, papilio::arg(nn.c_str(), n), papilio::arg(tn.c_str(), t));
    VP_CHECK(x == y, "without whitespace " + vp::quote(x) + ", with " + vp::quote(y));
}
} // namespace

#define RULE "an operator and a field or skipped branch"
VP_FACET(narrow, 80000, 1000000, RULE)
{
    scripts<char>(s, c);
}

VP_FACET(wide, 40000, 500000, RULE)
{
    scripts<wchar_t>(s, c);
}

VP_FACET(only_chosen, 30000, 300000, "several branches")
{
    effects<char>(s, c);
}

VP_FACET(only_chosen_wide, 10000, 100000, "several branches")
{
    effects<wchar_t>(s, c);
}

VP_FACET(whitespace, 30000, 300000, "whitespace added")
{
    spaces<char>(s, c);
}

VP_FACET(whitespace_wide, 10000, 100000, "whitespace added")
{
    spaces<wchar_t>(s, c);
}
