// C02 - every way of naming an argument selects that argument
#include "genfmt.hpp"

using namespace papilio;
using gf::builder;
using gf::value;

namespace
{
template <typename CharT>
using ctx_of = basic_format_context<format_iterator_for<CharT>, CharT>;

void kinds(vp::ctx& c, const builder& b)
{
    c.nontrivial_if(b.n_auto + b.n_manual + b.n_named >= 3 && (b.n_auto != 0) + (b.n_manual != 0) + (b.n_named != 0) >= 2);
    if(b.n_nested)
        c.tag("nested");
    if(b.n_skipped)
        c.tag("skipped_branch");
    if(b.n_auto && b.n_manual)
        c.tag("automatic_then_numbered");
}

template <typename CharT>
void dynamic(vp::source& s, vp::ctx& c)
{
    builder b(s);
    b.program(10, 1, 6, 2);
    c.note(std::string(um::tname<CharT>()) + " " + b.note());
    kinds(c, b);
    gf::holder<CharT> h;
    basic_dynamic_format_args<ctx_of<CharT>, CharT> args;
    h.fill(args, b);
    um::exact<CharT> mem(um::enc<CharT>(b.fmt));
    fm::expect<CharT>(papilio::vformat(mem.view(), args), b.out, "dynamic arguments");
    basic_format_args_ref<ctx_of<CharT>, CharT> ref(args);
    fm::expect<CharT>(papilio::vformat(mem.view(), ref), b.out, "reference to dynamic arguments");
    auto copy = ref;
    fm::expect<CharT>(papilio::vformat(mem.view(), copy), b.out, "copied reference");
    auto moved = std::move(args);
    fm::expect<CharT>(papilio::vformat(mem.view(), moved), b.out, "moved dynamic arguments");
}

value mk(vp::source& s, unsigned k)
{
    value v = gf::gen_value(s, k);
    v.flavour = 0;
    return v;
}

// statically captured arguments of their own types, against the same ones collected dynamically
template <typename CharT, typename... Args>
void both(const builder& b, Args&&... args)
{
    um::exact<CharT> mem(um::enc<CharT>(b.fmt));
    fm::expect<CharT>(papilio::vformat(mem.view(), papilio::make_format_args<ctx_of<CharT>>(args...)), b.out, "static arguments");
    auto st = papilio::make_format_args<ctx_of<CharT>>(args...);
    auto st2 = std::as_const(st);
    fm::expect<CharT>(papilio::vformat(mem.view(), st2), b.out, "copied static arguments");
    basic_format_args_ref<ctx_of<CharT>, CharT> ref(st2);
    fm::expect<CharT>(papilio::vformat(mem.view(), ref), b.out, "reference to static arguments");
    basic_dynamic_format_args<ctx_of<CharT>, CharT> dyn;
    (dyn.emplace(std::forward<Args>(args)), ...);
    fm::expect<CharT>(papilio::vformat(mem.view(), dyn), b.out, "dynamic arguments");
    VP_CHECK(ref.indexed_size() == b.pos.size() && ref.named_size() == b.named.size(), "sizes of the static list");
    VP_CHECK(dyn.indexed_size() == b.pos.size() && dyn.named_size() == b.named.size(), "sizes of the dynamic list");
    for(std::size_t i = 0; i < b.pos.size() + 2; ++i)
    {
        VP_CHECK(ref.contains(i) == (i < b.pos.size()), "contains(index), static");
        VP_CHECK(dyn.contains(i) == (i < b.pos.size()), "contains(index), dynamic");
    }
    for(auto& [n, v] : b.named)
    {
        auto name = um::enc<CharT>(n);
        VP_CHECK(ref.contains(std::basic_string_view<CharT>(name)) && dyn.contains(std::basic_string_view<CharT>(name)), "contains(name)");
        name += CharT('q');
        bool other = false;
        for(auto& [m, w] : b.named)
            other |= um::enc<CharT>(m) == name;
        if(!other)
            VP_CHECK(!ref.contains(std::basic_string_view<CharT>(name)) && !dyn.contains(std::basic_string_view<CharT>(name)), "contains(no such name)");
    }
}

template <typename CharT>
void fixed(vp::source& s, vp::ctx& c)
{
    builder b(s);
    b.fixed = true;
    std::uint64_t sig = s.draw(4);
    auto named = [&](const um::text& n, unsigned k) -> const value&
    {
        b.named.emplace_back(n, mk(s, k));
        return b.named.back().second;
    };
    b.named.reserve(8);
    b.pos.reserve(8);
    auto str = [](const value& v)
    { return um::enc<CharT>(v.s); };
    // names that collide in their beginnings and in case, in an order of their own
    static const std::basic_string<CharT> n1 = um::enc<CharT>(U"w"), n2 = um::enc<CharT>(U"wx"), n3 = um::enc<CharT>(U"W"), n4 = um::enc<CharT>(U"_0"), n5 = um::enc<CharT>(U"\u00E9t\u00E9"), n6 = um::enc<CharT>(U"Zz9");
    switch(sig)
    {
    case 0:
    {
        b.pos = {mk(s, gf::k_int), mk(s, gf::k_str), mk(s, gf::k_width), mk(s, gf::k_double)};
        named(U"wx", gf::k_width);
        named(U"w", gf::k_str);
        named(U"Zz9", gf::k_bool);
        break;
    }
    case 1:
    {
        b.pos = {mk(s, gf::k_width), mk(s, gf::k_width)};
        named(U"w", gf::k_width);
        named(U"W", gf::k_width);
        named(U"wx", gf::k_width);
        named(U"_0", gf::k_width);
        break;
    }
    case 2:
    {
        named(U"\u00E9t\u00E9", gf::k_str);
        named(U"Zz9", gf::k_width);
        break;
    }
    default:
    {
        b.pos = {mk(s, gf::k_bool), mk(s, gf::k_ll), mk(s, gf::k_width), mk(s, gf::k_str), mk(s, gf::k_width), mk(s, gf::k_double), mk(s, gf::k_width)};
        break;
    }
    }
    b.program(8, 1, 6, 2);
    c.note(std::string(um::tname<CharT>()) + " " + b.note());
    kinds(c, b);
    c.tag("signature_" + std::to_string(sig));
    auto& p = b.pos;
    auto& n = b.named;
    switch(sig)
    {
    case 0:
    {
        int a0 = static_cast<int>(p[0].i);
        auto a1 = str(p[1]);
        short a2 = static_cast<short>(p[2].i);
        double a3 = p[3].f;
        int w0 = static_cast<int>(n[0].second.i);
        auto w1 = str(n[1].second);
        bool w2 = n[2].second.i;
        // named arguments between the positional ones
        both<CharT>(b, papilio::arg(n2.c_str(), w0), a0, a1, papilio::arg(n1.c_str(), w1), a2, papilio::arg(n6.c_str(), w2), a3);
        break;
    }
    case 1:
    {
        int a0 = static_cast<int>(p[0].i), a1 = static_cast<int>(p[1].i);
        int w0 = static_cast<int>(n[0].second.i), w1 = static_cast<int>(n[1].second.i), w2 = static_cast<int>(n[2].second.i), w3 = static_cast<int>(n[3].second.i);
        both<CharT>(b, a0, papilio::arg(n1.c_str(), w0), papilio::arg(n3.c_str(), w1), papilio::arg(n2.c_str(), w2), papilio::arg(n4.c_str(), w3), a1);
        break;
    }
    case 2:
    {
        auto w0 = str(n[0].second);
        int w1 = static_cast<int>(n[1].second.i);
        both<CharT>(b, papilio::arg(n5.c_str(), w0), papilio::arg(n6.c_str(), w1));
        break;
    }
    default:
    {
        bool a0 = p[0].i;
        long long a1 = p[1].i;
        unsigned a2 = static_cast<unsigned>(p[2].i);
        auto a3 = str(p[3]);
        unsigned char a4 = static_cast<unsigned char>(p[4].i);
        double a5 = p[5].f;
        long a6 = static_cast<long>(p[6].i);
        both<CharT>(b, a0, a1, a2, a3, a4, a5, a6);
        break;
    }
    }
}

// Every argument shown by its own tag: permutations and repetitions of many arguments.
VP_FACET(many, 30000, 400000, "at least 5 arguments, at least 5 references")
{
    const bool long_list = s.chance(1, 6), only_auto = s.boolean();
    std::size_t n = 1 + (long_list ? s.draw(300) : s.small_size(14)), m = long_list ? s.small_size(60) : s.small_size(6);
    std::vector<std::string> vals, names;
    dynamic_format_args args;
    for(std::size_t i = 0; i < n; ++i)
        vals.push_back("<" + std::to_string(i * 7 + 3) + ">");
    for(std::size_t i = 0; i < m; ++i)
    {
        vals.push_back("(" + std::to_string(i) + ")");
        names.push_back(std::string(1 + i / 3, 'a') + std::string(1, static_cast<char>('a' + s.draw(3))) + std::to_string(i));
    }
    // positional and named interleaved in any order
    std::size_t p = 0, q = 0;
    while(p < n || q < m)
    {
        if(q == m || (p < n && s.boolean()))
            args.emplace(vals[p++]);
        else
        {
            args.emplace(arg(names[q].c_str(), vals[n + q]));
            ++q;
        }
    }
    std::string fmt, want;
    std::size_t next = 0;
    bool manual = false;
    std::size_t refs = long_list ? n + s.draw(20) : s.small_size(20);
    for(std::size_t k = 0; k < refs; ++k)
    {
        switch(only_auto && s.boolean() ? 0 : s.draw(3))
        {
        case 0:
            if(manual || next == n)
                break;
            fmt += s.boolean() ? "{}" : "{:}";
            want += vals[next++];
            break;
        case 1:
        {
            if(only_auto || (s.chance(2, 3) && !manual))
                break;
            std::size_t i = s.draw(n);
            fmt += "{" + std::to_string(i) + "}";
            want += vals[i];
            manual = true;
            break;
        }
        default:
            if(m == 0)
                break;
            std::size_t i = s.draw(m);
            fmt += "{" + names[i] + "}";
            want += vals[n + i];
            break;
        }
        if(s.chance(1, 4))
        {
            fmt += "-";
            want += "-";
        }
    }
    c.note(vp::quote(fmt) + " with " + std::to_string(n) + " positional and " + std::to_string(m) + " named arguments");
    c.nontrivial_if(n >= 5 && refs >= 5);
    auto got = vformat(fmt, args);
    VP_CHECK(got == want, "got " + vp::quote(got) + ", expected " + vp::quote(want));
    const auto& ca = args;
    for(std::size_t i = 0; i < n; ++i)
    {
        VP_CHECK(get<std::string_view>(ca.get(i)) == vals[i], "get(index)");
        VP_CHECK(get<std::string_view>(ca[static_cast<ssize_t>(i)]) == vals[i], "operator[](index)");
    }
    for(std::size_t i = 0; i < m; ++i)
    {
        VP_CHECK(get<std::string_view>(ca.get(names[i])) == vals[n + i], "get(name)");
        VP_CHECK(get<std::string_view>(ca[indexing_value(names[i])]) == vals[n + i], "operator[](name)");
        VP_CHECK(ca.contains(indexing_value(names[i])), "contains(name)");
    }
    VP_CHECK(!ca.contains(indexing_value(static_cast<ssize_t>(n))) && !ca.contains(indexing_value(ssize_t(-1))), "contains(index out of range)");
}

// The last value given for a name counts, however it was captured.
VP_FACET(repeated_names, 3000, 30000, "different values")
{
    int a = static_cast<int>(s.draw(100)), b = static_cast<int>(s.draw(100)), d = static_cast<int>(s.draw(100));
    c.nontrivial_if(a != b);
    dynamic_format_args dyn;
    dyn.emplace(arg("n", a));
    dyn.emplace(arg("m", d));
    dyn.emplace(arg("n", b));
    auto want = std::to_string(b) + " " + std::to_string(d);
    auto x = vformat("{n} {m}", dyn);
    auto y = PAPILIO_NS format("{n} {m}", arg("n", a), arg("m", d), arg("n", b));
    c.note("n=" + std::to_string(a) + ", m=" + std::to_string(d) + ", n=" + std::to_string(b));
    VP_CHECK(x == y, "dynamic arguments give " + x + ", static ones " + y);
    VP_CHECK(dyn.named_size() == 2, "named_size()");
    auto st = make_format_args(arg("n", a), arg("m", d), arg("n", b));
    VP_CHECK(st.named_size() == dyn.named_size(), "named_size()");
}

template <typename CharT>
void errors(vp::source& s, vp::ctx& c)
{
    builder b(s);
    b.program(4, 1, 4, 1);
    um::text bad; // what stands for the argument
    std::uint64_t kind = s.draw(4);
    switch(kind)
    {
    case 0: // omitted after an explicit number
        if(!b.manual)
        {
            if(b.pos.empty())
                throw vp::discard{"no positional argument"};
            b.fmt += U"{" + gf::num(static_cast<long long>(s.draw(b.pos.size()))) + U"}";
        }
        if(s.boolean())
            b.literal(b.gen_literal(4));
        break;
    case 1: // a position that does not exist
    {
        switch(s.draw(5))
        {
        case 0: bad = gf::num(static_cast<long long>(b.pos.size())); break;
        case 1: bad = gf::num(static_cast<long long>(b.pos.size() + s.draw(1000))); break;
        case 2: bad = s.pick({U"18446744073709551616", U"18446744073709551617", U"9223372036854775808", U"4294967296", U"18446744073709551615", U"65536", U"9223372036854775807", U"184467440737095516160"}); break;
        case 3:
        {
            // 2^64 * k + i
            unsigned __int128 v = (static_cast<unsigned __int128>(1 + s.draw(9)) << 64) + s.draw(b.pos.size() + 1);
            bad = fm::radix(v, 10, false);
            break;
        }
        default:
            bad = U"1";
            for(std::size_t n = 3 + s.draw(60); n > 0; --n)
                bad += static_cast<char32_t>(U'0' + s.draw(10));
            break;
        }
        break;
    }
    case 2: // a name that does not exist
        bad = b.gen_name();
        if(!b.named.empty() && s.boolean())
        {
            bad = b.named[s.draw(b.named.size())].first;
            if(bad.size() > 1 && s.boolean())
                bad.pop_back();
            else
                bad += U'_';
            for(auto& [n, v] : b.named)
                if(n == bad)
                    throw vp::discard{"exists"};
        }
        break;
    default: // no automatic number left
        if(b.manual)
            throw vp::discard{"numbered"};
        while(b.next < b.pos.size())
        {
            b.fmt += U"{}";
            ++b.next;
        }
        break;
    }
    // in a field, with a specification, nested, in a condition, in a branch taken or not
    switch(s.draw(7))
    {
    case 0: b.fmt += U"{" + bad + U"}"; break;
    case 1: b.fmt += U"{" + bad + U":}"; break;
    case 2: b.fmt += U"{one:{" + bad + U"}}"; break;
    case 3: b.fmt += U"{text:.{" + bad + U"}}"; break;
    case 4: b.fmt += U"{$ {" + bad + U"} ? 'x'}"; break;
    case 5: b.fmt += U"{$ {one} == {" + bad + U"} ? 'x'}"; break;
    default: b.fmt += s.boolean() ? U"{$ 1 ? {" + bad + U"}}" : U"{$ 0 ? {" + bad + U"} : 'y'}"; break;
    }
    value one;
    one.i = 1;
    b.named.emplace_back(U"one", one);
    value t;
    t.k = gf::k_str;
    b.named.emplace_back(U"text", t);
    if(bad == U"one" || bad == U"text")
        throw vp::discard{"exists"};
    c.note(std::string(um::tname<CharT>()) + " " + b.note());
    c.tag(kind == 0 ? "omitted_after_number" : kind == 1 ? "no_such_position" :
                                           kind == 2     ? "no_such_name" :
                                                           "automatic_past_the_end");
    c.nontrivial();
    try
    {
        auto r = gf::run<CharT>(b);
        vp::fail("no error; the result is " + vp::quote(r));
    }
    catch(const std::exception&)
    {
    }
}
} // namespace

#define RULE "several references of at least two kinds"
VP_FACET(dynamic_narrow, 40000, 500000, RULE)
{
    dynamic<char>(s, c);
}

VP_FACET(dynamic_wide, 20000, 250000, RULE)
{
    dynamic<wchar_t>(s, c);
}

VP_FACET(static_narrow, 25000, 300000, RULE)
{
    fixed<char>(s, c);
}

VP_FACET(static_wide, 12000, 150000, RULE)
{
    fixed<wchar_t>(s, c);
}

VP_FACET(missing, 12000, 120000, "every case")
{
    s.boolean() ? errors<char>(s, c) : errors<wchar_t>(s, c);
}
