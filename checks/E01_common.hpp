// E01 - malformed or inapplicable formats are reported, at the right place
#ifndef E01_COMMON_HPP
#define E01_COMMON_HPP
#define FM_XCHAR
#include "mutfmt.hpp"
#include "refint.hpp"

using namespace papilio;
using gf::builder;
using gf::text;

template <typename CharT>
std::size_t units(const text& t)
{
    return um::enc<CharT>(t).size();
}

inline std::string show(const ri::halt& h)
{
    std::string r = ri::kind_name(h.k);
    if(h.k == ri::kind::script)
        r += " '" + to_string(h.ec) + "' at " + (h.pos < 0 ? "no position" : "character " + std::to_string(h.pos));
    return r;
}

// the kind of the exception that f ends in
template <typename F>
ri::halt outcome(F&& f)
{
    try
    {
        f();
        return {ri::kind::text};
    }
    catch(const script_base::error& e)
    {
        return {ri::kind::script, e.error_code()};
    }
    catch(const format_error&)
    {
        return {ri::kind::format};
    }
    catch(const std::out_of_range&)
    {
        return {ri::kind::range};
    }
    catch(const std::invalid_argument&)
    {
        return {ri::kind::argument};
    }
    catch(const std::runtime_error&)
    {
        return {ri::kind::runtime};
    }
    catch(const std::exception&)
    {
        return {ri::kind::other};
    }
}

// extra: arguments after those of the program (a list, a null pointer, a list by name)
template <typename CharT>
void judge(vp::ctx& c, const builder& b, const std::vector<int>* list)
{
    using H = gf::holder<CharT>;
    using ctx_t = typename H::ctx_t;
    using str = std::basic_string<CharT>;
    H h;
    basic_dynamic_format_args<ctx_t, CharT> args;
    h.fill(args, b);
    ri::interp ref{b.fmt};
    ref.units = units<CharT>;
    ref.facets = std::is_same_v<CharT, char> || std::is_same_v<CharT, wchar_t>;
    for(auto& v : b.pos)
        ref.pos.push_back(ri::of(v));
    for(auto& [n, v] : b.named)
        ref.named.emplace_back(n, ri::of(v));
    static const str list_name = um::enc<CharT>(U"list");
    if(list)
    {
        args.emplace(*list);
        args.emplace(nullptr);
        args.emplace(papilio::arg(list_name.c_str(), *list));
        ref.pos.push_back(ri::of_list(*list));
        ref.pos.push_back(ri::of_null(true));
        ref.named.emplace_back(U"list", ri::of_list(*list));
    }
    ri::halt want;
    try
    {
        want = ref.run();
    }
    catch(const ri::unmodelled&)
    {
        throw vp::discard{"specification of a list"};
    }
    c.note(std::string(um::tname<CharT>()) + " " + b.note() + " -> " + (want.k == ri::kind::text ? vp::quote(um::enc<char>(ref.out)) : show(want)));
    if(want.k == ri::kind::script)
        c.tag("script_" + to_string(want.ec));
    else
        c.tag(ri::kind_name(want.k));
    c.nontrivial_if(want.k != ri::kind::text);

    um::exact<CharT> mem(um::enc<CharT>(b.fmt));
    str got;
    ri::halt plain = outcome([&]
                             { got = papilio::vformat(mem.view(), args); });
    if(plain.k != want.k || plain.ec != want.ec)
        vp::fail("expected " + show(want) + ", got " + show(plain));
    if(plain.k == ri::kind::text && ref.known)
        fm::expect<CharT>(got, ref.out, "accepted format");

    // the same in diagnostic mode
    using intp_t = basic_interpreter<ctx_t, true>;
    str prefix;
    long pos = -1;
    bool inside = true;
    ri::halt diag = outcome(
        [&]
        {
            basic_format_parse_context<ctx_t> pctx(mem.view(), args);
            ctx_t fctx(std::back_inserter(prefix), args);
            intp_t intp;
            try
            {
                intp.format(pctx, fctx);
            }
            catch(const typename intp_t::extended_error& e)
            {
                auto it = utf::codepoint_begin(mem.view()), end = utf::codepoint_end(mem.view());
                for(pos = 0; it != end && it != e.get_iter(); ++it)
                    ++pos;
                inside = it == e.get_iter();
                throw;
            }
        }
    );
    diag.pos = pos;
    VP_CHECK(inside, "the position of the error is not in the format string");
    if(diag.k != want.k || diag.ec != want.ec || diag.pos != want.pos)
        vp::fail("diagnostic mode: expected " + show(want) + ", got " + show(diag));
    if(diag.k == ri::kind::text)
        VP_CHECK(prefix == got, "diagnostic mode gives another result");
    else if(ref.known)
    {
        // what was written before the error is what precedes it
        auto w = um::enc<CharT>(ref.out);
        VP_CHECK(prefix.size() <= w.size() + 4096 && prefix.substr(0, w.size()) == w, "output before the error: " + vp::quote(prefix) + ", expected " + vp::quote(w));
    }
}

inline std::vector<int> gen_list(vp::source& s)
{
    std::vector<int> l(s.small_size(5));
    for(int& x : l)
        x = static_cast<int>(s.range(-20, 20));
    return l;
}

// a program with mistakes
template <typename CharT>
void mistakes(vp::source& s, vp::ctx& c)
{
    builder b(s);
    b.max_text = 6;
    if(s.chance(1, 6))
    {
        while(b.pos.size() < 2)
            b.pos.push_back(gf::gen_value(s, gf::k_ints | gf::k_str | gf::k_bool | gf::k_double | gf::k_cp, 6));
        b.fmt = mf::soup(s, 12);
    }
    else
    {
        b.program(2, 1, 2, 3);
        for(std::size_t n = 1 + s.small_size(2); n > 0; --n)
            mf::edit(s, b.fmt);
    }
    mf::tame(b.fmt);
    std::vector<int> l = gen_list(s);
    judge<CharT>(c, b, s.boolean() ? &l : nullptr);
}

#define RULE_MISTAKES "the format is refused"
#endif
