// R01 - no format string or argument makes formatting misbehave
#ifndef R01_COMMON_HPP
#define R01_COMMON_HPP
#include "mutfmt.hpp"
#include "zoo.hpp"

using namespace papilio;
using gf::text;

#define RULE_R01 "at least one replacement field was reached: some output of an argument, or an exception"

// Every call ends in text or a standard exception, and leaves no memory behind.
template <typename CharT, typename Args>
void survive(vp::source& s, vp::ctx& c, const text& fmt, const Args& args)
{
    using str = std::basic_string<CharT>;
    um::exact<CharT> mem(um::enc<CharT>(fmt));
    auto before = vp::alloc_now();
    std::size_t how = s.draw(4);
    bool threw = false;
    {
        try
        {
            switch(how)
            {
            case 0:
            {
                str r = papilio::vformat(mem.view(), args);
                break;
            }
            case 1:
            {
                str r;
                papilio::vformat_to(std::back_inserter(r), mem.view(), args);
                break;
            }
            case 2:
            {
                if constexpr(std::is_same_v<CharT, char> || std::is_same_v<CharT, wchar_t>)
                    str r = papilio::vformat(std::locale::classic(), mem.view(), args);
                else
                    str r = papilio::vformat(mem.view(), args);
                break;
            }
            default:
            {
                // the same, with positions of errors
                using ctx_t = basic_format_context<format_iterator_for<CharT>, CharT>;
                str r;
                basic_format_parse_context<ctx_t> pctx(mem.view(), args);
                ctx_t fctx(std::back_inserter(r), args);
                basic_interpreter<ctx_t, true> intp;
                intp.format(pctx, fctx);
                break;
            }
            }
        }
        catch(const typename basic_interpreter<basic_format_context<format_iterator_for<CharT>, CharT>, true>::extended_error& e)
        {
            threw = true;
            // the position is one of the format string
            auto it = utf::codepoint_begin(mem.view()), end = utf::codepoint_end(mem.view());
            while(it != end && it != e.get_iter())
                ++it;
            VP_CHECK(it == e.get_iter(), "the position of the error is not in the format string");
        }
        catch(const std::exception& e)
        {
            threw = true;
            VP_CHECK(e.what() != nullptr && *e.what(), "an exception without description");
        }
    }
    auto after = vp::alloc_now();
    c.tag(threw ? "threw" : "text");
    c.nontrivial_if(threw || fmt.find(U'{') != text::npos);
    if(after.live_blocks != before.live_blocks)
        vp::fail("memory left allocated: " + std::to_string(after.live_blocks - before.live_blocks) + " blocks");
}

template <typename CharT>
void warm_up()
{
    // what the standard library allocates once
    static bool done = []
    {
        std::tm t{};
        t.tm_mday = 1;
        using ctx_t = basic_format_context<format_iterator_for<CharT>, CharT>;
        for(int i = 0; i < 2; ++i)
            try
            {
                (void)papilio::vformat(um::enc<CharT>(U"{0} {0:%c %x %X %p %Z} {1} {2}"), papilio::make_format_args<ctx_t>(t, 1.5, true));
            }
            catch(const std::exception&)
            {}
        return true;
    }();
    (void)done;
}

// programs of the grammar, broken in a few places, with the arguments they were made for
// or with arguments of any kind
template <typename CharT>
void broken(vp::source& s, vp::ctx& c, bool broken_text)
{
    warm_up<CharT>();
    gf::builder b(s);
    b.program(6, 1, 3, 2);
    text fmt = b.fmt;
    for(std::size_t n = s.small_size(5); n > 0; --n)
        mf::edit(s, fmt);
    mf::tame(fmt);
    using H = gf::holder<CharT>;
    H h;
    zoo::store st;
    basic_dynamic_format_args<typename H::ctx_t, CharT> args;
    std::string kinds;
    for(auto& v : b.pos)
    {
        if(s.chance(1, 3) || (gf::is_int(v) && v.i > 5000))
            kinds += std::string(zoo::with<CharT>(s, st, broken_text, [&](const auto& x)
                                                  { args.emplace(x); })) +
                     ", ";
        else
        {
            kinds += gf::show(v) + ", ";
            h.with(v, [&](auto& x)
                   { args.emplace(x); });
        }
    }
    for(auto& [n, v] : b.named)
    {
        const CharT* np = h.string(n).c_str();
        if(gf::is_int(v) && v.i > 5000)
            v.i = 5;
        h.with(v, [&](auto& x)
               { args.emplace(papilio::arg(np, x)); });
        kinds += um::enc<char>(n) + "=" + gf::show(v) + ", ";
    }
    c.note(vp::quote(um::enc<char>(fmt)) + " with (" + kinds + ")");
    survive<CharT>(s, c, fmt, args);
}

// a single field for a value of any kind, from a soup of tokens or a random specification
template <typename CharT>
void field(vp::source& s, vp::ctx& c, bool broken_text)
{
    warm_up<CharT>();
    zoo::store st;
    using H = gf::holder<CharT>;
    basic_dynamic_format_args<typename H::ctx_t, CharT> args;
    std::string kinds;
    std::size_t n_args = 1 + s.size(2);
    for(std::size_t i = 0; i < n_args; ++i)
        kinds += std::string(zoo::with<CharT>(s, st, broken_text, [&](const auto& x)
                                              { args.emplace(x); })) +
                 ", ";
    c.tag(kinds.substr(0, kinds.find(',')));
    text fmt;
    switch(s.draw(4))
    {
    case 0: fmt = mf::soup(s, 12); break;
    case 1: fmt = U"{" + mf::soup(s, 6) + U"}"; break;
    default:
    {
        fmt = s.boolean() ? U"{0" : U"{";
        if(s.chance(1, 3))
            fmt += s.pick<text>({U"[0]", U"[-1]", U"[1:]", U"[:]", U"['a']", U".size", U".length", U".first", U".value", U".text", U".year", U"[0][0]", U"[0].size", U"[1:][0]"});
        fmt += U':';
        for(std::size_t n = s.small_size(3); n > 0; --n)
            fmt += mf::token(s);
        fm::spec sp = fm::gen(s, fm::f_sign | fm::f_alt | fm::f_zero | fm::f_width | fm::f_precision | fm::f_loc, U"dxobscfeagpnmt?", 20);
        sp.manual = false;
        if(sp.wmode == 2)
            sp.wmode = 0;
        if(sp.pmode == 2)
            sp.pmode = 0;
        fmt += fm::spec_text(sp);
        for(std::size_t n = s.small_size(2); n > 0; --n)
            fmt += mf::token(s);
        fmt += U"}";
        break;
    }
    }
    mf::tame(fmt);
    c.note(vp::quote(um::enc<char>(fmt)) + " with (" + kinds + ")");
    survive<CharT>(s, c, fmt, args);
}

#endif
