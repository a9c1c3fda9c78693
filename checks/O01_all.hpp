#ifndef O01_ALL_HPP
#define O01_ALL_HPP
#include "O01_common.hpp"

#define RULE_O01 "at least two fields or scripts and a result with characters"

template <typename CharT, typename OutputIt>
OutputIt to(OutputIt out, std::basic_string_view<CharT> fmt, const pack<CharT>& p, bool v)
{
    using ctx = papilio::basic_format_context<OutputIt, CharT>;
    return p.apply(
        [&](auto&&... a)
        {
            if(v)
                return papilio::vformat_to(out, fmt, papilio::make_format_args<ctx>(a...));
            return papilio::format_to(out, fmt, a...);
        }
    );
}

template <typename CharT>
void entry_points(vp::source& s, vp::ctx& c)
{
    using namespace papilio;
    using str = std::basic_string<CharT>;
    builder b(s);
    pack<CharT> p = prepare<CharT>(s, b);
    b.program(7, 2, 3, 2);
    c.note(std::string(um::tname<CharT>()) + " " + b.note());
    c.nontrivial_if(b.n_fields + b.n_scripts >= 2 && !b.out.empty());
    const str want = um::enc<CharT>(b.out);
    um::exact<CharT> mem(um::enc<CharT>(b.fmt));
    auto fmt = mem.view();
    auto same = [&](const auto& got, const char* what)
    {
        str g(got.begin(), got.end());
        if(g != want)
            vp::fail(std::string(what) + ": got " + vp::quote(g) + ", expected " + vp::quote(want));
    };
    switch(s.draw(10))
    {
    case 0:
        c.tag("format");
        same(p.apply([&](auto&&... a)
                     { return papilio::format(fmt, a...); }),
             "format");
        break;
    case 1:
        c.tag("vformat");
        same(p.apply([&](auto&&... a)
                     { return papilio::vformat(fmt, make_format_args<base_ctx<CharT>>(a...)); }),
             "vformat");
        break;
    case 2:
    {
        c.tag("string_inserter");
        str r = p.str; // appends to what is there
        to<CharT>(std::back_inserter(r), fmt, p, s.boolean());
        VP_CHECK(r.substr(0, p.str.size()) == p.str, "earlier contents changed");
        same(r.substr(p.str.size()), "back_inserter of a string");
        break;
    }
    case 3:
    {
        c.tag("pointer");
        std::unique_ptr<CharT[]> buf(new CharT[want.size() + 1]);
        buf[want.size()] = CharT(0x55);
        CharT* e = to<CharT>(buf.get(), fmt, p, s.boolean());
        if(e != buf.get() + want.size())
            vp::fail("the returned pointer is at " + std::to_string(e - buf.get()) + " of " + std::to_string(want.size()));
        VP_CHECK(buf[want.size()] == CharT(0x55), "written past the end");
        same(str(buf.get(), want.size()), "pointer");
        break;
    }
    case 4:
    {
        c.tag("inserter");
        std::list<CharT> l{CharT('<'), CharT('>')};
        auto it = to<CharT>(std::inserter(l, std::next(l.begin())), fmt, p, s.boolean());
        *it = CharT('|');
        l.pop_front();
        VP_CHECK(l.back() == CharT('>'), "inserted at the wrong place");
        l.pop_back();
        VP_CHECK(!l.empty() && l.back() == CharT('|'), "the returned inserter continues elsewhere");
        l.pop_back();
        same(l, "inserter of a list");
        break;
    }
    case 5:
    {
        c.tag("deque");
        std::deque<CharT> q(want.size());
        auto e = to<CharT>(q.begin(), fmt, p, s.boolean());
        VP_CHECK(e == q.end(), "the returned iterator is not past the last character");
        same(q, "iterator of a deque");
        break;
    }
    case 6:
    {
        c.tag("strict");
        std::vector<CharT> r;
        strict_iterator<CharT> e = to<CharT>(strict_iterator<CharT>{&r}, fmt, p, s.boolean());
        VP_CHECK(e.at == r.size(), "the returned iterator is not past the last character");
        same(r, "counting output iterator");
        break;
    }
    case 7:
    {
        c.tag("size");
        std::size_t n = p.apply([&](auto&&... a)
                                { return papilio::formatted_size(fmt, a...); });
        if(n != want.size())
            vp::fail("formatted_size: " + std::to_string(n) + " for " + std::to_string(want.size()) + " characters");
        break;
    }
    case 8:
    {
        c.tag("dynamic");
        basic_dynamic_format_args<base_ctx<CharT>, CharT> args;
        p.apply([&](auto&&... a)
                { (args.emplace(a), ...); });
        basic_format_args_ref<base_ctx<CharT>, CharT> ref(args);
        same(s.boolean() ? papilio::vformat(fmt, args) : papilio::vformat(fmt, ref), "dynamic arguments");
        break;
    }
    default:
        if constexpr(has_locale<CharT>)
        {
            c.tag("locale");
            std::locale l = std::locale::classic();
            switch(s.draw(4))
            {
            case 0:
                same(p.apply([&](auto&&... a)
                             { return papilio::format(l, fmt, a...); }),
                     "format with a locale");
                break;
            case 1:
                same(p.apply([&](auto&&... a)
                             { return papilio::vformat(l, fmt, make_format_args<base_ctx<CharT>>(a...)); }),
                     "vformat with a locale");
                break;
            case 2:
            {
                std::size_t n = p.apply([&](auto&&... a)
                                        { return papilio::formatted_size(l, fmt, a...); });
                VP_CHECK(n == want.size(), "formatted_size with a locale");
                break;
            }
            default:
            {
                str r;
                p.apply([&](auto&&... a)
                        { papilio::format_to(std::back_inserter(r), l, fmt, a...); });
                same(r, "format_to with a locale");
                break;
            }
            }
        }
        break;
    }
}

// Iterating over the result lazily
template <typename CharT>
void lazily(vp::source& s, vp::ctx& c)
{
    using namespace papilio;
    using str = std::basic_string<CharT>;
    builder b(s);
    pack<CharT> p = prepare<CharT>(s, b);
    b.program(7, 2, 3, 2);
    c.note(std::string(um::tname<CharT>()) + " " + b.note());
    c.nontrivial_if(b.n_fields + b.n_scripts >= 2);
    const str want = um::enc<CharT>(b.out);
    um::exact<CharT> mem(um::enc<CharT>(b.fmt));
    basic_dynamic_format_args<base_ctx<CharT>, CharT> args;
    p.apply([&](auto&&... a)
            { (args.emplace(a), ...); });
    formatted_range<CharT> fr(mem.view(), args);
    str got;
    switch(s.draw(4))
    {
    case 0:
        c.tag("loop");
        for(CharT ch : fr)
            got += ch;
        break;
    case 1:
        c.tag("algorithm");
        std::ranges::copy(fr, std::back_inserter(got));
        break;
    case 2: // looked at several times, moved now and then
    {
        c.tag("moved");
        auto it = fr.begin();
        using iter = decltype(it);
        while(!(it == fr.end()))
        {
            if(s.chance(1, 4))
            {
                iter other(std::move(it));
                got += *other;
                ++other;
                if(s.boolean())
                    it = std::move(other);
                else
                {
                    iter third(std::move(other));
                    it = std::move(third);
                }
                continue;
            }
            if(s.boolean())
                VP_CHECK(*it == *it, "two looks at a character differ");
            if(s.boolean())
                VP_CHECK(it != fr.end(), "at the end although there is a character");
            got += *it;
            if(s.boolean())
                ++it;
            else
                it++;
        }
        VP_CHECK(it == fr.end(), "no longer at the end");
        break;
    }
    default: // skips characters without looking at them
    {
        c.tag("skipping");
        auto it = fr.begin();
        std::size_t at = 0;
        while(at < want.size())
        {
            std::size_t k = s.draw(4);
            for(; k > 0 && at < want.size(); --k, ++at)
                ++it;
            if(at < want.size())
            {
                CharT ch = *it;
                if(ch != want[at])
                    vp::fail("character " + std::to_string(at) + " differs");
            }
        }
        VP_CHECK(it == fr.end(), "more characters than the result has");
        got = want;
        break;
    }
    }
    if(got != want)
        vp::fail("lazily formatted: got " + vp::quote(got) + ", expected " + vp::quote(want));
}

// The interpreter run in pieces
template <typename CharT>
void stepping(vp::source& s, vp::ctx& c)
{
    using namespace papilio;
    using str = std::basic_string<CharT>;
    builder b(s);
    pack<CharT> p = prepare<CharT>(s, b);
    b.program(7, 2, 3, 2);
    c.note(std::string(um::tname<CharT>()) + " " + b.note());
    const str want = um::enc<CharT>(b.out);
    um::exact<CharT> mem(um::enc<CharT>(b.fmt));
    using context = basic_format_context<std::back_insert_iterator<str>, CharT>;
    p.apply(
        [&](auto&&... a)
        {
            auto args = make_format_args<context>(a...);
            basic_interpreter<context> intp;
            std::size_t total = 0;
            {
                str whole;
                context fc(std::back_inserter(whole), args);
                basic_format_parse_context<context> pc(mem.view(), args);
                auto ic = intp.create_context(pc, fc);
                total = intp.run_n(ic, std::size_t(-1));
                VP_CHECK(ic.input_at_end(), "not at the end after all steps");
                VP_CHECK(intp.run_n(ic, 5) == 0, "a step after the end");
                if(whole != want)
                    vp::fail("run in one piece: got " + vp::quote(whole) + ", expected " + vp::quote(want));
            }
            str got;
            context fc(std::back_inserter(got), args);
            basic_format_parse_context<context> pc(mem.view(), args);
            auto ic = intp.create_context(pc, fc);
            std::size_t done = 0, pieces = 0;
            while(done < total)
            {
                VP_CHECK(!ic.input_at_end(), "at the end before all steps");
                ++pieces;
                std::size_t left = total - done;
                switch(s.draw(5))
                {
                case 0:
                    intp.run_once(ic);
                    ++done;
                    break;
                case 1:
                {
                    std::size_t n = s.size(left + 2), r = intp.run_n(ic, n);
                    if(r != std::min(n, left))
                        vp::fail("run_n(" + std::to_string(n) + ") with " + std::to_string(left) + " steps left took " + std::to_string(r));
                    done += r;
                    break;
                }
                case 2:
                {
                    std::size_t n = s.size(left + 2), asked = 0, r = intp.run_if(ic, [&]
                                                                               { return asked++ < n; });
                    if(r != std::min(n, left) || asked != std::min(n + 1, left))
                        vp::fail("run_if allowing " + std::to_string(n) + " with " + std::to_string(left) + " steps left took " + std::to_string(r) + " and asked " + std::to_string(asked) + " times");
                    done += r;
                    break;
                }
                case 3: // until there is output of some length
                {
                    std::size_t len = got.size() + s.size(4);
                    done += intp.run_if(ic, [&]
                                        { return got.size() < len; });
                    VP_CHECK(got.size() >= len || done == total, "stopped for no reason");
                    break;
                }
                default: // leave and come back with another interpreter
                {
                    ic.update_input_context();
                    basic_interpreter<context> other;
                    auto next = other.create_context(pc, fc);
                    other.run_once(next);
                    ++done;
                    ic.advance_input_to(next.input());
                    break;
                }
                }
                VP_CHECK(got.size() <= want.size() && want.compare(0, got.size(), got) == 0, "the output so far is not the beginning of the result");
            }
            VP_CHECK(ic.input_at_end(), "not at the end after all steps");
            if(got != want)
                vp::fail("run in pieces: got " + vp::quote(got) + ", expected " + vp::quote(want));
            c.nontrivial_if(b.n_fields + b.n_scripts >= 2 && pieces >= 2);
        }
    );
}

// A format that is refused is refused by all
template <typename CharT>
void refused(vp::source& s, vp::ctx& c)
{
    using namespace papilio;
    using str = std::basic_string<CharT>;
    builder b(s);
    pack<CharT> p = prepare<CharT>(s, b);
    b.program(3, 1, 2, 2);
    for(std::size_t n = s.small_size(2); n > 0; --n)
        mf::edit(s, b.fmt);
    mf::tame(b.fmt);
    if(p.i > 1000 || p.i < -1000)
    {
        p.i %= 1000;
        b.pos[0].i = p.i;
    }
    c.note(std::string(um::tname<CharT>()) + " " + b.note());
    um::exact<CharT> mem(um::enc<CharT>(b.fmt));
    auto fmt = mem.view();
    auto outcome = [](auto&& f) -> std::pair<str, std::string>
    {
        try
        {
            return {f(), ""};
        }
        catch(const std::exception& e)
        {
            return {str(), std::string(typeid(e).name()) + " " + e.what()};
        }
    };
    auto base = outcome([&]
                        { return p.apply([&](auto&&... a)
                                         { return papilio::vformat(fmt, make_format_args<base_ctx<CharT>>(a...)); }); });
    c.nontrivial_if(!base.second.empty());
    c.tag(base.second.empty() ? "accepted" : "refused");
    auto agree = [&](const std::pair<str, std::string>& got, const char* what)
    {
        if(got != base)
            vp::fail(std::string(what) + ": " + vp::quote(got.first) + " " + got.second + ", vformat: " + vp::quote(base.first) + " " + base.second);
    };
    switch(s.draw(4))
    {
    case 0:
    {
        auto r = outcome([&]
                         { return str(p.apply([&](auto&&... a)
                                              { return papilio::formatted_size(fmt, a...); }),
                                      CharT('x')); });
        agree({base.first.size() == r.first.size() ? base.first : r.first, r.second}, "formatted_size");
        break;
    }
    case 1:
        agree(outcome([&]
                      {
            std::vector<CharT> r;
            to<CharT>(strict_iterator<CharT>{&r}, fmt, p, false);
            return str(r.begin(), r.end()); }),
              "output iterator");
        break;
    case 2:
        agree(outcome([&]
                      {
            basic_dynamic_format_args<base_ctx<CharT>, CharT> args;
            p.apply([&](auto&&... a)
                    { (args.emplace(a), ...); });
            formatted_range<CharT> fr(fmt, args);
            str r;
            for(CharT ch : fr)
                r += ch;
            return r; }),
              "lazy iteration");
        break;
    default:
        agree(outcome([&]
                      { return p.apply([&](auto&&... a)
                                       { return papilio::format(fmt, a...); }); }),
              "format");
        break;
    }
}
#endif
