#ifndef O02_ALL_HPP
#define O02_ALL_HPP
#include "O01_common.hpp"
#include <sstream>

#define RULE_O02 "the limit cuts the result, inside a field or directly at its edge"

// Calls format_to_n with or without a locale
template <typename CharT, typename OutputIt>
auto to_n(OutputIt out, std::ptrdiff_t n, std::basic_string_view<CharT> fmt, const pack<CharT>& p, bool loc)
{
    return p.apply(
        [&](auto&&... a)
        {
            if constexpr(has_locale<CharT>)
                if(loc)
                    return papilio::format_to_n(out, n, std::locale::classic(), fmt, a...);
            return papilio::format_to_n(out, n, fmt, a...);
        }
    );
}

template <typename CharT>
void bounded(vp::source& s, vp::ctx& c)
{
    using namespace papilio;
    using str = std::basic_string<CharT>;
    builder b(s);
    pack<CharT> p = prepare<CharT>(s, b);
    b.program(7, 2, 3, 2);
    const str full = um::enc<CharT>(b.out);
    const std::size_t len = full.size();
    std::size_t n = 0;
    switch(s.draw(5))
    {
    case 0: n = s.draw(3); break;
    case 1: n = len + s.draw(4); break;
    case 2: n = len - (len ? 1 + s.draw(std::min<std::size_t>(len, 3)) : 0); break;
    default: n = s.draw(len + 1); break;
    }
    const std::size_t k = std::min(n, len);
    const str want = full.substr(0, k);
    const std::ptrdiff_t limit = s.chance(1, 40) && n >= len ? PTRDIFF_MAX : static_cast<std::ptrdiff_t>(n);
    const bool loc = s.chance(1, 4);
    c.note(std::string(um::tname<CharT>()) + " n=" + std::to_string(limit) + " " + b.note());
    c.nontrivial_if(n > 0 && n < len && b.n_fields + b.n_scripts >= 1);
    c.tag(n == 0 ? "zero" : n < len ? "cut" : n == len ? "exact" : "beyond");
    um::exact<CharT> mem(um::enc<CharT>(b.fmt));
    auto fmt = mem.view();
    auto same = [&](const auto& got, std::ptrdiff_t size, const char* what)
    {
        str g(got.begin(), got.end());
        if(g != want)
            vp::fail(std::string(what) + ": got " + vp::quote(g) + ", expected " + vp::quote(want));
        if(size != static_cast<std::ptrdiff_t>(k))
            vp::fail(std::string(what) + ": reported " + std::to_string(size) + " characters, wrote " + std::to_string(k));
    };
    switch(s.draw(6))
    {
    case 0: // memory that ends right after the last character (AddressSanitizer)
    {
        c.tag("pointer");
        std::unique_ptr<CharT[]> buf(new CharT[k]);
        auto r = to_n<CharT>(buf.get(), limit, fmt, p, loc);
        VP_CHECK(r.out == buf.get() + k, "the returned pointer is not past the last character");
        same(str(buf.get(), k), r.size, "pointer");
        break;
    }
    case 1: // memory that goes on with other characters
    {
        c.tag("buffer");
        str buf(len + 8, CharT(0x55));
        auto r = to_n<CharT>(buf.begin(), limit, fmt, p, loc);
        VP_CHECK(r.out == buf.begin() + static_cast<std::ptrdiff_t>(k), "the returned iterator is not past the last character");
        for(std::size_t i = k; i < buf.size(); ++i)
            VP_CHECK(buf[i] == CharT(0x55), "written past the limit");
        same(buf.substr(0, k), r.size, "iterator of a string");
        break;
    }
    case 2:
    {
        c.tag("strict");
        std::vector<CharT> v;
        auto r = to_n<CharT>(strict_iterator<CharT>{&v}, limit, fmt, p, loc);
        VP_CHECK(r.out.at == v.size(), "the returned iterator is not past the last character");
        same(v, r.size, "counting output iterator");
        break;
    }
    case 3:
    {
        c.tag("string_inserter");
        str v(p.str);
        auto r = to_n<CharT>(std::back_inserter(v), limit, fmt, p, loc);
        VP_CHECK(v.substr(0, p.str.size()) == p.str, "earlier contents changed");
        same(v.substr(p.str.size()), r.size, "back_inserter of a string");
        *r.out = CharT('|');
        VP_CHECK(v.size() == p.str.size() + k + 1, "the returned inserter continues elsewhere");
        break;
    }
    case 4:
    {
        c.tag("list");
        std::list<CharT> l(k, CharT('.'));
        l.push_back(CharT('!'));
        auto r = to_n<CharT>(l.begin(), limit, fmt, p, loc);
        VP_CHECK(r.out == std::prev(l.end()), "the returned iterator is not past the last character");
        VP_CHECK(l.back() == CharT('!'), "written past the limit");
        l.pop_back();
        same(l, r.size, "iterator of a list");
        break;
    }
    default:
    {
        c.tag("stream");
        std::basic_ostringstream<CharT> os;
        if(sizeof(CharT) == 2 && b.out.find(U'\uFFFF') != text::npos)
            throw vp::discard{"the stream buffer of the standard library takes U+FFFF for the end of file"};
        auto r = s.boolean() ? to_n<CharT>(std::ostreambuf_iterator<CharT>(os), limit, fmt, p, loc).size :
                               to_n<CharT>(std::ostream_iterator<CharT, CharT>(os), limit, fmt, p, loc).size;
        same(os.str(), r, "stream");
        break;
    }
    }
}

// Two calls one after the other: the second goes on where the first stopped, as if the text had
// been cut into pieces
template <typename CharT>
void continued(vp::source& s, vp::ctx& c)
{
    using str = std::basic_string<CharT>;
    builder b(s);
    pack<CharT> p = prepare<CharT>(s, b);
    b.program(4, 2, 3, 2);
    const str full = um::enc<CharT>(b.out);
    um::exact<CharT> mem(um::enc<CharT>(b.fmt));
    std::size_t room = s.draw(3 * full.size() + 2);
    std::string log = std::string(um::tname<CharT>()) + " room=" + std::to_string(room) + " " + b.note();
    c.note(log);
    std::unique_ptr<CharT[]> buf(new CharT[room]);
    CharT* at = buf.get();
    str want;
    unsigned calls = 0;
    while(calls < 4)
    {
        auto left = room - static_cast<std::size_t>(at - buf.get());
        auto r = to_n<CharT>(at, static_cast<std::ptrdiff_t>(left), mem.view(), p, false);
        auto k = std::min(left, full.size());
        want += full.substr(0, k);
        VP_CHECK(r.size == static_cast<std::ptrdiff_t>(k) && r.out == at + k, "wrong count or iterator after call " + std::to_string(calls));
        at = r.out;
        ++calls;
    }
    c.nontrivial_if(room > full.size() && room < 4 * full.size());
    VP_CHECK(str(buf.get(), at) == want, "got " + vp::quote(str(buf.get(), at)) + ", expected " + vp::quote(want));
}

// Nothing is written beyond the limit by a call that fails either, and what is there is the
// beginning of what the call without a limit writes
template <typename CharT>
void failing(vp::source& s, vp::ctx& c)
{
    using str = std::basic_string<CharT>;
    builder b(s);
    pack<CharT> p = prepare<CharT>(s, b);
    b.program(4, 1, 2, 2);
    for(std::size_t n = 1 + s.small_size(2); n > 0; --n)
        mf::edit(s, b.fmt);
    mf::tame(b.fmt);
    if(p.i > 1000 || p.i < -1000)
    {
        p.i %= 1000;
        b.pos[0].i = p.i;
    }
    um::exact<CharT> mem(um::enc<CharT>(b.fmt));
    str full;
    bool refused = false;
    try
    {
        p.apply([&](auto&&... a)
                { papilio::format_to(std::back_inserter(full), mem.view(), a...); });
    }
    catch(const std::exception&)
    {
        refused = true;
    }
    std::size_t n = s.draw(full.size() + 3);
    c.note(std::string(um::tname<CharT>()) + " n=" + std::to_string(n) + " " + b.note());
    c.nontrivial_if(refused && n > 0);
    std::vector<CharT> v;
    bool threw = false;
    std::ptrdiff_t size = -1;
    try
    {
        size = to_n<CharT>(strict_iterator<CharT>{&v}, static_cast<std::ptrdiff_t>(n), mem.view(), p, false).size;
    }
    catch(const std::exception&)
    {
        threw = true;
    }
    c.tag(threw ? "threw" : refused ? "stopped" : "accepted");
    str g(v.begin(), v.end());
    if(g.size() > n)
        vp::fail("written " + std::to_string(g.size()) + " characters, the limit is " + std::to_string(n));
    if(g != full.substr(0, std::min(n, full.size())))
        vp::fail("got " + vp::quote(g) + ", the call without a limit wrote " + vp::quote(full));
    if(!threw)
    {
        VP_CHECK(size == static_cast<std::ptrdiff_t>(g.size()), "reported " + std::to_string(size) + ", wrote " + std::to_string(g.size()));
        VP_CHECK(!refused || size == static_cast<std::ptrdiff_t>(n), "an error was swallowed before the limit was reached");
    }
    else
        VP_CHECK(refused, "refused only with a limit");
}
#endif
