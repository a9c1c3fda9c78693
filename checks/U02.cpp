// U02 - counting, iterating and locating characters agree with the text
#include "utfmodel.hpp"
#include <papilio/utf/codepoint.hpp>
#include <papilio/utf/stralgo.hpp>

using namespace papilio;
using utf::codepoint;
using utf::strlen_behavior;

namespace
{
template <typename CharT>
void count_all(const um::exact<CharT>& e, std::size_t expect, const char* what)
{
    std::basic_string_view<CharT> v = e.view();
    auto chk = [&](std::size_t got, const char* how)
    {
        if(got != expect)
            vp::fail(std::string("strlen ") + how + " of " + what + " " + um::tname<CharT>() + " " + vp::quote(v) + " is " + vp::str(got) + ", text has " + vp::str(expect) + " characters");
    };
    chk(utf::strlen(v), "(view)");
    chk(utf::strlen<strlen_behavior::replace>(v), "<replace>(view)");
    chk(utf::strlen<strlen_behavior::ignore>(v), "<ignore>(view)");
    chk(utf::strlen<strlen_behavior::stop>(v), "<stop>(view)");
    chk(utf::strlen<strlen_behavior::exception>(v), "<exception>(view)");
}

template <typename CharT>
void count_ptr(const CharT* p, std::size_t max, std::size_t expect)
{
    auto chk = [&](std::size_t got, const char* how)
    {
        if(got != expect)
            vp::fail(std::string("strlen ") + how + "(pointer, " + vp::str(max) + ") as " + um::tname<CharT>() + " is " + vp::str(got) + ", expected " + vp::str(expect));
    };
    chk(utf::strlen(p, max), "");
    chk(utf::strlen<strlen_behavior::replace>(p, max), "<replace>");
    chk(utf::strlen<strlen_behavior::ignore>(p, max), "<ignore>");
    chk(utf::strlen<strlen_behavior::stop>(p, max), "<stop>");
    chk(utf::strlen<strlen_behavior::exception>(p, max), "<exception>");
}

// unit offset of each character, and of the end
template <typename CharT>
std::vector<std::size_t> offsets(const um::text& t)
{
    std::vector<std::size_t> r{0};
    for(char32_t c : t)
        r.push_back(r.back() + um::enc<CharT>(c).size());
    return r;
}
} // namespace

VP_FACET(count, 120000, 3000000, "text mixing at least two encoded lengths")
{
    um::text t = um::gen_text(s, 14);
    c.note(vp::quote(std::u32string_view(t)));
    c.nontrivial_if(um::mixed(t));
    std::size_t k = s.draw(5);
    bool inner_nul = s.chance(1, 4);
    std::size_t cut = s.size(t.size());
    um::with_char(k, [&]<typename C>()
                  {
        c.tag(um::tname<C>());
        std::basic_string<C> u = um::enc<C>(t);
        um::exact<C> e(u);
        count_all<C>(e, t.size(), "text");
        // pointer with a limit, no terminator within the limit: must not look beyond the limit
        count_ptr<C>(e.data(), e.size(), t.size());
        // limit at a character boundary inside the text
        std::size_t off = offsets<C>(t)[cut];
        count_ptr<C>(e.data(), off, cut);
        // terminated, limit at or beyond the terminator
        um::exact<C> z(u, true);
        count_ptr<C>(z.data(), u.size() + 1, t.size());
        count_ptr<C>(z.data(), u.size() + 1000, t.size());
        count_ptr<C>(z.data(), std::size_t(-1), t.size());
        if(utf::strlen(z.data()) != t.size() || utf::strlen<strlen_behavior::exception>(z.data()) != t.size() || utf::strlen<strlen_behavior::stop>(z.data()) != t.size())
            vp::fail(std::string("strlen(pointer) wrong as ") + um::tname<C>());
        if(inner_nul)
        {
            // a view counts U+0000 as a character; a pointer stops at it
            std::basic_string<C> w = u + std::basic_string<C>(1, C(0)) + u;
            um::exact<C> ew(w);
            count_all<C>(ew, 2 * t.size() + 1, "text with U+0000");
            count_ptr<C>(ew.data(), ew.size(), t.size());
        } });
}

VP_FACET(locate, 120000, 3000000, "text mixing at least two encoded lengths")
{
    um::text t = um::gen_text(s, 12, true);
    c.note(vp::quote(std::u32string_view(t)));
    c.nontrivial_if(um::mixed(t));
    um::with_char(s.draw(5), [&]<typename C>()
                  {
        c.tag(um::tname<C>());
        um::exact<C> e(um::enc<C>(t));
        auto off = offsets<C>(t);
        const std::size_t n = t.size();
        for(std::size_t i = 0; i < n + 3; ++i)
        {
            std::size_t want = i < n ? off[i] : utf::npos;
            std::size_t rwant = i < n ? off[n - 1 - i] : utf::npos;
            std::size_t g1 = utf::index_offset(i, e.view());
            std::size_t g2 = utf::index_offset(i, e.data(), e.size());
            std::size_t g3 = utf::index_offset(reverse_index, i, e.view());
            std::size_t g4 = utf::index_offset(reverse_index, i, e.data(), e.size());
            if(g1 != want || g2 != want)
                vp::fail(std::string("index_offset(") + vp::str(i) + ") as " + um::tname<C>() + " is " + vp::str(g1) + "/" + vp::str(g2) + ", expected " + vp::str(want));
            if(g3 != rwant || g4 != rwant)
                vp::fail(std::string("index_offset(reverse_index, ") + vp::str(i) + ") as " + um::tname<C>() + " is " + vp::str(g3) + "/" + vp::str(g4) + ", expected " + vp::str(rwant));
        }
        for(std::size_t i : {std::size_t(-1), std::size_t(-2), std::size_t(1) << 63, std::size_t(1) << 32})
            VP_CHECK(utf::index_offset(i, e.view()) == utf::npos && utf::index_offset(reverse_index, i, e.view()) == utf::npos, vp::str(i)); });
}

VP_FACET(iterate, 120000, 3000000, "a walk with at least one step back over a multi-unit character")
{
    um::text t = um::gen_text(s, 10, true);
    c.note(vp::quote(std::u32string_view(t)));
    um::with_char(s.draw(5), [&]<typename C>()
                  {
        c.tag(um::tname<C>());
        um::exact<C> e(um::enc<C>(t));
        auto off = offsets<C>(t);
        const std::size_t n = t.size();
        auto first = utf::codepoint_begin(e.view());
        auto last = utf::codepoint_end(e.view());
        auto at = [&](const utf::codepoint_iterator<C>& it, std::size_t pos, const char* after)
        {
            if(it.base() != e.data() + off[pos])
                vp::fail(std::string(after) + ": iterator over " + um::tname<C>() + " is at unit " + vp::str(it.base() - e.data()) + ", expected " + vp::str(off[pos]));
            VP_CHECK((it == last) == (pos == n) && (it == first) == (pos == 0), after);
            if(pos < n)
            {
                VP_CHECK(static_cast<char32_t>(*it) == t[pos] && codepoint(*it) == codepoint(t[pos]), after);
                VP_CHECK(it.size() == off[pos + 1] - off[pos], after);
                VP_CHECK(&*it == e.data() + off[pos], after);
            }
        };
        // full sweeps
        {
            auto it = first;
            for(std::size_t i = 0; i < n; ++i)
            {
                at(it, i, "forward");
                ++it;
            }
            at(it, n, "forward end");
            for(std::size_t i = n; i > 0; --i)
            {
                --it;
                at(it, i - 1, "backward");
            }
        }
        // a random walk, with all moves
        auto it = s.boolean() ? first : last;
        std::size_t pos = it == first && n != 0 ? 0 : n;
        if(n == 0)
            pos = 0;
        std::size_t steps = s.draw(12);
        for(std::size_t k = 0; k < steps; ++k)
        {
            switch(s.draw(7))
            {
            case 0:
                if(pos < n)
                {
                    ++it;
                    ++pos;
                }
                break;
            case 1:
                if(pos > 0)
                {
                    --it;
                    --pos;
                    c.nontrivial_if(off[pos + 1] - off[pos] > 1 || (sizeof(C) == 4 && t[pos] > 0x7F));
                }
                break;
            case 2:
                if(pos < n)
                {
                    auto old = it++;
                    at(old, pos, "post-increment result");
                    ++pos;
                }
                break;
            case 3:
                if(pos > 0)
                {
                    auto old = it--;
                    at(old, pos, "post-decrement result");
                    --pos;
                }
                break;
            case 4:
            {
                std::size_t d = s.size(n);
                auto diff = static_cast<std::ptrdiff_t>(d) - static_cast<std::ptrdiff_t>(pos);
                switch(s.draw(4))
                {
                case 0: it += diff; break;
                case 1: it -= -diff; break;
                case 2: it = it + diff; break;
                default: it = diff + it; break;
                }
                pos = d;
                break;
            }
            case 5:
            {
                std::size_t d = s.size(n);
                auto other = first + static_cast<std::ptrdiff_t>(d);
                at(other, d, "begin + d");
                VP_CHECK(it - other == static_cast<std::ptrdiff_t>(pos) - static_cast<std::ptrdiff_t>(d), "difference of iterators");
                VP_CHECK(other - it == static_cast<std::ptrdiff_t>(d) - static_cast<std::ptrdiff_t>(pos), "difference of iterators");
                VP_CHECK((it < other) == (pos < d) && (it > other) == (pos > d) && (it == other) == (pos == d), "order of iterators");
                if(pos < n && d < n)
                    VP_CHECK((*it == *other) == (t[pos] == t[d]), "equality of referenced characters");
                break;
            }
            default:
            {
                std::size_t d = s.size(n);
                auto other = first + static_cast<std::ptrdiff_t>(d);
                if(s.boolean())
                    it.swap(other);
                else
                    swap(it, other);
                at(other, pos, "swap");
                pos = d;
                break;
            }
            }
            at(it, pos, "walk");
        } });
}

// ------------------------------------------------------------------ ill-formed text
// Well-formed characters with stray units between them: each stray unit is replaced (counted
// as one), ignored, stops the count or is reported, as asked for.
namespace
{
struct piece
{
    bool stray;
    std::uint32_t v;
};

template <typename CharT>
std::basic_string<CharT> build(const std::vector<piece>& p)
{
    std::basic_string<CharT> r;
    for(auto& x : p)
    {
        if(x.stray)
            r.push_back(static_cast<CharT>(x.v));
        else
            r += um::enc<CharT>(char32_t(x.v));
    }
    return r;
}

template <typename CharT, typename F>
void behave(const std::vector<piece>& p, F&& count)
{
    std::size_t chars = 0, strays = 0, before = 0;
    std::uint32_t firstbad = 0;
    for(auto& x : p)
    {
        if(x.stray)
        {
            if(strays == 0)
            {
                before = chars;
                firstbad = x.v;
            }
            ++strays;
        }
        else
            ++chars;
    }
    if(strays == 0)
        before = chars;
    std::size_t g = count.template operator()<strlen_behavior::replace>();
    VP_CHECK(g == chars + strays, "replace gives " + vp::str(g));
    g = count.template operator()<strlen_behavior::ignore>();
    VP_CHECK(g == chars, "ignore gives " + vp::str(g));
    g = count.template operator()<strlen_behavior::stop>();
    VP_CHECK(g == before, "stop gives " + vp::str(g));
    try
    {
        g = count.template operator()<strlen_behavior::exception>();
        VP_CHECK(strays == 0, "exception mode returned " + vp::str(g));
        VP_CHECK(g == chars, "exception mode returned " + vp::str(g));
    }
    catch(const utf::invalid_byte& ex)
    {
        VP_CHECK(sizeof(CharT) == 1 && strays > 0 && ex.get() == firstbad, "invalid_byte " + vp::str(int(ex.get())));
    }
    catch(const utf::invalid_surrogate& ex)
    {
        VP_CHECK(sizeof(CharT) == 2 && strays > 0 && ex.get() == firstbad, "invalid_surrogate " + vp::str(int(ex.get())));
    }
}
} // namespace

VP_FACET(stray_units, 80000, 2000000, "at least one stray unit after at least one character")
{
    std::size_t n = 1 + s.draw(8);
    int k = static_cast<int>(s.draw(3));
    std::vector<piece> p;
    bool bad = false;
    for(std::size_t i = 0; i < n; ++i)
    {
        if(s.chance(1, 3))
        {
            std::uint32_t v;
            if(k < 2)
            {
                v = 0x80 + static_cast<std::uint32_t>(s.draw(72)); // a stray trailing byte, or a byte never used
                if(v >= 0xC0)
                    v += 0xF8 - 0xC0;
            }
            else
            {
                // an unpaired surrogate; a high one must not be followed by a low one
                v = 0xD800 + static_cast<std::uint32_t>(s.draw(2048));
                if(v >= 0xDC00 && !p.empty() && p.back().stray && p.back().v < 0xDC00)
                    v -= 0x400;
            }
            c.nontrivial_if(i > 0);
            bad = true;
            p.push_back({true, v});
        }
        else
            p.push_back({false, std::uint32_t(um::gen_scalar(s))});
    }
    auto run = [&]<typename C>()
    {
        std::basic_string<C> u = build<C>(p);
        c.note(vp::quote(std::basic_string_view<C>(u)));
        um::exact<C> e(u);
        behave<C>(p, [&]<strlen_behavior B>()
                  { return utf::strlen<B>(e.view()); });
        behave<C>(p, [&]<strlen_behavior B>()
                  { return utf::strlen<B>(e.data(), e.size()); });
        um::exact<C> z(u, true);
        behave<C>(p, [&]<strlen_behavior B>()
                  { return utf::strlen<B>(z.data()); });
        behave<C>(p, [&]<strlen_behavior B>()
                  { return utf::strlen<B>(z.data(), e.size() + 5); });
        // iteration visits every unit once, in order, and ends at the end
        auto it = utf::codepoint_begin(e.view());
        auto last = utf::codepoint_end(e.view());
        std::size_t steps = 0, off = 0;
        for(; it != last; ++it, ++steps)
        {
            VP_CHECK(steps < p.size() && it.base() == e.data() + off, "forward iteration over ill-formed text");
            off += p[steps].stray ? 1 : um::enc<C>(char32_t(p[steps].v)).size();
        }
        if(sizeof(C) == 1)
            VP_CHECK(steps == p.size() && off == e.size(), "forward iteration over ill-formed text visits " + vp::str(steps));
    };
    switch(k)
    {
    case 0: run.operator()<char>(); break;
    case 1: run.operator()<char8_t>(); break;
    default:
        if(!p.empty())
        {
            // iterating stops being defined by position for unpaired surrogates; only count them
            std::basic_string<char16_t> u = build<char16_t>(p);
            c.note(vp::quote(std::u16string_view(u)));
            um::exact<char16_t> e(u), z(u, true);
            behave<char16_t>(p, [&]<strlen_behavior B>()
                             { return utf::strlen<B>(e.view()); });
            behave<char16_t>(p, [&]<strlen_behavior B>()
                             { return utf::strlen<B>(e.data(), e.size()); });
            behave<char16_t>(p, [&]<strlen_behavior B>()
                             { return utf::strlen<B>(z.data()); });
        }
        break;
    }
    (void)bad;
}

// The text ends inside a character: nothing beyond the text may be read, and the
// reporting mode reports it.
VP_FACET(truncated, 80000, 2000000, "truncation inside a multi-unit character")
{
    um::text t = um::gen_text(s, 6);
    char32_t lastc = 0;
    switch(s.draw(3))
    {
    case 0: lastc = char32_t(0x80 + s.draw(0x780)); break;
    case 1: lastc = char32_t(0x800 + s.draw(0xD000)); break;
    default: lastc = char32_t(0x10000 + s.draw(0x100000)); break;
    }
    auto run = [&]<typename C>()
    {
        std::basic_string<C> l = um::enc<C>(lastc);
        if(l.size() < 2)
            throw vp::discard{"one unit"};
        std::size_t keep = 1 + s.draw(l.size() - 1);
        std::basic_string<C> u = um::enc<C>(t) + l.substr(0, keep);
        c.note(vp::quote(std::basic_string_view<C>(u)));
        c.nontrivial();
        um::exact<C> e(u);
        (void)utf::strlen<strlen_behavior::replace>(e.view());
        (void)utf::strlen<strlen_behavior::ignore>(e.view());
        (void)utf::strlen<strlen_behavior::stop>(e.view());
        (void)utf::strlen<strlen_behavior::replace>(e.data(), e.size());
        (void)utf::strlen<strlen_behavior::ignore>(e.data(), e.size());
        (void)utf::strlen<strlen_behavior::stop>(e.data(), e.size());
        for(int i = 0; i < 2; ++i)
        {
            bool thrown = false;
            try
            {
                if(i == 0)
                    (void)utf::strlen<strlen_behavior::exception>(e.view());
                else
                    (void)utf::strlen<strlen_behavior::exception>(e.data(), e.size());
            }
            catch(const std::invalid_argument&)
            {
                thrown = true;
            }
            VP_CHECK(thrown, "a truncated character was not reported");
        }
        auto off = offsets<C>(t);
        for(std::size_t i = 0; i <= t.size() + 2; ++i)
        {
            std::size_t g = utf::index_offset(i, e.view());
            VP_CHECK(i > t.size() || g == off[i], "index_offset before the truncation");
            VP_CHECK(g == utf::npos || g < e.size(), "index_offset outside the text");
            g = utf::index_offset(reverse_index, i, e.view());
            VP_CHECK(g == utf::npos || g < e.size(), "index_offset outside the text");
        }
        auto it = utf::codepoint_begin(e.view());
        auto last = utf::codepoint_end(e.view());
        std::size_t steps = 0;
        for(; it != last; ++it, ++steps)
            VP_CHECK(steps <= t.size() && it.base() == e.data() + off[steps], "iteration over truncated text");
        VP_CHECK(steps == t.size() + 1, "iteration over truncated text");
    };
    switch(s.draw(3))
    {
    case 0: run.operator()<char>(); break;
    case 1: run.operator()<char8_t>(); break;
    default: run.operator()<char16_t>(); break;
    }
}
