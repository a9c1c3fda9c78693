// U03 - ill-formed text: a query answers or reports the ill-formed unit. It never reads outside of
// the text, never terminates the program, and queries that look at units only are exact.
#include "U03_common.hpp"

namespace
{
template <typename C>
std::basic_string<C> gen_units(vp::source& s, std::size_t max)
{
    std::basic_string<C> r;
    std::size_t n = s.small_size(max);
    for(std::size_t i = 0; i < n; ++i)
    {
        if(s.chance(1, 3))
        {
            r += um::enc<C>(um::gen_small(s));
            continue;
        }
        std::uint32_t v;
        if constexpr(sizeof(C) == 1)
        {
            static const unsigned char pool[] = {'a', 0x80, 0xBF, 0xC0, 0xC3, 0xE2, 0xED, 0xF0, 0xF4, 0xF7, 0xF8, 0xFF};
            v = s.boolean() ? s.draw(256) : pool[s.draw(std::size(pool))];
        }
        else if constexpr(sizeof(C) == 2)
        {
            static const char16_t pool[] = {u'a', 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD};
            v = s.boolean() ? 0xD800 + s.draw(0x800) : pool[s.draw(std::size(pool))];
        }
        else
        {
            static const std::uint32_t pool[] = {'a', 0xD800, 0xDFFF, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF};
            v = pool[s.draw(std::size(pool))];
        }
        r.push_back(static_cast<C>(v));
    }
    return r;
}

// the call answers (true), or reports the ill-formed unit (false); anything else is a failure
template <typename C, typename F>
bool answers(F&& f)
{
    try
    {
        f();
        return true;
    }
    catch(const utf::invalid_surrogate&)
    {
        VP_CHECK(sizeof(C) == 2, "invalid_surrogate for text that is not UTF-16");
    }
    catch(const std::invalid_argument&)
    {
        // a value that has no UTF-16 encoding
    }
    return false;
}

template <typename C, typename S>
void ask(vp::source& s, const S& x, const std::basic_string<C>& u, const std::basic_string<C>& nd, codepoint ch)
{
    const std::size_t n = u.size();
    VP_CHECK(x.size() == n && x.empty() == u.empty() && x.to_string_view() == u, "");
    std::size_t len = 0;
    (void)answers<C>([&]
                     { len = x.length(); });
    VP_CHECK(len <= n, "length() is greater than the number of units");
    if(n)
    {
        (void)answers<C>([&]
                         { (void)x.front(); });
        (void)answers<C>([&]
                         { (void)x.back(); });
    }
    bool found = false, has = false;
    bool a = answers<C>([&]
                        {
        auto it = x.find(ch);
        VP_CHECK(it.base() >= x.data() && it.base() <= x.data() + n, "find(char) leaves the text");
        found = it != x.cend();
        if(found)
            VP_CHECK(codepoint(*it) == ch, "find(char) finds another character"); });
    bool b = answers<C>([&]
                        { has = x.contains(ch); });
    VP_CHECK(a == b && found == has, "contains(char) and find(char) disagree");
    (void)answers<C>([&]
                     {
        std::size_t pos = s.size(n + 2);
        auto it = x.find(ch, pos);
        VP_CHECK(it.base() >= x.data() && it.base() <= x.data() + n, "find(char, pos) leaves the text"); });
    (void)answers<C>([&]
                     { (void)x.starts_with(ch); });
    VP_CHECK(x.starts_with(std::basic_string_view<C>(nd)) == (u.compare(0, nd.size(), nd) == 0), "starts_with(text) of ill-formed text");
    {
        auto it = x.find(std::basic_string_view<C>(nd), s.size(n + 2));
        VP_CHECK(it.base() >= x.data() && it.base() <= x.data() + n, "find(text) leaves the text");
        if(it != x.cend())
            VP_CHECK(std::basic_string_view<C>(it.base(), x.data() + n).starts_with(nd), "find(text) finds other text");
        VP_CHECK(x.contains(std::basic_string_view<C>(nd)) == (x.find(std::basic_string_view<C>(nd)) != x.cend()), "contains(text) and find(text) disagree");
    }
    for(std::size_t i = 0; i < n + 2; ++i)
    {
        std::size_t o = x.get_offset(i), r = x.get_offset(reverse_index, i);
        VP_CHECK((o == S::npos || o < n) && (r == S::npos || r < n), "offset outside of the text");
        bool in = false, rin = false;
        a = answers<C>([&]
                       {
            try { (void)x.at(i); in = true; } catch(const std::out_of_range&) {} });
        b = answers<C>([&]
                       {
            try { (void)x.at(reverse_index, i); rin = true; } catch(const std::out_of_range&) {} });
        VP_CHECK((in || !a) == (o != S::npos), "at() and get_offset() disagree");
        VP_CHECK((rin || !b) == (r != S::npos), "at(reverse) and get_offset(reverse) disagree");
        (void)answers<C>([&]
                         {
            codepoint d = x.index_or(i, codepoint(U'?'));
            VP_CHECK(o == S::npos ? d == U'?' : d == x.at(i), "index_or() and at() disagree"); });
        (void)answers<C>([&]
                         {
            codepoint d = x.index_or(reverse_index, i, codepoint(U'?'));
            VP_CHECK(r == S::npos ? d == U'?' : d == x.at(reverse_index, i), "index_or(reverse) and at(reverse) disagree"); });
        VP_CHECK(throws_oor([&]
                            { (void)x.at(n + i); }),
                 "at() past the last unit");
    }
    // iteration covers every unit once
    {
        std::size_t off = 0;
        auto last = x.cend();
        for(auto it = x.cbegin(); it != last; ++it)
        {
            VP_CHECK(it.base() == x.data() + off && it.size() >= 1 && off + it.size() <= n, "iteration leaves the text");
            off += it.size();
            (void)answers<C>([&]
                             { (void)codepoint(*it); });
        }
        VP_CHECK(off == n, "iteration skips units");
        // backward: strictly decreasing, down to the beginning
        const C* prev = x.data() + n;
        auto first = x.cbegin();
        for(auto it = last; it.base() != first.base();)
        {
            --it;
            VP_CHECK(it.base() < prev && it.base() >= x.data() && it.base() + it.size() <= x.data() + n, "backward iteration leaves the text");
            prev = it.base();
        }
    }
    // sub-strings are parts of the text
    for(int k = 0; k < 2; ++k)
    {
        std::size_t pos = s.size(n + 2), cnt = s.boolean() ? S::npos : s.size(n + 2);
        auto e = x.template substr<substr_behavior::empty_string>(pos, cnt);
        VP_CHECK(e.empty() || u.find(std::basic_string<C>(e.to_string_view())) != u.npos, "substr() is no part of the text");
        auto sn = static_cast<std::ptrdiff_t>(n);
        std::ptrdiff_t bb = s.range(-sn - 2, sn + 2), ee = s.range(-sn - 2, sn + 2);
        auto f = x.template substr<substr_behavior::empty_string>(index_range(bb, ee));
        VP_CHECK(f.empty() || u.find(std::basic_string<C>(f.to_string_view())) != u.npos, "substr(slice) is no part of the text");
    }
}
} // namespace

VP_FACET(ill_formed, 30000, 1500000, "at least three units, ill-formed")
{
    um::with_char(s.draw(5), [&]<typename C>()
                  {
        std::basic_string<C> u = gen_units<C>(s, 8), nd = s.boolean() || u.empty() ? gen_units<C>(s, 3) : u.substr(s.draw(u.size()), 1 + s.draw(3));
        c.note(std::string(um::tname<C>()) + " " + vp::quote(std::basic_string_view<C>(u)) + " / " + vp::quote(std::basic_string_view<C>(nd)));
        um::text d;
        c.nontrivial_if(u.size() >= 3 && !um::dec(u, d));
        um::exact<C> e(u), en(nd);
        codepoint ch(um::gen_small(s));
        const utf::basic_string_ref<C> r(e.view()), rn(en.view());
        const utf::basic_string_container<C> k(e.view()), o(independent, e.data(), e.size());
        ask<C>(s, r, u, nd, ch);
        ask<C>(s, k, u, nd, ch);
        ask<C>(s, o, u, nd, ch);
        VP_CHECK(r.ends_with(rn) == (u.size() >= nd.size() && u.compare(u.size() - nd.size(), nd.npos, nd) == 0), "ends_with(text) of ill-formed text");
        (void)answers<C>([&]
                         { (void)r.ends_with(ch); });
        // equality is that of the units, order is antisymmetric and total
        VP_CHECK((r == rn) == (u == nd), "== of ill-formed texts");
        int ab = 0, ba = 0;
        bool x = answers<C>([&]
                            { ab = r.compare(rn); });
        bool y = answers<C>([&]
                            { ba = rn.compare(r); });
        VP_CHECK(x == y && sgn(ab) == -sgn(ba), "compare() is not antisymmetric");
        // conversions: units of the same size are kept, others answer or report
        if constexpr(sizeof(C) == 1)
            VP_CHECK(r.template to_string<char>() == std::string(u.begin(), u.end()), "to_string of the same unit size");
        (void)answers<C>([&]
                         { (void)r.template to_string<char>(); });
        (void)answers<C>([&]
                         { (void)r.template to_string<char16_t>(); });
        (void)answers<C>([&]
                         { (void)r.template to_string<char32_t>(); });
        // the iterators that can write cover the units as well
        utf::basic_string_container<C> m(e.view());
        std::size_t cover = 0, guard = 0;
        for(auto it = m.begin(); it != m.end(); ++it)
        {
            VP_CHECK(it.to_address() == m.data() + cover && ++guard <= u.size(), "iteration over a mutable container leaves the text");
            (void)answers<C>([&]
                             { (void)codepoint(*it); });
            cover += std::next(r.begin(), std::ptrdiff_t(guard - 1)).size();
        }
        VP_CHECK(cover == u.size(), "iteration over a mutable container skips units");
        for(auto it = m.end(); it != m.begin();)
        {
            const C* before = it.to_address();
            --it;
            VP_CHECK(it.to_address() < before && it.to_address() >= m.data(), "backward iteration over a mutable container leaves the text");
        }
        // trimming leaves a part at the right end
        utf::basic_string_ref<C> p = r, z = r;
        std::size_t dn = s.size(u.size() + 2);
        p.remove_prefix(dn);
        z.remove_suffix(dn);
        VP_CHECK(u.ends_with(p.to_string_view()) && u.starts_with(z.to_string_view()), "trimming ill-formed text"); });
}

VP_KNOWN(find_terminates)
{
    // contains() of UTF-16 text with an unpaired surrogate called std::terminate()
    std::u16string u{char16_t(0xD800), u'b'};
    const utf::u16string_ref r(u);
    const utf::u16string_container k{std::u16string_view(u)};
    (void)answers<char16_t>([&]
                            { (void)r.contains(codepoint(U'c')); });
    (void)answers<char16_t>([&]
                            { (void)k.contains(codepoint(U'c')); });
    (void)answers<char16_t>([&]
                            { (void)r.starts_with(codepoint(U'c')); });
}

VP_KNOWN(last_of_stray_units)
{
    // ends_with() of text made of trailing bytes only read outside of the text
    um::exact<char> e(std::string("\x80"));
    VP_CHECK(!utf::string_ref(e.view()).ends_with(codepoint(U'c')), "");
}
