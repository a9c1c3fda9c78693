// U03 - string views answer like the sequence of characters they hold
#include "U03_common.hpp"

namespace
{
// queries common to basic_string_ref and basic_string_container
template <typename C, typename S>
void common(vp::source& s, const S& x, const um::text& t)
{
    const std::size_t n = t.size();
    const std::basic_string<C> u = E<C>(t);
    VP_CHECK(x.length() == n, vp::str(x.length()));
    VP_CHECK(x.size() == u.size(), vp::str(x.size()));
    VP_CHECK(x.empty() == t.empty(), "");
    VP_CHECK(x.to_string_view() == u, q(x));
    VP_CHECK(std::basic_string_view<C>(x) == u && std::basic_string_view<C>(x.data(), x.size()) == u, q(x));
    if(n)
    {
        VP_CHECK(x.front() == codepoint(t.front()), "front of " + q(x));
        VP_CHECK(x.back() == codepoint(t.back()), "back of " + q(x));
    }
    for(std::size_t i = 0; i < n + 2; ++i)
    {
        char32_t dflt = U'?';
        codepoint a = x.index_or(i, codepoint(dflt)), b = x.index_or(reverse_index, i, codepoint(dflt));
        VP_CHECK(a == (i < n ? t[i] : dflt), "index_or(" + vp::str(i) + ") of " + q(x));
        VP_CHECK(b == (i < n ? t[n - 1 - i] : dflt), "index_or(reverse, " + vp::str(i) + ") of " + q(x));
        if(i < n)
        {
            VP_CHECK(static_cast<char32_t>(x[i]) == t[i], "[" + vp::str(i) + "] of " + q(x));
            // (a const container is indexed through its reference view)
            const utf::basic_string_ref<C> xr(x.to_string_view());
            VP_CHECK(codepoint(xr.index(i)) == codepoint(t[i]), "index(" + vp::str(i) + ") of " + q(x));
            VP_CHECK(&x[i] == x.data() + E<C>(t.substr(0, i)).size(), "address of [" + vp::str(i) + "] of " + q(x));
            VP_CHECK(codepoint(xr.index(reverse_index, i)) == codepoint(t[n - 1 - i]), "index(reverse, " + vp::str(i) + ") of " + q(x));
            VP_CHECK(x.at(i) == codepoint(t[i]), "at(" + vp::str(i) + ") of " + q(x));
            VP_CHECK(x.at(reverse_index, i) == codepoint(t[n - 1 - i]), "at(reverse, " + vp::str(i) + ") of " + q(x));
            VP_CHECK(&xr.index(i) == x.data() + E<C>(t.substr(0, i)).size(), "address of [" + vp::str(i) + "] of " + q(x));
            VP_CHECK(x.get_offset(i) == E<C>(t.substr(0, i)).size(), "get_offset(" + vp::str(i) + ") of " + q(x));
            VP_CHECK(x.get_offset(reverse_index, i) == E<C>(t.substr(0, n - 1 - i)).size(), "get_offset(reverse, " + vp::str(i) + ") of " + q(x));
        }
        else
        {
            VP_CHECK(throws_oor([&]
                                { (void)x.at(i); }),
                     "at(" + vp::str(i) + ") outside " + q(x));
            VP_CHECK(throws_oor([&]
                                { (void)x.at(reverse_index, i); }),
                     "at(reverse, " + vp::str(i) + ") outside " + q(x));
            VP_CHECK(x.get_offset(i) == S::npos && x.get_offset(reverse_index, i) == S::npos, q(x));
        }
    }
    // iteration
    {
        um::text f, r, cf;
        for(codepoint cp : x)
            f.push_back(cp);
        for(auto it = x.rbegin(); it != x.rend(); ++it)
            r.push_back(codepoint(*it));
        for(auto it = x.cbegin(); it != x.cend(); ++it)
            cf.push_back(codepoint(*it));
        VP_CHECK(f == t && cf == t, "iteration over " + q(x));
        VP_CHECK(r == um::text(t.rbegin(), t.rend()), "reverse iteration over " + q(x));
    }
    // position of a character
    for(int k = 0; k < 3; ++k)
    {
        char32_t ch = n && s.boolean() ? t[s.draw(n)] : um::gen_small(s);
        std::size_t pos = s.boolean() ? 0 : s.size(n + 2);
        auto m = t.find(ch, pos);
        auto it = x.find(codepoint(ch), pos);
        const C* want = x.data() + (m == t.npos ? u.size() : E<C>(t.substr(0, m)).size());
        VP_CHECK(it.base() == want, "find(U+" + vp::str(unsigned(ch)) + ", " + vp::str(pos) + ") in " + q(x) + " is at unit " + vp::str(it.base() - x.data()));
        VP_CHECK((it == x.cend()) == (m == t.npos), "find end");
        VP_CHECK(x.contains(codepoint(ch)) == (t.find(ch) != t.npos), "contains(char)");
        VP_CHECK(x.starts_with(codepoint(ch)) == (n != 0 && t[0] == ch), "starts_with(char)");
    }
    // sub-strings
    for(int k = 0; k < 3; ++k)
    {
        std::size_t pos = s.size(n + 2), cnt = s.boolean() ? S::npos : s.size(n + 2);
        if(pos > n)
        {
            VP_CHECK(throws_oor([&]
                                { (void)x.substr(pos, cnt); }),
                     "substr(" + vp::str(pos) + ") outside " + q(x));
            VP_CHECK(x.template substr<substr_behavior::empty_string>(pos, cnt).empty(), "substr<empty_string> outside");
        }
        else
        {
            auto want = E<C>(t.substr(pos, cnt));
            VP_CHECK(x.substr(pos, cnt).to_string_view() == want, "substr(" + vp::str(pos) + ", " + vp::str(cnt) + ") of " + q(x));
            VP_CHECK(x.template substr<substr_behavior::empty_string>(pos, cnt).to_string_view() == want, "substr<empty_string> of " + q(x));
            auto e = x.substr_extended(pos, cnt);
            VP_CHECK(e.first.to_string_view() == want && e.second == t.substr(pos, cnt).size(), "substr_extended of " + q(x));
        }
        // slices
        auto sn = static_cast<std::ptrdiff_t>(n);
        std::ptrdiff_t b = s.range(-sn - 2, sn + 2), e = s.range(-sn - 2, sn + 2);
        unsigned form = static_cast<unsigned>(s.draw(3));
        index_range r = form == 0 ? index_range(b, e) : form == 1 ? index_range(b) : index_range(0, e);
        if(form == 2)
            b = 0;
        auto place = [&](std::ptrdiff_t i, bool& out)
        {
            std::ptrdiff_t p = i < 0 ? sn + i : i;
            if(p < 0)
            {
                out = true;
                p = 0;
            }
            if(p > sn)
            {
                out = true;
                p = sn;
            }
            return p;
        };
        bool out = false;
        std::ptrdiff_t pb = place(b, out), pe = form == 1 ? sn : place(e, out);
        um::text want = pb < pe ? t.substr(std::size_t(pb), std::size_t(pe - pb)) : um::text();
        std::string what = "slice [" + vp::str(b) + ":" + (form == 1 ? std::string("") : vp::str(e)) + "] of " + q(x);
        if(out)
            VP_CHECK(throws_oor([&]
                                { (void)x.substr(r); }),
                     what);
        else
            VP_CHECK(x.substr(r).to_string_view() == E<C>(want), what + " is " + q(x.substr(r)));
        VP_CHECK(x.template substr<substr_behavior::empty_string>(r).to_string_view() == E<C>(want), what + " (empty_string)");
    }
    // streaming
    {
        std::basic_stringbuf<C> sb;
        std::basic_ostream<C> os(&sb);
        bool ff = t.find(char32_t(0xFFFF)) != t.npos && sizeof(C) == 2;
        if(!ff)
        {
            os << x;
            VP_CHECK(sb.str() == u, "operator<< of " + q(x));
        }
    }
}

} // namespace

VP_FACET(view_queries, 80000, 2000000, "text mixing at least two encoded lengths")
{
    um::text t = um::gen_text(s, 8, true);
    c.note(vp::quote(std::u32string_view(t)));
    c.nontrivial_if(um::mixed(t));
    um::with_char(s.draw(5), [&]<typename C>()
                  {
        c.tag(um::tname<C>());
        um::exact<C> e(E<C>(t));
        std::basic_string<C> str = E<C>(t);
        using R = utf::basic_string_ref<C>;
        R x(e.data(), e.size());
        common<C>(s, x, t);
        if(t.empty())
            common<C>(s, R(), t);
        // every way of making one refers to the same text
        R y(e.view()), z(str), w;
        w = e.view();
        R v(x.begin(), x.end());
        R k(e.view().begin(), e.view().end());
        for(const R* p : {&y, &z, &w, &v, &k})
            VP_CHECK(p->to_string_view() == str, "construction");
        w = str;
        VP_CHECK(w.data() == str.data(), "assignment refers to the string assigned");
        w.assign(x.begin(), x.end());
        VP_CHECK(w.data() == e.data() && w.size() == e.size(), "assign(first, last)");
        if(t.find(U'\0') == t.npos)
        {
            um::exact<C> zt(E<C>(t), true);
            R p(zt.data());
            VP_CHECK(p.to_string_view() == str, "construction from pointer");
            w = zt.data();
            VP_CHECK(w.to_string_view() == str, "assignment from pointer");
        } });
}

VP_FACET(container_queries, 80000, 2000000, "text mixing at least two encoded lengths")
{
    um::text t = um::gen_text(s, 8, true);
    c.note(vp::quote(std::u32string_view(t)));
    c.nontrivial_if(um::mixed(t));
    um::with_char(s.draw(5), [&]<typename C>()
                  {
        c.tag(um::tname<C>());
        um::exact<C> e(E<C>(t));
        using S = utf::basic_string_container<C>;
        const S x = s.boolean() ? S(e.view()) : S(independent, e.data(), e.size());
        common<C>(s, x, t);
        if(t.empty())
        {
            common<C>(s, S(), t);
            common<C>(s, S(utf::basic_string_ref<C>().to_string_view()), t);
        }
        // search for a text
        um::text nd = related(s, t, 3);
        if(!nd.empty())
        {
            std::size_t pos = s.size(t.size() + 1);
            auto m = t.find(nd, pos);
            um::exact<C> en(E<C>(nd));
            auto it = x.find(en.view(), pos);
            VP_CHECK(it.base() == x.data() + (m == t.npos ? e.size() : E<C>(t.substr(0, m)).size()), "find(text) in " + q(x));
            VP_CHECK(x.contains(en.view()) == (t.find(nd) != t.npos), "contains(text) in " + q(x));
        }
        um::exact<C> en(E<C>(nd));
        VP_CHECK(x.starts_with(en.view()) == t.starts_with(nd), "starts_with(text) " + q(x)); });
}

VP_FACET(search, 80000, 2000000, "the needle is non-empty and shorter than the text")
{
    um::text t = um::gen_text(s, 10);
    um::text nd = related(s, t, 3);
    c.note(vp::quote(std::u32string_view(t)) + " / " + vp::quote(std::u32string_view(nd)));
    c.nontrivial_if(!nd.empty() && nd.size() < t.size());
    std::size_t pos = s.boolean() ? 0 : s.size(t.size() + 2);
    std::size_t drop = s.size(t.size() + 1), dropr = s.size(t.size() + 1);
    um::with_char(s.draw(5), [&]<typename C>()
                  {
        um::exact<C> e(E<C>(t)), en(E<C>(nd)), zn(E<C>(nd), true);
        using R = utf::basic_string_ref<C>;
        R x(e.view()), y(en.view());
        if(!nd.empty())
        {
            auto m = t.find(nd, pos);
            const C* want = e.data() + (m == t.npos ? e.size() : E<C>(t.substr(0, m)).size());
            VP_CHECK(x.find(y, pos).base() == want, "find(ref) in " + q(x));
            VP_CHECK(x.find(zn.data(), pos).base() == want, "find(pointer) in " + q(x));
            VP_CHECK(x.find(en.data(), pos, en.size()).base() == want, "find(pointer, pos, count) in " + q(x));
            VP_CHECK(x.contains(y) == (t.find(nd) != t.npos), "contains in " + q(x));
        }
        VP_CHECK(x.starts_with(y) == t.starts_with(nd), "starts_with(ref)");
        VP_CHECK(x.starts_with(en.view()) == t.starts_with(nd), "starts_with(view)");
        VP_CHECK(x.starts_with(zn.data()) == t.starts_with(nd), "starts_with(pointer)");
        VP_CHECK(x.ends_with(y) == t.ends_with(nd), "ends_with(ref)");
        VP_CHECK(x.ends_with(zn.data()) == t.ends_with(nd), "ends_with(pointer)");
        if(!nd.empty())
        {
            VP_CHECK(x.starts_with(codepoint(nd[0])) == t.starts_with(nd[0]), "starts_with(char)");
            VP_CHECK(x.ends_with(codepoint(nd[0])) == t.ends_with(nd[0]), "ends_with(char)");
        }
        // trimming
        R p = x;
        p.remove_prefix(drop);
        std::size_t d = std::min(drop, t.size());
        VP_CHECK(p.to_string_view() == E<C>(t.substr(d)), "remove_prefix(" + vp::str(drop) + ") of " + q(x) + " leaves " + q(p));
        VP_CHECK(p.data() == e.data() + E<C>(t.substr(0, d)).size(), "remove_prefix moves into the same text");
        R r = x;
        r.remove_suffix(dropr);
        std::size_t dr = std::min(dropr, t.size());
        VP_CHECK(r.to_string_view() == E<C>(t.substr(0, t.size() - dr)), "remove_suffix(" + vp::str(dropr) + ") of " + q(x) + " leaves " + q(r));
        R a = p, b = r;
        a.swap(b);
        VP_CHECK(a.to_string_view() == r.to_string_view() && b.to_string_view() == p.to_string_view(), "swap"); });
}

