// U04 - string containers own what they say and mutate like a character sequence
#include "utfmodel.hpp"
#include <array>
#include <list>
#include <optional>
#include <papilio/utf/string.hpp>
#include <sstream>

using namespace papilio;
using utf::codepoint;

namespace
{
template <typename C>
struct machine
{
    using S = utf::basic_string_container<C>;
    using Str = std::basic_string<C>;
    using View = std::basic_string_view<C>;

    // Storage a container may refer to without owning it.  Overwritten and freed as soon as
    // no container refers to it any more, so that a stale reference shows.
    struct storage
    {
        std::unique_ptr<C[]> p;
        std::size_t n;
        Str str; // used instead of p when the source has to be a std::basic_string
        bool is_str = false;

        View view() const { return is_str ? View(str) : View(p.get(), n); }

        ~storage()
        {
            for(std::size_t i = 0; p && i < n; ++i)
                p[i] = C('#');
        }
    };

    struct slot
    {
        std::optional<S> c;
        um::text t;
        bool owned = false;
        const C* ptr = nullptr;          // where it refers to when not owned
        std::shared_ptr<storage> st;     // keeps that storage alive
        int from = -1;                   // or: refers to the text owned by that slot
    };

    vp::source& s;
    vp::ctx& c;
    std::array<slot, 3> sl;
    std::string trace;

    machine(vp::source& src, vp::ctx& ctx)
        : s(src), c(ctx)
    {
        for(auto& x : sl)
            x.c.emplace();
        for(auto& x : sl)
            x.owned = x.c->has_ownership(); // of an empty default container: either is fine
    }

    static Str E(std::u32string_view t) { return um::enc<C>(t); }

    std::size_t off(const um::text& t, std::size_t i) { return E(t.substr(0, i)).size(); }

    std::shared_ptr<storage> make(const um::text& t, bool terminate, bool as_str = false)
    {
        auto st = std::make_shared<storage>();
        Str u = E(t);
        st->n = u.size();
        if(as_str)
        {
            st->is_str = true;
            st->str = u;
        }
        else
        {
            st->p.reset(new C[u.size() + (terminate ? 1 : 0)]);
            std::copy(u.begin(), u.end(), st->p.get());
            if(terminate)
                st->p[u.size()] = C(0);
        }
        return st;
    }

    void log(const std::string& w)
    {
        trace += w;
        trace += "; ";
        c.note(w);
    }

    // slot i is about to change: containers that refer to text owned by it must let go first
    void touch(std::size_t i)
    {
        for(std::size_t k = 0; k < sl.size(); ++k)
            if(sl[k].from == int(i) && k != i)
            {
                sl[k].c.emplace();
                reset(k, um::text());
                sl[k].owned = sl[k].c->has_ownership();
            }
    }

    void reset(std::size_t i, um::text t)
    {
        sl[i].t = std::move(t);
        sl[i].st.reset();
        sl[i].from = -1;
        sl[i].ptr = nullptr;
        sl[i].owned = false;
    }

    void now_view(std::size_t i, const um::text& t, std::shared_ptr<storage> st)
    {
        auto keep = sl[i].st;
        reset(i, t);
        sl[i].st = st;
        sl[i].ptr = st->view().data();
    }

    void now_owned(std::size_t i, const um::text& t)
    {
        reset(i, um::text(t));
        sl[i].owned = true;
    }

    // it acquired ownership of the text it shows
    void own(std::size_t i)
    {
        um::text t = sl[i].t;
        now_owned(i, t);
    }

    void check(const char* after)
    {
        for(std::size_t i = 0; i < sl.size(); ++i)
        {
            slot& x = sl[i];
            const S& k = *x.c;
            auto bad = [&](const std::string& m)
            {
                vp::fail(std::string("after ") + after + ": container " + vp::str(i) + " (" + um::tname<C>() + ") " + m + "; it shows " + vp::quote(k.to_string_view()) + ", model " + vp::quote(std::u32string_view(x.t)));
            };
            Str want = E(x.t);
            if(k.to_string_view() != want)
                bad("text differs");
            if(k.length() != x.t.size() || k.size() != want.size() || k.empty() != want.empty())
                bad("length, size or empty() wrong");
            if(!want.empty() && k.has_ownership() != x.owned)
                bad("has_ownership() is " + vp::str(k.has_ownership()));
            if(k.has_ownership())
            {
                if(k.capacity() < k.size())
                    bad("capacity() below size()");
                for(auto& y : sl)
                    if(y.st && !want.empty() && k.data() >= y.st->view().data() && k.data() < y.st->view().data() + y.st->view().size())
                        bad("claims ownership of outside storage");
            }
            else
            {
                if(k.capacity() != 0)
                    bad("capacity() of a non-owning container is " + vp::str(k.capacity()));
                if(!want.empty() && x.from < 0 && k.data() != x.ptr)
                    bad("does not refer to the storage it was given");
                if(!want.empty() && x.from >= 0 && k.data() != sl[std::size_t(x.from)].c->data())
                    bad("does not refer to the container it was copied from");
            }
        }
    }

    char32_t ch() { return s.chance(1, 2) ? um::gen_scalar(s) : um::gen_small(s); }

    C unit() { return sizeof(C) == 1 ? C('a' + s.draw(26)) : C(s.boolean() ? U'a' + s.draw(26) : s.pick({0xC4u, 0x4E00u, 0xD7FFu, 0xE000u})); }

    void construct_or_assign(std::size_t i)
    {
        um::text t = um::gen_text(s, 6);
        bool ctor = s.boolean();
        unsigned how = static_cast<unsigned>(s.draw(11));
        touch(i);
        log((ctor ? "construct#" : "assign#") + vp::str(how) + " " + vp::str(i) + " " + vp::quote(std::u32string_view(t)));
        S* k = &*sl[i].c;
        auto fresh = [&](auto&&... a)
        { sl[i].c.emplace(std::forward<decltype(a)>(a)...); };
        switch(how)
        {
        case 0: // string moved in
        {
            Str u = E(t);
            if(ctor)
                fresh(std::move(u));
            else
                VP_CHECK(&k->assign(std::move(u)) == k, "assign returns *this");
            now_owned(i, t);
            break;
        }
        case 1: // refers to a string
        {
            auto st = make(t, false, true);
            const Str& u = st->str;
            if(ctor)
                fresh(u);
            else
                VP_CHECK(&k->assign(u) == k, "assign returns *this");
            now_view(i, t, st);
            break;
        }
        case 2: // independent of a string
        {
            auto st = make(t, false, true);
            const Str& u = st->str;
            if(ctor)
                fresh(independent, u);
            else
                VP_CHECK(&k->assign(independent, u) == k, "assign returns *this");
            now_owned(i, t);
            st->str.assign(st->str.size(), C('#'));
            break;
        }
        case 3: // view
        {
            auto st = make(t, false);
            unsigned w = static_cast<unsigned>(s.draw(2));
            if(ctor)
                fresh(st->view());
            else if(w)
                VP_CHECK(&(*k = st->view()) == k, "operator= returns *this");
            else
                VP_CHECK(&k->assign(st->view()) == k, "assign returns *this");
            now_view(i, t, st);
            break;
        }
        case 4: // terminated pointer
        {
            auto st = make(t, true);
            const C* p = st->p.get();
            if(ctor)
                fresh(p);
            else
                VP_CHECK(&k->assign(p) == k, "assign returns *this");
            now_view(i, t, st);
            break;
        }
        case 5: // pointer and count
        {
            auto st = make(t, false);
            const C* p = st->p.get();
            if(ctor)
                fresh(p, st->n);
            else
                VP_CHECK(&k->assign(p, st->n) == k, "assign returns *this");
            now_view(i, t, st);
            break;
        }
        case 6: // independent of a pointer or view
        {
            auto st = make(t, true);
            const C* p = st->p.get();
            unsigned w = static_cast<unsigned>(s.draw(2));
            if(ctor && w)
                fresh(independent, p);
            else if(ctor)
                fresh(independent, p, st->n);
            else if(w)
                VP_CHECK(&k->assign(independent, View(p, st->n)) == k, "assign returns *this");
            else if(s.boolean())
                *k = independent(View(p, st->n));
            else
            {
                View v(p, st->n);
                *k = independent(v);
            }
            now_owned(i, t);
            break;
        }
        case 7: // iterator pair of a text
        {
            auto st = make(t, false);
            utf::basic_string_ref<C> r(st->view());
            if(ctor)
                fresh(r.cbegin(), r.cend());
            else
                VP_CHECK(&k->assign(r.cbegin(), r.cend()) == k, "assign returns *this");
            now_view(i, t, st);
            break;
        }
        case 8: // repeated unit
        {
            C u = unit();
            std::size_t n = s.size(4);
            if(ctor)
                fresh(n, u);
            else
                VP_CHECK(&k->assign(n, u) == k, "assign returns *this");
            now_owned(i, um::text(n, sizeof(C) == 1 ? char32_t(static_cast<unsigned char>(u)) : char32_t(u)));
            break;
        }
        case 9: // repeated character
        {
            char32_t u = ch();
            std::size_t n = s.size(4);
            log("of " + vp::str(n));
            if(ctor)
                fresh(n, codepoint(u));
            else
                VP_CHECK(&k->assign(n, codepoint(u)) == k, "assign returns *this");
            now_owned(i, um::text(n, u));
            break;
        }
        default: // ranges
        {
            Str u = E(t);
            unsigned w = static_cast<unsigned>(s.draw(5));
            if(w == 0)
            {
                std::list<C> l(u.begin(), u.end());
                fresh(l.begin(), l.end());
            }
            else if(w == 1)
            {
                std::list<C> l(u.begin(), u.end());
                VP_CHECK(&k->assign_range(l) == k, "assign_range returns *this");
            }
            else if(w == 4)
            {
                std::u32string r32 = t;
                utf::u32string_ref r(r32); // a range of references to characters
                VP_CHECK(&k->assign_range(r) == k, "assign_range returns *this");
            }
            else if(w == 2)
            {
                std::vector<codepoint> v;
                for(char32_t x : t)
                    v.emplace_back(x);
                VP_CHECK(&k->assign_range(v) == k, "assign_range returns *this");
            }
            else
            {
                std::vector<C> v(u.begin(), u.end());
                VP_CHECK(&k->assign_range(v) == k, "assign_range returns *this");
            }
            now_owned(i, t);
            break;
        }
        }
    }

    void transfer(std::size_t i, std::size_t j)
    {
        unsigned how = static_cast<unsigned>(s.draw(7));
        log("transfer#" + vp::str(how) + " " + vp::str(i) + " <- " + vp::str(j));
        slot& x = sl[i];
        slot& y = sl[j];
        auto same_as_source = [&]
        {
            um::text t = y.t;
            auto st = y.st;
            auto from = y.from;
            auto owned = y.owned;
            auto ptr = y.ptr;
            reset(i, t);
            x.st = st;
            x.from = from;
            x.owned = owned;
            x.ptr = ptr;
        };
        auto emptied = [&](std::size_t k)
        {
            // moved-from: valid, text unspecified
            (void)sl[k].c->length();
            sl[k].c->clear();
            reset(k, um::text());
            sl[k].owned = sl[k].c->has_ownership();
        };
        if(i == j && how != 2 && how != 4)
            return;
        if(how == 2 || how == 3 || how == 4)
            touch(j);
        touch(i);
        if(i != j && y.from == int(i))
            return;
        switch(how)
        {
        case 0: // copy-construct: refers to the text of the other
        {
            S tmp(*y.c);
            VP_CHECK(tmp.to_string_view() == y.c->to_string_view(), "copy shows another text");
            VP_CHECK(tmp.to_string_view().empty() || (!tmp.has_ownership() && tmp.data() == y.c->data()), "copy does not refer to its source");
            x.c.emplace(*y.c);
            bool o = y.owned;
            same_as_source();
            if(o)
            {
                x.owned = false;
                x.from = int(j);
            }
            break;
        }
        case 1: // copy-assign
            VP_CHECK(&(*x.c = *y.c) == &*x.c, "operator= returns *this");
            same_as_source();
            break;
        case 2: // (self-)assignment
            *x.c = static_cast<const S&>(*y.c);
            if(i != j)
                same_as_source();
            break;
        case 3: // move
        {
            if(s.boolean())
                x.c.emplace(std::move(*y.c));
            else
                *x.c = std::move(*y.c);
            same_as_source();
            emptied(j);
            break;
        }
        case 4: // swap
        {
            if(i != j)
            {
                // containers referring to either one's own text were released by touch()
                if(s.boolean())
                    x.c->swap(*y.c);
                else
                {
                    using std::swap;
                    swap(*x.c, *y.c);
                }
                std::swap(x.t, y.t);
                std::swap(x.owned, y.owned);
                std::swap(x.ptr, y.ptr);
                std::swap(x.st, y.st);
                std::swap(x.from, y.from);
                if(x.from == int(i))
                    x.from = int(j);
                if(y.from == int(j))
                    y.from = int(i);
            }
            else
                x.c->swap(*x.c);
            break;
        }
        case 5: // independent copy
        {
            x.c.emplace(independent, *y.c);
            um::text t = y.t;
            now_owned(i, t);
            break;
        }
        default: // compare
        {
            VP_CHECK((*x.c == *y.c) == (x.t == y.t), "comparison of containers");
            break;
        }
        }
    }

    void mutate(std::size_t i)
    {
        slot& x = sl[i];
        touch(i);
        S& k = *x.c;
        const std::size_t n = x.t.size();
        unsigned how = static_cast<unsigned>(s.draw(15));
        log("mutate#" + vp::str(how) + " " + vp::str(i));
        switch(how)
        {
        case 0:
        {
            char32_t u = ch();
            k.push_back(codepoint(u));
            um::text t = x.t + u;
            now_owned(i, t);
            break;
        }
        case 1:
        {
            C u = unit();
            k.push_back(u);
            um::text t = x.t + (sizeof(C) == 1 ? char32_t(static_cast<unsigned char>(u)) : char32_t(u));
            now_owned(i, t);
            break;
        }
        case 2:
        {
            bool o = x.owned;
            k.clear();
            reset(i, um::text());
            x.owned = o;
            break;
        }
        case 3:
            k.obtain_ownership();
            own(i);
            break;
        case 4:
        {
            const Str& r = std::as_const(k).str();
            VP_CHECK(r == E(x.t), "str() differs");
            own(i);
            break;
        }
        case 5:
        {
            const C* p = k.c_str();
            Str u = E(x.t);
            for(std::size_t a = 0; a < u.size(); ++a)
                VP_CHECK(p[a] == u[a], "c_str() differs");
            VP_CHECK(p[u.size()] == C(0), "c_str() is not terminated");
            own(i);
            break;
        }
        case 6:
        {
            Str u = std::move(k).str();
            VP_CHECK(u == E(x.t), "str() && differs");
            k.clear();
            now_owned(i, um::text());
            break;
        }
        case 7: // element assignment
        case 8:
        case 9:
            if(n)
            {
                std::size_t at = s.draw(n);
                char32_t u = ch();
                log("[" + vp::str(at) + "] = U+" + vp::str(unsigned(u)));
                c.nontrivial();
                const C* before = k.data();
                VP_CHECK(static_cast<char32_t>(k[at]) == x.t[at], "element read");
                VP_CHECK(&k[at] == before + off(x.t, at), "element address");
                if(how == 7)
                    k[at] = codepoint(u);
                else if(how == 8)
                    k.index(at) = codepoint(u);
                else
                    k.index(reverse_index, n - 1 - at) = codepoint(u);
                um::text t = x.t;
                t[at] = u;
                now_owned(i, t);
            }
            break;
        case 10: // iterator walk with writes
        {
            auto it = k.begin();
            std::size_t pos = 0;
            if(s.boolean())
            {
                it = k.end();
                pos = n;
            }
            std::size_t steps = s.draw(10);
            for(std::size_t a = 0; a < steps; ++a)
            {
                unsigned w = static_cast<unsigned>(s.draw(5));
                if(w <= 1 && pos < n)
                {
                    if(w)
                        ++it;
                    else
                    {
                        auto old = it++;
                        VP_CHECK(old.to_address() == k.data() + off(x.t, pos), "it++ result");
                    }
                    ++pos;
                }
                else if(w <= 3 && pos > 0)
                {
                    if(w == 2)
                        --it;
                    else
                        it--;
                    --pos;
                }
                else if(w == 4 && pos < n)
                {
                    char32_t u = ch();
                    log("*it(" + vp::str(pos) + ") = U+" + vp::str(unsigned(u)));
                    c.nontrivial();
                    *it = codepoint(u);
                    um::text t = x.t;
                    t[pos] = u;
                    now_owned(i, t);
                }
                if(it.to_address() != k.data() + off(x.t, pos))
                    vp::fail("iterator at character " + vp::str(pos) + " is at unit " + vp::str(it.to_address() - k.data()) + " of " + vp::quote(k.to_string_view()));
                VP_CHECK((it == k.end()) == (pos == n) && (it == k.begin()) == (pos == 0), "iterator equality");
                if(pos < n)
                    VP_CHECK(static_cast<char32_t>(*it) == x.t[pos], "iterator read");
            }
            break;
        }
        case 11: // whole sweeps
        {
            um::text f, r;
            for(auto it = k.begin(); it != k.end(); ++it)
                f.push_back(*it);
            for(auto it = k.rbegin(); it != k.rend(); ++it)
                r.push_back(*it);
            VP_CHECK(f == x.t, "iteration gives " + vp::quote(std::u32string_view(f)));
            VP_CHECK(r == um::text(x.t.rbegin(), x.t.rend()), "reverse iteration gives " + vp::quote(std::u32string_view(r)));
            if(n)
            {
                // a sub-text between two mutable iterators
                std::size_t a = s.size(n), b = s.size(n);
                if(a > b)
                    std::swap(a, b);
                auto p = k.begin(), e = k.begin();
                for(std::size_t z = 0; z < a; ++z)
                    ++p;
                for(std::size_t z = 0; z < b; ++z)
                    ++e;
                utf::codepoint_iterator<C> cp = p;
                VP_CHECK(cp.base() == k.data() + off(x.t, a), "conversion to a constant iterator");
            }
            break;
        }
        case 12: // element copied from another element
            if(n)
            {
                std::size_t j = s.draw(3), at = s.draw(n);
                slot& y = sl[j];
                if(y.t.empty())
                    break;
                std::size_t b = s.draw(y.t.size());
                char32_t u = y.t[b];
                log("[" + vp::str(at) + "] = " + vp::str(j) + "[" + vp::str(b) + "]");
                k[at] = (*y.c)[b];
                um::text t = x.t;
                t[at] = u;
                now_owned(i, t);
            }
            break;
        case 13:
        {
            um::text t2 = um::gen_text(s, 5);
            Str u = E(t2);
            std::size_t extra = s.size(4);
            k.resize_and_overwrite(u.size() + extra, [&](C* p, std::size_t cnt)
                                   {
                VP_CHECK(cnt == u.size() + extra, "resize_and_overwrite count");
                std::copy(u.begin(), u.end(), p);
                return u.size(); });
            now_owned(i, t2);
            break;
        }
        default: // stream extraction
            if constexpr(std::is_same_v<C, char> || std::is_same_v<C, wchar_t>)
            {
                um::text t2;
                std::size_t words = s.draw(3);
                for(std::size_t a = 0; a < words; ++a)
                {
                    if(a || s.boolean())
                        t2 += s.boolean() ? U" " : U"\n ";
                    t2.push_back(U'a' + char32_t(s.draw(26)));
                    t2.push_back(um::gen_small(s));
                }
                std::basic_istringstream<C> a(E(t2)), b(E(t2));
                Str want;
                std::size_t reads = 1 + s.draw(3);
                for(std::size_t z = 0; z < reads; ++z)
                {
                    b >> want;
                    a >> k;
                    VP_CHECK(bool(a) == bool(b), "stream state after extraction");
                    um::text m;
                    if(b)
                    {
                        um::dec<C>(want, m);
                        now_owned(i, m);
                    }
                    else
                    {
                        reset(i, um::text());
                        x.owned = k.has_ownership();
                    }
                }
            }
            break;
        }
    }
};

template <typename C>
void history(vp::source& s, vp::ctx& c)
{
    machine<C> m(s, c);
    c.tag(um::tname<C>());
    std::size_t steps = 1 + s.draw(20);
    for(std::size_t k = 0; k < steps; ++k)
    {
        std::size_t i = s.draw(3);
        switch(s.draw(6))
        {
        case 0:
        case 1:
            m.construct_or_assign(i);
            m.check("construct/assign");
            break;
        case 2:
            m.transfer(i, s.draw(3));
            m.check("copy/move/swap");
            break;
        default:
            m.mutate(i);
            m.check("mutation");
            break;
        }
    }
}
} // namespace

VP_FACET(history, 600000, 12000000, "the history replaces at least one character through an element or iterator")
{
    um::with_char(s.draw(5), [&]<typename C>()
                  { history<C>(s, c); });
}
