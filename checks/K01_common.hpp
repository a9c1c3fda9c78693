// K01 - the small vector behaves as a vector at every size
#include "tracked.hpp"
#include <array>
#include <forward_list>
#include <list>
#include <optional>
#include <papilio/container.hpp>
#include <sstream>
#include <iterator>

using namespace papilio;
using tr::elem;
using tr::mover;

namespace
{
template <typename T>
struct mk;

template <>
struct mk<int>
{
    static int make(int v) { return v; }
};

template <>
struct mk<elem>
{
    static elem make(int v) { return elem(v); }
};

template <>
struct mk<mover>
{
    static mover make(int v) { return mover(v); }
};

template <>
struct mk<std::string>
{
    static std::string make(int v) { return (v % 3 == 0 ? std::string(40, 's') : std::string("s")) + std::to_string(v); }
};

template <typename T>
struct mk<std::shared_ptr<T>>
{
    static std::shared_ptr<T> make(int v) { return std::make_shared<T>(v); }
};

template <typename T, std::size_t N, typename A>
struct machine
{
    using V = small_vector<T, N, A>;
    static constexpr bool moves = std::is_same_v<T, mover>; // moving an element may throw
    static constexpr bool tracked = std::is_same_v<T, elem> || moves;

    vp::source& s;
    vp::ctx& c;
    std::array<std::optional<V>, 2> v;
    // the model keeps its values in another form, so that it does not take part in the tracking
    std::array<std::vector<int>, 2> m;
    bool faults;
    unsigned probe = 0;
    bool grew = false, shrank = false;

    machine(vp::source& src, vp::ctx& ctx)
        : s(src), c(ctx)
    {
        faults = tracked && s.chance(1, 3);
        v[0].emplace();
        v[1].emplace();
        m[0].reserve(512); // so that an injected failure cannot hit the model
        m[1].reserve(512);
    }

    int val() { return static_cast<int>(s.draw(50)); }

    std::size_t expected_live() const { return tracked ? m[0].size() + m[1].size() : 0; }

    bool same(const V& x, const std::vector<int>& y)
    {
        if(x.size() != y.size())
            return false;
        for(std::size_t i = 0; i < y.size(); ++i)
        {
            if constexpr(tracked)
            {
                if((x[i].alive(), x[i].v) != y[i])
                    return false;
            }
            else if(!(x[i] == mk<T>::make(y[i])))
                return false;
        }
        return true;
    }

    std::string show(const V& x)
    {
        std::string r = "[";
        for(auto& e : x)
        {
            if constexpr(tracked)
                r += std::to_string(e.v) + " ";
            else if constexpr(std::is_same_v<T, int>)
                r += std::to_string(e) + " ";
            else
                r += e + " ";
        }
        return r + "]";
    }

    std::string show(const std::vector<int>& x)
    {
        std::string r = "[";
        for(int e : x)
            r += std::to_string(e) + " ";
        return r + "]";
    }

    void check(const std::string& after)
    {
        for(int i = 0; i < 2; ++i)
        {
            V& x = *v[i];
            const V& k = x;
            auto& y = m[i];
            if(!same(k, y))
                vp::fail("after " + after + ": vector " + std::to_string(i) + " holds " + show(k) + ", model " + show(y));
            VP_CHECK(k.empty() == y.empty() && std::size_t(k.end() - k.begin()) == y.size(), after);
            VP_CHECK(k.capacity() >= k.size(), after);
            VP_CHECK(k.dynamic_allocated() || k.capacity() == N, after);
            VP_CHECK(k.dynamic_allocated() || y.size() <= N, after);
            VP_CHECK(k.data() == k.begin() && x.data() == x.begin() && k.cbegin() == k.begin() && k.cend() == k.end(), after);
            if(!k.dynamic_allocated())
                VP_CHECK((const char*)k.data() >= (const char*)&k && (const char*)(k.data() + k.size()) <= (const char*)(&k + 1), after + ": inline data outside the object");
            if(!y.empty())
            {
                VP_CHECK(&k.front() == k.data() && &k.back() == k.data() + y.size() - 1 && &x.front() == x.data() && &x.back() == x.data() + y.size() - 1, after);
                VP_CHECK(&*x.rbegin() == &x.back() && &*k.crbegin() == &k.back() && &*(k.rend() - 1) == &k.front() && &*(x.rend() - 1) == &x.front(), after);
            }
            // (throwing is slow: look at one position per step)
            const std::size_t outside[] = {y.size(), y.size() + 1, std::size_t(-1), k.capacity()};
            if(std::size_t p = outside[probe++ % 4]; p >= y.size() && i == int(probe / 4 % 2))
            {
                for(int w = 0; w < 2; ++w)
                {
                    bool thrown = false;
                    try
                    {
                        if(w)
                            (void)x.at(p);
                        else
                            (void)k.at(p);
                    }
                    catch(const std::out_of_range&)
                    {
                        thrown = true;
                    }
                    VP_CHECK(thrown, after + ": at(" + std::to_string(p) + ") outside did not throw");
                }
            }
            for(std::size_t p = 0; p < y.size(); ++p)
                VP_CHECK(&k.at(p) == k.data() + p && &x.at(p) == x.data() + p && &k[p] == k.data() + p && &x[p] == x.data() + p, after);
        }
        tr::check_counts(expected_live(), ("after " + after).c_str());
        std::size_t dyn = (v[0]->dynamic_allocated() ? 1 : 0) + (v[1]->dynamic_allocated() ? 1 : 0);
        if constexpr(!std::is_same_v<A, std::allocator<T>>)
        {
            VP_CHECK(tr::blocks().size() == dyn, after + ": " + std::to_string(tr::blocks().size()) + " blocks held by " + std::to_string(dyn) + " heap vectors");
            VP_CHECK(!A::bad_size(), after + ": a block was returned with another size");
        }
    }

    // after a failure the contents are whatever they are; every element must be alive
    void resync(int i)
    {
        m[i].clear();
        for(auto& e : *v[i])
        {
            if constexpr(tracked)
            {
                e.alive();
                m[i].push_back(e.v);
            }
        }
    }

    template <typename F>
    void op(const std::string& name, int i, bool strong, F&& f)
    {
        c.note(name);
        V& x = *v[i];
        bool dyn = x.dynamic_allocated();
        bool failed = false;
        auto before = m[i];
        if constexpr(tracked)
        {
            if(faults && s.chance(1, 3))
            {
                if(s.boolean())
                    tr::copies_until_throw() = 1 + long(s.draw(5));
                else
                    vp::alloc_fail_after(1 + long(s.draw(2)));
            }
        }
        // only what happens inside the library call may fail
        try
        {
            f();
        }
        catch(const tr::boom&)
        {
            failed = true;
        }
        catch(const std::bad_alloc&)
        {
            failed = true;
        }
        tr::copies_until_throw() = 0;
        vp::alloc_fail_after(0);
        if(failed)
        {
            if(!v[i])
                v[i].emplace(); // its construction failed
            c.tag("failed " + name.substr(0, name.find(' ')));
            if(strong && !moves)
                m[i] = before;
            else
                resync(i);
            if constexpr(moves)
                resync(1 - i);
        }
        if(!dyn && v[i]->dynamic_allocated())
            grew = true;
        if(dyn && !v[i]->dynamic_allocated())
            shrank = true;
        check(name + (failed ? " (failed)" : ""));
    }

    void step()
    {
        int i = static_cast<int>(s.draw(2));
        int j = 1 - i;
        auto& y = m[i];
        std::size_t n = y.size();
        std::string w = "v" + std::to_string(i) + ".";
        switch(s.draw(27))
        {
        case 0:
        case 1:
        {
            int a = val();
            op(w + "push_back const " + std::to_string(a), i, true, [&]
               {
                const T e = mk<T>::make(a);
                v[i]->push_back(e);
                y.push_back(a); });
            break;
        }
        case 2:
        {
            int a = val();
            op(w + "push_back move " + std::to_string(a), i, true, [&]
               {
                v[i]->push_back(mk<T>::make(a));
                y.push_back(a); });
            break;
        }
        case 3:
        case 4:
        {
            int a = val();
            op(w + "emplace_back " + std::to_string(a), i, true, [&]
               {
                T* p;
                if constexpr(tracked)
                    p = &v[i]->emplace_back(a, 7);
                else
                    p = &v[i]->emplace_back(mk<T>::make(a * 1000 + 7));
                y.push_back(a * 1000 + 7);
                VP_CHECK(p == &v[i]->back(), "emplace_back returns the new element"); });
            break;
        }
        case 5: // push_back of an own element
            if(n)
            {
                std::size_t k = s.draw(n);
                bool mv = s.chance(1, 4);
                op(w + "push_back own element " + std::to_string(k), i, true, [&]
                   {
                    if(mv)
                        v[i]->emplace_back(std::as_const((*v[i])[k]));
                    else
                        v[i]->push_back((*v[i])[k]);
                    y.push_back(int(y[k])); });
            }
            break;
        case 6:
        case 7:
        {
            int a = val();
            std::size_t k = s.size(n);
            unsigned how = static_cast<unsigned>(s.draw(3));
            op(w + "insert#" + std::to_string(how) + " at " + std::to_string(k) + " " + std::to_string(a), i, k == n, [&]
               {
                auto where = v[i]->cbegin() + std::ptrdiff_t(k);
                typename V::iterator r;
                if(how == 0)
                {
                    const T e = mk<T>::make(a);
                    r = v[i]->insert(where, e);
                }
                else if(how == 1)
                    r = v[i]->insert(where, mk<T>::make(a));
                else if constexpr(tracked)
                    r = v[i]->emplace(where, 0, a);
                else
                    r = v[i]->emplace(where, mk<T>::make(a));
                y.insert(y.begin() + std::ptrdiff_t(k), a);
                VP_CHECK(r == v[i]->begin() + std::ptrdiff_t(k), "insert returns the new position"); });
            break;
        }
        case 8: // insert of an own element
            if(n)
            {
                std::size_t k = s.size(n), e = s.draw(n);
                op(w + "insert own element " + std::to_string(e) + " at " + std::to_string(k), i, k == n, [&]
                   {
                    v[i]->insert(v[i]->cbegin() + std::ptrdiff_t(k), (*v[i])[e]);
                    int a = y[e];
                    y.insert(y.begin() + std::ptrdiff_t(k), a); });
            }
            break;
        case 9:
        case 10:
            if(n)
                op(w + "pop_back", i, true, [&]
                   {
                    v[i]->pop_back();
                    y.pop_back(); });
            break;
        case 11:
        {
            std::size_t k = s.draw(2 * N + 4);
            op(w + "resize " + std::to_string(k), i, false, [&]
               {
                v[i]->resize(k);
                if constexpr(std::is_same_v<T, std::string>)
                {
                    // the model has no form for an empty string: replace the new elements
                    for(std::size_t z = y.size(); z < k; ++z)
                    {
                        VP_CHECK((*v[i])[z].empty(), "resize value-initialises");
                        (*v[i])[z] = mk<T>::make(1);
                    }
                    y.resize(k, 1);
                }
                else
                    y.resize(k); });
            break;
        }
        case 12:
        {
            std::size_t k = s.draw(2 * N + 4);
            int a = val();
            op(w + "resize " + std::to_string(k) + " with " + std::to_string(a), i, false, [&]
               {
                const T e = mk<T>::make(a);
                v[i]->resize(k, e);
                y.resize(k, a); });
            break;
        }
        case 13: // resize with an own element
            if(n)
            {
                std::size_t k = n + s.draw(N + 2), e = s.draw(n);
                op(w + "resize " + std::to_string(k) + " with own element " + std::to_string(e), i, false, [&]
                   {
                    v[i]->resize(k, (*v[i])[e]);
                    y.resize(k, int(y[e])); });
            }
            break;
        case 14:
        {
            std::size_t k = s.draw(3 * N + 2);
            op(w + "reserve " + std::to_string(k), i, true, [&]
               {
                std::size_t cap = v[i]->capacity();
                v[i]->reserve(k);
                VP_CHECK(v[i]->capacity() >= k && v[i]->capacity() >= cap, "reserve"); });
            // no reallocation up to the reserved capacity
            const T* d = v[i]->data();
            std::size_t room = v[i]->capacity() - v[i]->size();
            if(room > 8)
                room = 8;
            if(s.boolean())
                for(std::size_t z = 0; z < room; ++z)
                {
                    v[i]->push_back(mk<T>::make(int(z)));
                    y.push_back(int(z));
                    VP_CHECK(v[i]->data() == d, "reallocation within capacity");
                }
            check("pushing within capacity");
            break;
        }
        case 15:
        case 16:
            op(w + "shrink_to_fit", i, true, [&]
               {
                v[i]->shrink_to_fit();
                if(n <= N)
                    VP_CHECK(!v[i]->dynamic_allocated(), "shrink_to_fit keeps a small vector on the heap"); });
            break;
        case 17:
            op(w + "clear", i, true, [&]
               {
                v[i]->clear();
                y.clear(); });
            break;
        case 18:
            op(w + "= copy", i, false, [&]
               {
                V& r = (*v[i] = std::as_const(*v[j]));
                VP_CHECK(&r == &*v[i], "operator= returns *this");
                y = m[j]; });
            break;
        case 19:
            op(w + "= self", i, true, [&]
               { *v[i] = std::as_const(*v[i]); });
            break;
        case 20:
        {
            bool ctor = s.boolean();
            op(w + (ctor ? "move-construct" : "= move"), i, false, [&]
               {
                if(ctor)
                {
                    v[i].reset();
                    y.clear();
                    v[i].emplace(std::move(*v[j]));
                }
                else
                    *v[i] = std::move(*v[j]);
                y = m[j];
                // moved-from: valid, contents unspecified
                std::size_t cnt = 0;
                for(auto& e : *v[j])
                {
                    if constexpr(tracked)
                        e.alive();
                    ++cnt;
                }
                VP_CHECK(cnt == v[j]->size(), "moved-from vector");
                v[j]->clear();
                m[j].clear(); });
            break;
        }
        case 21:
        {
            c.note(w + "copy-construct");
            try
            {
                std::optional<V> t;
                if(faults && s.boolean())
                    tr::copies_until_throw() = 1 + long(s.draw(5));
                t.emplace(std::as_const(*v[j]));
                tr::copies_until_throw() = 0;
                v[i].reset();
                y.clear();
                v[i].emplace(std::move(*t));
                y = m[j];
            }
            catch(const tr::boom&)
            {
            }
            tr::copies_until_throw() = 0;
            check(w + "copy-construct");
            break;
        }
        case 22:
        case 23:
            op(w + "swap", i, false, [&]
               {
                if(s.boolean())
                    v[i]->swap(*v[j]);
                else
                    swap(*v[i], *v[j]);
                std::swap(m[i], m[j]); });
            break;
        default: // ranges
        {
            std::size_t k = s.draw(2 * N + 3);
            std::vector<int> a;
            for(std::size_t z = 0; z < k; ++z)
                a.push_back(val());
            unsigned how = static_cast<unsigned>(s.draw(9));
            op(w + "range#" + std::to_string(how) + " of " + std::to_string(k), i, false, [&]
               {
                long arm = tr::copies_until_throw();
                tr::copies_until_throw() = 0;
                std::vector<T> src;
                src.reserve(k);
                for(int z : a)
                    src.push_back(mk<T>::make(z));
                std::forward_list<T> fl(src.begin(), src.end());
                tr::copies_until_throw() = arm;
                std::size_t extra = tracked ? 2 * k : 0;
                (void)extra;
                switch(how)
                {
                case 0:
                    v[i]->assign(src.begin(), src.end());
                    y = a;
                    break;
                case 1:
                    v[i]->assign(fl.begin(), fl.end());
                    y = a;
                    break;
                case 2:
                    v[i]->assign_range(src);
                    y = a;
                    break;
                case 3:
                    v[i]->assign_range(fl);
                    y = a;
                    break;
                case 4:
                    v[i]->append_range(src);
                    y.insert(y.end(), a.begin(), a.end());
                    break;
                case 5:
                    v[i]->append_range(fl);
                    y.insert(y.end(), a.begin(), a.end());
                    break;
                case 6:
                {
                    int b0 = val(), b1 = val(), b2 = val();
                    v[i]->assign({mk<T>::make(b0), mk<T>::make(b1), mk<T>::make(b2)});
                    y = {b0, b1, b2};
                    break;
                }
                case 7:
                {
                    V t(src.begin(), src.end());
                    *v[i] = std::move(t);
                    y = a;
                    break;
                }
                default:
                {
                    int b0 = val(), b1 = val();
                    V t({mk<T>::make(b0), mk<T>::make(b1)});
                    VP_CHECK(t.size() == 2, "construction from a list");
                    v[i]->swap(t);
                    y = {b0, b1};
                    break;
                }
                } });
            break;
        }
        }
    }
};

template <typename T, std::size_t N, typename A>
void history(vp::source& s, vp::ctx& c)
{
    tr::reset();
    tr::blocks().clear();
    {
        machine<T, N, A> m(s, c);
        std::size_t steps = 1 + s.draw(16);
        for(std::size_t k = 0; k < steps; ++k)
            m.step();
        c.nontrivial_if(m.grew || m.shrank);
        if(m.grew)
            c.tag("inline to heap");
        if(m.shrank)
            c.tag("heap to inline");
        if(m.faults)
            c.tag("with faults");
    }
    tr::check_counts(0, "at the end");
    VP_CHECK(tr::blocks().empty(), "blocks left at the end");
}
} // namespace
