// K02 - the fixed-capacity containers behave as their models and respect their capacity
#include "tracked.hpp"
#include <algorithm>
#include <map>
#include <optional>
#include <papilio/container.hpp>
#include <stdexcept>

using namespace papilio;
using tr::elem;
using tr::mover;

namespace
{
template <typename T>
T make(int v)
{
    if constexpr(std::is_same_v<T, std::string>)
        return (v % 3 == 0 ? std::string(40, 's') : std::string("s")) + std::to_string(v);
    else
        return T(v);
}

template <typename T>
bool is(const T& x, int v)
{
    if constexpr(std::is_same_v<T, elem> || std::is_same_v<T, mover>)
        return (x.alive(), x.v) == v;
    else
        return x == make<T>(v);
}

template <typename T>
std::string show(const T& x)
{
    if constexpr(std::is_same_v<T, elem> || std::is_same_v<T, mover>)
        return std::to_string(x.v);
    else if constexpr(std::is_same_v<T, std::string>)
        return x;
    else
        return std::to_string(x);
}

// ---- fixed_vector
template <typename T, std::size_t N>
struct vec_machine
{
    using V = fixed_vector<T, N>;
    static constexpr bool moves = std::is_same_v<T, mover>; // moving an element may throw
    static constexpr bool tracked = std::is_same_v<T, elem> || moves;
    vp::source& s;
    vp::ctx& c;
    std::optional<V> v;
    std::vector<int> m;
    bool faults, full = false;
    unsigned probe = 0;

    vec_machine(vp::source& src, vp::ctx& ctx)
        : s(src), c(ctx), faults(tracked && src.chance(1, 3))
    {
        v.emplace();
        m.reserve(64);
    }

    void check(const std::string& after)
    {
        V& x = *v;
        const V& k = x;
        bool ok = k.size() == m.size();
        for(std::size_t i = 0; ok && i < m.size(); ++i)
            ok = is(k[i], m[i]);
        if(!ok)
        {
            std::string a, b;
            for(auto& e : k)
                a += show(e) + " ";
            for(int e : m)
                b += std::to_string(e) + " ";
            vp::fail("after " + after + ": [" + a + "], model [" + b + "]");
        }
        VP_CHECK(k.empty() == m.empty() && k.capacity() == N && V::max_size() == N, after);
        VP_CHECK(k.data() == k.begin() && k.end() == k.begin() + m.size() && k.cbegin() == k.begin() && k.cend() == k.end() && x.begin() == k.begin() && x.end() == k.end(), after);
        VP_CHECK((const char*)k.data() >= (const char*)&k && (const char*)(k.data() + N) <= (const char*)(&k + 1), after + ": data outside the object");
        if(!m.empty())
            VP_CHECK(&k.front() == k.data() && &x.front() == k.data() && &k.back() == k.data() + m.size() - 1 && &x.back() == &k.back(), after);
        for(std::size_t i = 0; i < m.size(); ++i)
            VP_CHECK(&k.at(i) == k.data() + i && &x.at(i) == k.data() + i, after);
        const std::size_t outside[] = {m.size(), m.size() + 1, std::size_t(-1), N};
        if(std::size_t p = outside[probe++ % 4]; p >= m.size())
        {
            bool thrown = false;
            try
            {
                if(probe & 4)
                    (void)x.at(p);
                else
                    (void)k.at(p);
            }
            catch(const std::out_of_range&)
            {
                thrown = true;
            }
            VP_CHECK(thrown, after + ": at() outside did not throw");
        }
        tr::check_counts(tracked ? m.size() : 0, ("after " + after).c_str());
    }

    // the elements are whatever they are after a failure, but all of them are alive
    void resync()
    {
        m.clear();
        for(auto& e : *v)
            if constexpr(tracked)
                m.push_back((e.alive(), e.v));
    }

    template <typename F>
    void op(const std::string& name, bool over, bool strong, F&& f)
    {
        c.note(name);
        auto before = m;
        before.reserve(64);
        bool length = false, boom = false;
        if(tracked && faults && s.chance(1, 3))
            tr::copies_until_throw() = 1 + long(s.draw(4));
        try
        {
            f();
        }
        catch(const std::length_error&)
        {
            length = true;
        }
        catch(const tr::boom&)
        {
            boom = true;
        }
        tr::copies_until_throw() = 0;
        if(boom && (!strong || moves))
            resync();
        else if(boom || length)
            m = before;
        VP_CHECK(boom || length == over, name + (over ? ": the capacity was exceeded without an exception" : ": length_error although it fits"));
        if(length)
        {
            full = true;
            c.tag("over capacity");
        }
        if(boom)
            c.tag("element threw");
        check(name + (length ? " (length_error)" : boom ? " (element threw)" :
                                                          ""));
    }

    void step()
    {
        std::size_t n = m.size();
        int a = int(s.draw(50));
        // a full vector mostly shrinks again: exceptions are slow
        switch(n == N && s.chance(2, 3) ? 8 : s.draw(12))
        {
        case 0:
        case 1:
            op("push_back const " + std::to_string(a), n == N, true, [&]
               {
                const T e = make<T>(a);
                v->push_back(e);
                m.push_back(a); });
            break;
        case 2:
            op("push_back move " + std::to_string(a), n == N, true, [&]
               {
                v->push_back(make<T>(a));
                m.push_back(a); });
            break;
        case 3:
            op("emplace_back " + std::to_string(a), n == N, true, [&]
               {
                T& r = v->emplace_back(make<T>(a));
                VP_CHECK(&r == &v->back(), "emplace_back returns the new element");
                m.push_back(a); });
            break;
        case 4:
        case 5:
        case 6:
        {
            std::size_t k = s.size(n);
            unsigned how = unsigned(s.draw(3));
            op("insert#" + std::to_string(how) + " " + std::to_string(a) + " at " + std::to_string(k), n == N, true, [&]
               {
                typename V::iterator r;
                if(how == 0)
                {
                    const T e = make<T>(a);
                    r = v->insert(v->cbegin() + k, e);
                }
                else if(how == 1)
                    r = v->insert(v->cbegin() + k, make<T>(a));
                else
                    r = v->emplace(v->cbegin() + k, make<T>(a));
                VP_CHECK(r == v->begin() + k, "insert returns the position");
                m.insert(m.begin() + std::ptrdiff_t(k), a); });
            break;
        }
        case 7:
            if(n)
            {
                std::size_t k = s.size(n), e = s.draw(n);
                op("insert own element " + std::to_string(e) + " at " + std::to_string(k), n == N, true, [&]
                   {
                    v->insert(v->cbegin() + k, (*v)[e]);
                    int x = m[e];
                    m.insert(m.begin() + std::ptrdiff_t(k), x); });
            }
            break;
        case 8:
            if(n)
                op("pop_back", false, true, [&]
                   {
                    v->pop_back();
                    m.pop_back(); });
            break;
        case 9:
            if(s.chance(1, 4))
                op("clear", false, true, [&]
                   {
                    v->clear();
                    m.clear(); });
            break;
        case 10:
        {
            bool mv = s.boolean();
            c.note(mv ? "move-construct" : "copy-construct");
            if(tracked && faults)
                tr::copies_until_throw() = 1 + long(s.draw(6));
            try
            {
                if(mv)
                {
                    V t(std::move(*v));
                    tr::copies_until_throw() = 0;
                    for(auto& e : *v)
                        if constexpr(tracked)
                            e.alive();
                    v.reset();
                    v.emplace(std::move(t));
                }
                else
                {
                    V t(std::as_const(*v));
                    tr::copies_until_throw() = 0;
                    VP_CHECK(t.size() == n, "copy");
                    for(std::size_t i = 0; i < n; ++i)
                        VP_CHECK(is(t[i], m[i]) && &t[i] != &(*v)[i], "copy");
                }
            }
            catch(const tr::boom&)
            {
                c.tag("constructor threw");
                if(moves)
                    resync();
            }
            tr::copies_until_throw() = 0;
            check("construct");
            break;
        }
        default:
        {
            std::size_t k = s.draw(N + 3);
            c.note("construct " + std::to_string(k) + " x " + std::to_string(a));
            bool length = false;
            try
            {
                const T e = make<T>(a);
                if(tracked && faults)
                    tr::copies_until_throw() = 1 + long(s.draw(6));
                V t(k, e);
                tr::copies_until_throw() = 0;
                v.reset();
                v.emplace(t);
                m.assign(k, a);
            }
            catch(const std::length_error&)
            {
                length = true;
            }
            catch(const tr::boom&)
            {
                length = k > N;
                c.tag("constructor threw");
            }
            tr::copies_until_throw() = 0;
            VP_CHECK(length == (k > N), "construction with a count against the capacity");
            check("construct count");
            break;
        }
        }
    }
};

template <typename T, std::size_t N>
void vec_history(vp::source& s, vp::ctx& c)
{
    tr::reset();
    {
        vec_machine<T, N> m(s, c);
        std::size_t k = 1 + s.draw(24);
        while(k--)
            m.step();
        c.nontrivial_if(m.full || m.m.size() >= 3);
    }
    tr::check_counts(0, "at the end");
}

// ---- fixed_flat_map
struct by_mod // keys that differ may be equivalent
{
    bool operator()(int a, int b) const
    {
        return a % 5 < b % 5;
    }
};

struct by_mod_any
{
    using is_transparent = void;

    bool operator()(long a, long b) const
    {
        return a % 5 < b % 5;
    }
};

template <typename K, typename V, std::size_t N, typename Cmp>
struct map_machine
{
    using M = fixed_flat_map<K, V, N, Cmp>;
    static constexpr bool descending = std::is_same_v<Cmp, std::greater<int>> || std::is_same_v<Cmp, std::greater<>>;
    static constexpr bool tracked = std::is_same_v<K, elem> || std::is_same_v<V, elem>;
    struct mless
    {
        bool operator()(int a, int b) const
        {
            return less(a, b);
        }
    };
    vp::source& s;
    vp::ctx& c;
    std::optional<M> v;
    std::map<int, int, mless> m; // the model is keyed by numbers; make<K> keeps no order for strings, see less()
    bool full = false, updated = false, faults;
    unsigned probe = 0;

    map_machine(vp::source& src, vp::ctx& ctx)
        : s(src), c(ctx), faults(tracked && src.chance(1, 3))
    {
        probe = unsigned(s.draw(16));
        v.emplace();
    }

    static bool less(int a, int b)
    {
        if constexpr(std::is_same_v<K, std::string>)
        {
            static const std::vector<std::string> k = []
            {
                std::vector<std::string> r;
                for(int i = 0; i < 64; ++i)
                    r.push_back(make<std::string>(i));
                return r;
            }();
            return k[std::size_t(a)] < k[std::size_t(b)];
        }
        else if constexpr(std::is_same_v<Cmp, by_mod> || std::is_same_v<Cmp, by_mod_any>)
            return a % 5 < b % 5;
        else
            return descending ? a > b : a < b;
    }

    static constexpr std::size_t per_entry = (std::is_same_v<K, elem> ? 1 : 0) + (std::is_same_v<V, elem> ? 1 : 0);

    void check(const std::string& after)
    {
        const M& k = *v;
        std::vector<std::pair<int, int>> want(m.begin(), m.end());
        bool ok = k.size() == want.size() && std::size_t(k.end() - k.begin()) == want.size() && v->end() == k.end();
        auto it = k.begin();
        for(std::size_t i = 0; ok && i < want.size(); ++i, ++it)
            ok = is(it->first, want[i].first) && is(it->second, want[i].second);
        if(!ok)
        {
            std::string a, b;
            for(auto& e : k)
                a += show(e.first) + ":" + show(e.second) + " ";
            for(auto& e : want)
                b += std::to_string(e.first) + ":" + std::to_string(e.second) + " ";
            vp::fail("after " + after + ": {" + a + "}, model {" + b + "}");
        }
        VP_CHECK(k.empty() == want.empty() && M::max_size() == N, after);
        tr::check_counts(per_entry * m.size(), ("after " + after).c_str());
    }

    void lookup(int a)
    {
        const M& k = *v;
        c.note("lookup " + std::to_string(a));
        auto it = m.find(a);
        {
            const K key = make<K>(a);
            bool here = it != m.end();
            VP_CHECK(k.contains(key) == here, "contains()");
            auto f = v->find(key);
            auto g = k.find(key);
            VP_CHECK((f != v->end()) == here && (g != k.end()) == here && f == g, "find()");
            if(here)
                VP_CHECK(is(f->first, it->first) && is(f->second, it->second), "find() gives the entry");
            std::size_t below = 0;
            for(auto& e : m)
                below += less(e.first, a);
            VP_CHECK(v->lower_bound(key) == v->begin() + below && k.lower_bound(key) == k.begin() + below, "lower_bound()");
            bool thrown = false;
            if(!here && probe++ % 16) // throwing is slow
                thrown = true;
            else try
            {
                auto& p = v->at(key);
                auto& q = k.at(key);
                VP_CHECK(&p == &q && here && is(p, it->second), "at()");
            }
            catch(const std::out_of_range&)
            {
                thrown = true;
            }
            VP_CHECK(thrown == !here, "at() of a missing key");
            if constexpr(std::is_same_v<Cmp, by_mod_any> || (std::is_same_v<K, int> && is_transparent_v<Cmp>))
            {
                const long lk = a;
                VP_CHECK(k.contains(lk) == here && k.find(lk) == g && v->find(lk) == f, "heterogeneous lookup");
                VP_CHECK(v->lower_bound(lk) == v->begin() + below && k.lower_bound(lk) == k.begin() + below, "heterogeneous lookup");
            }
            if constexpr(std::is_same_v<K, std::string>)
            {
                std::string_view sv = key;
                VP_CHECK(k.contains(sv) == here && (k.find(sv) != k.end()) == here && (v->find(sv) != v->end()) == here, "heterogeneous lookup");
                VP_CHECK(v->find(sv) == f && k.find(sv) == g && v->lower_bound(sv) == v->begin() + below, "heterogeneous lookup");
            }
        }
        check("lookup");
    }

    void step()
    {
        int a = int(s.draw(12)), b = int(s.draw(50));
        unsigned what = unsigned(s.draw(11));
        bool here = m.count(a) != 0;
        bool over = !here && m.size() == N;
        if(over && s.chance(1, 2))
        {
            a = int(s.pick(std::vector<int>([&] { std::vector<int> r; for(auto& e : m) r.push_back(e.first); return r; }())));
            here = true;
            over = false;
        }
        if(what < 7)
        {
            bool assign = s.boolean();
            int from = -1; // the value is that of an entry of the map itself
            if(!m.empty() && s.chance(1, 4))
            {
                auto it = std::next(m.begin(), std::ptrdiff_t(s.draw(m.size())));
                from = it->first;
                b = it->second;
            }
            std::string name = (assign ? "insert_or_assign " : "try_emplace ") + std::to_string(a) + " -> " + (from >= 0 ? "the value of " + std::to_string(from) + ", " : "") + std::to_string(b);
            c.note(name);
            bool length = false;
            try
            {
                const K key = make<K>(a);
                std::pair<typename M::iterator, bool> r;
                std::optional<V> val;
                const V* ref = nullptr;
                if(from >= 0)
                    ref = &v->at(make<K>(from));
                else
                {
                    val.emplace(make<V>(b));
                    if(s.boolean())
                        ref = &*val;
                }
                unsigned how = unsigned(s.draw(3));
                if(faults)
                    tr::copies_until_throw() = 1 + long(s.draw(5));
                if(assign)
                    r = ref ? v->insert_or_assign(key, *ref) : v->insert_or_assign(key, std::move(*val));
                else if constexpr(std::is_same_v<V, elem>)
                    r = ref ? v->try_emplace(key, *ref) : how == 0 ? v->try_emplace(key, 0, b)
                                                      : how == 1   ? v->try_emplace(key, b)
                                                                   : v->try_emplace(key, std::move(*val));
                else
                    r = ref ? v->try_emplace(key, *ref) : v->try_emplace(key, std::move(*val));
                tr::copies_until_throw() = 0;
                VP_CHECK(r.second == !here, name + ": reports whether it inserted");
                if(assign || !here)
                    m[a] = b;
                VP_CHECK(r.first >= v->begin() && r.first < v->end() && is(r.first->first, m.find(a)->first) && is(r.first->second, m[a]), name + ": gives the entry");
                updated |= here;
            }
            catch(const std::length_error&)
            {
                length = true;
                full = true;
                c.tag("over capacity");
            }
            catch(const tr::boom&)
            {
                tr::copies_until_throw() = 0;
                c.tag("threw");
                length = over; // either is an answer
                // the entries that are there are whole, and their number is what size() says
                tr::check_counts(per_entry * v->size(), ("after " + name + " that threw").c_str());
                v.reset();
                v.emplace();
                m.clear();
            }
            tr::copies_until_throw() = 0;
            VP_CHECK(length == over, name + ": capacity");
            check(name);
        }
        else if(what == 7)
        {
            c.note("copy");
            {
                M t(*v);
                v.reset();
                v.emplace(std::move(t));
            }
            check("copy and move");
        }
        else if(what == 8) // a map cannot be assigned to, but its values can
        {
            if(m.empty())
                return;
            auto it = std::next(m.begin(), std::ptrdiff_t(s.draw(m.size())));
            c.note("write " + std::to_string(it->first) + " = " + std::to_string(b));
            {
                const K key = make<K>(it->first);
                switch(s.draw(3))
                {
                case 0: v->at(key) = make<V>(b); break;
                case 1: v->find(key)->second = make<V>(b); break;
                default: v->lower_bound(key)->second = make<V>(b); break;
                }
            }
            it->second = b;
            check("write");
        }
        else
            lookup(a);
    }
};

template <typename K, typename V, std::size_t N, typename Cmp>
void map_history(vp::source& s, vp::ctx& c)
{
    tr::reset();
    {
        map_machine<K, V, N, Cmp> m(s, c);
        std::size_t k = 1 + s.draw(24);
        while(k--)
            m.step();
        for(int a = 0; a < 13; ++a)
            m.lookup(a);
        c.nontrivial_if(m.m.size() >= 3 && (m.full || m.updated));
    }
    tr::check_counts(0, "at the end");
}
} // namespace

VP_FACET(vector_tracked, 80000, 3000000, "reached three elements or exceeded the capacity")
{
    vec_history<elem, 4>(s, c);
}

VP_FACET(vector_movers, 40000, 1500000, "reached three elements or exceeded the capacity")
{
    vec_history<mover, 5>(s, c);
}

VP_FACET(vector_strings, 40000, 1000000, "reached three elements or exceeded the capacity")
{
    vec_history<std::string, 6>(s, c);
}

VP_FACET(vector_one, 20000, 400000, "reached three elements or exceeded the capacity")
{
    vec_history<elem, 1>(s, c);
}

VP_FACET(map_ints, 30000, 1000000, "three keys, and an update or an overflow")
{
    map_history<int, int, 6, std::less<>>(s, c);
}

VP_FACET(map_descending, 30000, 1000000, "three keys, and an update or an overflow")
{
    map_history<int, std::string, 5, std::greater<int>>(s, c);
}

VP_FACET(map_strings, 30000, 1000000, "three keys, and an update or an overflow")
{
    map_history<std::string, elem, 8, std::less<>>(s, c);
}

VP_FACET(map_tracked_keys, 30000, 1000000, "three keys, and an update or an overflow")
{
    map_history<elem, elem, 6, std::less<elem>>(s, c);
}

VP_FACET(map_equivalent, 20000, 800000, "three keys, and an update or an overflow")
{
    if(s.boolean())
        map_history<int, std::string, 4, by_mod>(s, c);
    else
        map_history<int, elem, 5, by_mod_any>(s, c);
}
