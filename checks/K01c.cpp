// K01 - the small vector behaves as a vector at every size: elements that can only be moved, and
// elements that are aligned more strictly than the heap is by default
#include "vpbt.hpp"
#include <memory>
#include <optional>
#include <papilio/container.hpp>

using namespace papilio;

namespace
{
struct alignas(64) wide
{
    std::unique_ptr<int> p;
    int v;

    explicit wide(int x)
        : p(new int(x)), v(x)
    {
        here();
    }

    wide(wide&& o) noexcept
        : p(std::move(o.p)), v(o.v)
    {
        here();
    }

    wide& operator=(wide&& o) noexcept
    {
        here();
        p = std::move(o.p);
        v = o.v;
        return *this;
    }

    void here() const
    {
        if(reinterpret_cast<std::uintptr_t>(this) % alignof(wide) != 0)
            misaligned() = true;
    }

    static bool& misaligned()
    {
        static bool b = false;
        return b;
    }
};

int get(const std::unique_ptr<int>& x) { return x ? *x : -1; }

int get(const wide& x) { return x.p ? *x.p : -1; }

template <typename T>
T make(int v)
{
    if constexpr(std::is_same_v<T, wide>)
        return wide(v);
    else
        return std::make_unique<int>(v);
}

template <typename T, std::size_t N>
void history(vp::source& s, vp::ctx& c)
{
    using V = small_vector<T, N>;
    wide::misaligned() = false;
    auto v = std::make_unique<std::array<V, 2>>(); // (aligned as the type says)
    std::vector<int> m[2];
    bool grew = false;
    int next = 0;
    std::size_t steps = 1 + s.draw(16);
    while(steps--)
    {
        int i = int(s.draw(2)), j = 1 - i;
        V& x = (*v)[i];
        auto& y = m[i];
        int a = next++;
        bool dyn = x.dynamic_allocated();
        switch(s.draw(13))
        {
        case 0:
        case 1:
            c.note("push_back " + std::to_string(i));
            x.push_back(make<T>(a));
            y.push_back(a);
            break;
        case 2:
            c.note("emplace_back " + std::to_string(i));
            VP_CHECK(get(x.emplace_back(make<T>(a))) == a, "emplace_back");
            y.push_back(a);
            break;
        case 3:
        case 4:
        {
            std::size_t k = s.size(y.size());
            c.note("insert " + std::to_string(i) + " at " + std::to_string(k));
            auto r = s.boolean() ? x.insert(x.cbegin() + std::ptrdiff_t(k), make<T>(a)) : x.emplace(x.cbegin() + std::ptrdiff_t(k), make<T>(a));
            y.insert(y.begin() + std::ptrdiff_t(k), a);
            VP_CHECK(std::size_t(r - x.begin()) == k && get(*r) == a, "insert");
            break;
        }
        case 5:
            if(!y.empty())
            {
                c.note("pop_back " + std::to_string(i));
                x.pop_back();
                y.pop_back();
            }
            break;
        case 6:
        {
            std::size_t k = s.draw(3 * N + 2);
            c.note("reserve " + std::to_string(i) + " " + std::to_string(k));
            x.reserve(k);
            VP_CHECK(x.capacity() >= k, "reserve");
            break;
        }
        case 7:
            c.note("shrink_to_fit " + std::to_string(i));
            x.shrink_to_fit();
            break;
        case 8:
            c.note("clear " + std::to_string(i));
            x.clear();
            y.clear();
            break;
        case 9:
            c.note("move-assign " + std::to_string(i));
            x = std::move((*v)[j]);
            y = m[j];
            (*v)[j].clear();
            m[j].clear();
            break;
        case 10:
        {
            c.note("move-construct " + std::to_string(i));
            V t(std::move(x));
            VP_CHECK(t.size() == y.size(), "move construction");
            for(std::size_t k = 0; k < y.size(); ++k)
                VP_CHECK(get(t[k]) == y[k], "move construction");
            x.clear();
            x = std::move(t);
            break;
        }
        default:
            c.note("swap");
            if(s.boolean())
                x.swap((*v)[j]);
            else
                swap(x, (*v)[j]);
            std::swap(m[i], m[j]);
            break;
        }
        grew |= dyn != x.dynamic_allocated();
        for(int q = 0; q < 2; ++q)
        {
            const V& k = (*v)[q];
            VP_CHECK(k.size() == m[q].size() && k.capacity() >= k.size() && (k.dynamic_allocated() || k.size() <= N), "size of vector " + std::to_string(q));
            for(std::size_t z = 0; z < m[q].size(); ++z)
                VP_CHECK(get(k[z]) == m[q][z], "element " + std::to_string(z) + " of vector " + std::to_string(q) + " is " + std::to_string(get(k[z])));
        }
        VP_CHECK(!wide::misaligned(), "an element is not aligned as its type says");
    }
    c.nontrivial_if(grew);
}
} // namespace

VP_FACET(move_only, 40000, 1500000, "some vector moved between inline and heap storage")
{
    if(s.boolean())
        history<std::unique_ptr<int>, 3>(s, c);
    else
        history<std::unique_ptr<int>, 1>(s, c);
}

VP_FACET(aligned, 30000, 1000000, "some vector moved between inline and heap storage")
{
    history<wide, 2>(s, c);
}
