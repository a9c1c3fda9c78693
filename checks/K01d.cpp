// K01 - the small vector behaves as a vector at every size: allocators with a state
//
// A history over three small vectors and three standard vectors with the same allocator. The
// allocator has an identity, and every block of memory must go back to an allocator that compares
// equal to the one it came from.
#include "tracked.hpp"
#include <array>
#include <map>
#include <memory_resource>
#include <optional>
#include <papilio/container.hpp>
#include <vector>

using namespace papilio;
using tr::elem;

namespace
{
struct arena_log
{
    std::map<void*, std::pair<int, std::size_t>> blocks;
    std::string problem;
};

arena_log& arenas()
{
    static arena_log l;
    return l;
}

template <typename T, bool OnCopy, bool OnMove, bool OnSwap>
struct arena
{
    using value_type = T;
    using propagate_on_container_copy_assignment = std::bool_constant<OnCopy>;
    using propagate_on_container_move_assignment = std::bool_constant<OnMove>;
    using propagate_on_container_swap = std::bool_constant<OnSwap>;
    using is_always_equal = std::false_type;

    template <typename U>
    struct rebind
    {
        using other = arena<U, OnCopy, OnMove, OnSwap>;
    };

    int id = 0;

    arena() = default;

    explicit arena(int i)
        : id(i) {}

    template <typename U>
    arena(const arena<U, OnCopy, OnMove, OnSwap>& o) noexcept
        : id(o.id)
    {}

    T* allocate(std::size_t n)
    {
        T* p = static_cast<T*>(::operator new(n * sizeof(T)));
        arenas().blocks[p] = {id, n};
        return p;
    }

    void deallocate(T* p, std::size_t n) noexcept
    {
        auto it = arenas().blocks.find(p);
        if(it == arenas().blocks.end())
        {
            arenas().problem = "a block was returned that is not there";
            return;
        }
        if(it->second.first != id)
            arenas().problem = "a block of allocator " + std::to_string(it->second.first) + " was returned to allocator " + std::to_string(id);
        if(it->second.second != n)
            arenas().problem = "a block was returned with another size";
        arenas().blocks.erase(it);
        ::operator delete(p);
    }

    arena select_on_container_copy_construction() const { return arena((id + 1) % 4); }

    friend bool operator==(const arena& a, const arena& b) { return a.id == b.id; }
};

template <typename T>
T value(int v)
{
    if constexpr(std::is_same_v<T, std::string>)
        return (v % 3 == 0 ? std::string(40, 's') : std::string("s")) + std::to_string(v);
    else
        return T(v);
}

template <typename T, std::size_t N, bool OnCopy, bool OnMove, bool OnSwap>
void allocator_history(vp::source& s, vp::ctx& c)
{
    using A = arena<T, OnCopy, OnMove, OnSwap>;
    using V = small_vector<T, N, A>;
    using M = std::vector<T, A>;
    static_assert(std::is_same_v<typename V::allocator_type, A>);

    tr::reset();
    arenas() = {};
    bool took = false;
    {
        std::array<std::optional<V>, 3> v;
        std::array<std::optional<M>, 3> m;
        for(int i = 0; i < 3; ++i)
        {
            int id = int(s.draw(4));
            v[i].emplace(A(id));
            m[i].emplace(A(id));
        }
        std::size_t steps = 1 + s.size(16);
        for(std::size_t k = 0; k < steps; ++k)
        {
            std::size_t i = s.draw(3), j = s.draw(3);
            std::string w = "v" + std::to_string(i);
            V& x = *v[i];
            M& y = *m[i];
            switch(s.draw(12))
            {
            case 0:
            case 1:
            case 2:
            {
                std::size_t n = 1 + s.draw(2 * N + 2);
                w += " push_back x" + std::to_string(n);
                for(std::size_t q = 0; q < n; ++q)
                {
                    int a = int(s.draw(50));
                    x.push_back(value<T>(a));
                    y.push_back(value<T>(a));
                }
                break;
            }
            case 3:
                w += " = v" + std::to_string(j);
                took = took || (x.dynamic_allocated() != v[j]->dynamic_allocated() || x.get_allocator() != v[j]->get_allocator());
                x = *v[j];
                y = *m[j];
                break;
            case 4:
            case 5:
                w += " = move(v" + std::to_string(j) + ")";
                took = took || (v[j]->dynamic_allocated() && x.get_allocator() != v[j]->get_allocator());
                if(i == j)
                    break;
                x = std::move(*v[j]);
                y = std::move(*m[j]);
                v[j]->clear();
                m[j]->clear();
                break;
            case 6:
                if(!OnSwap && x.get_allocator() != v[j]->get_allocator())
                    break;
                w += " swap v" + std::to_string(j);
                if(s.boolean())
                    x.swap(*v[j]);
                else
                    swap(x, *v[j]);
                y.swap(*m[j]);
                break;
            case 7:
                w += " new copy of v" + std::to_string(j);
                if(i == j)
                    break;
                v[i].emplace(std::as_const(*v[j]));
                m[i].emplace(std::as_const(*m[j]));
                break;
            case 8:
                w += " new from v" + std::to_string(j);
                if(i == j)
                    break;
                v[i].emplace(std::move(*v[j]));
                m[i].emplace(std::move(*m[j]));
                v[j]->clear();
                m[j]->clear();
                break;
            case 9:
            {
                int id = int(s.draw(4));
                std::size_t n = s.draw(2 * N + 2);
                w += " new with allocator " + std::to_string(id) + ", " + std::to_string(n) + " elements";
                std::vector<T> src;
                for(std::size_t q = 0; q < n; ++q)
                    src.push_back(value<T>(int(s.draw(50))));
                v[i].emplace(src.begin(), src.end(), A(id));
                m[i].emplace(src.begin(), src.end(), A(id));
                break;
            }
            case 10:
            {
                w += " clear or shrink";
                if(s.boolean())
                {
                    x.clear();
                    y.clear();
                }
                while(x.size() > N && s.boolean())
                {
                    x.pop_back();
                    y.pop_back();
                }
                x.shrink_to_fit();
                break;
            }
            case 11:
            {
                std::size_t n = s.draw(3 * N + 2);
                w += " reserve " + std::to_string(n);
                x.reserve(n);
                break;
            }
            }
            c.note(w);
            std::size_t held = 0;
            for(int z = 0; z < 3; ++z)
            {
                const V& p = *v[z];
                const M& q = *m[z];
                VP_CHECK(p.get_allocator() == q.get_allocator(), "after " + w + ": vector " + std::to_string(z) + " uses allocator " + std::to_string(p.get_allocator().id) + ", expected " + std::to_string(q.get_allocator().id));
                VP_CHECK(p.size() == q.size() && std::equal(p.begin(), p.end(), q.begin()), "after " + w + ": contents of vector " + std::to_string(z));
                if(p.dynamic_allocated())
                {
                    ++held;
                    auto it = arenas().blocks.find(const_cast<T*>(p.data()));
                    VP_CHECK(it != arenas().blocks.end() && it->second.second == p.capacity(), "after " + w + ": the storage is not a block of an allocator");
                    VP_CHECK(it->second.first == p.get_allocator().id, "after " + w + ": vector " + std::to_string(z) + " uses a block of another allocator");
                }
                if(q.capacity())
                    ++held;
            }
            VP_CHECK(arenas().problem.empty(), "after " + w + ": " + arenas().problem);
            VP_CHECK(arenas().blocks.size() == held, "after " + w + ": " + std::to_string(arenas().blocks.size()) + " blocks, expected " + std::to_string(held));
        }
    }
    VP_CHECK(arenas().problem.empty(), "at the end: " + arenas().problem);
    VP_CHECK(arenas().blocks.empty(), "at the end: some block was not returned");
    if constexpr(std::is_same_v<T, elem>)
        tr::check_counts(0, "at the end");
    c.nontrivial_if(took);
}
} // namespace

#define RULE "an assignment met vectors of different allocators or of different kinds of storage"

VP_FACET(allocators, 30000, 1000000, RULE)
{
    switch(s.draw(8))
    {
    case 0: allocator_history<int, 2, false, false, false>(s, c); break;
    case 1: allocator_history<std::string, 3, true, false, false>(s, c); break;
    case 2: allocator_history<elem, 2, false, true, false>(s, c); break;
    case 3: allocator_history<std::string, 1, true, true, false>(s, c); break;
    case 4: allocator_history<elem, 3, false, false, true>(s, c); break;
    case 5: allocator_history<int, 2, true, false, true>(s, c); break;
    case 6: allocator_history<std::string, 2, false, true, true>(s, c); break;
    default: allocator_history<elem, 2, true, true, true>(s, c); break;
    }
}
