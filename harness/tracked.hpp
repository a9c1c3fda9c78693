// tracked.hpp - element type that records every construction and destruction,
// and an allocator that records every block.
#ifndef TRACKED_HPP
#define TRACKED_HPP
#include "vpbt.hpp"
#include <memory>
#include <cstdlib>

namespace tr
{
struct boom // thrown by an element's copy when armed
{};

// small tables that never allocate: the tracking itself must not be hit by an injected failure
struct address_set
{
    static constexpr std::size_t max = 4096;
    const void* a[max];
    std::size_t n = 0;

    struct result
    {
        int first;
        bool second;
    };

    std::size_t count(const void* p) const
    {
        for(std::size_t i = n; i-- > 0;)
            if(a[i] == p)
                return 1;
        return 0;
    }

    result insert(const void* p)
    {
        if(count(p))
            return {0, false};
        if(n == max)
            std::abort();
        a[n++] = p;
        return {0, true};
    }

    std::size_t erase(const void* p)
    {
        for(std::size_t i = n; i-- > 0;)
            if(a[i] == p)
            {
                a[i] = a[--n];
                return 1;
            }
        return 0;
    }

    std::size_t size() const { return n; }

    void clear() { n = 0; }
};

inline address_set& live()
{
    static address_set s;
    return s;
}

inline long& copies_until_throw()
{
    static long n = 0; // 0: never
    return n;
}

inline bool& misused()
{
    static bool b = false;
    return b;
}

// ThrowMove: moving may throw as well
template <bool ThrowMove>
struct basic_elem
{
    int v;

    void born()
    {
        if(!live().insert(this).second)
            vp::fail("an element was constructed over a live element");
    }

    static void may_throw()
    {
        long& n = copies_until_throw();
        if(n > 0 && --n == 0)
            throw boom{};
    }

    void alive() const
    {
        if(!live().count(this))
            vp::fail("an element that is not alive was used");
    }

    basic_elem()
        : v(0)
    {
        may_throw();
        born();
    }

    basic_elem(int x)
        : v(x)
    {
        may_throw();
        born();
    }

    basic_elem(int a, int b)
        : basic_elem(a * 1000 + b) {}

    basic_elem(const basic_elem& o)
        : v((o.alive(), o.v))
    {
        may_throw();
        born();
    }

    basic_elem(basic_elem&& o) noexcept(!ThrowMove)
        : v(o.v)
    {
        if constexpr(ThrowMove)
            may_throw();
        if(!live().count(&o))
            moved_from_dead() = true;
        o.v = -1;
        if(!live().insert(this).second)
            moved_from_dead() = true;
    }

    basic_elem& operator=(const basic_elem& o)
    {
        alive();
        o.alive();
        may_throw();
        v = o.v;
        return *this;
    }

    basic_elem& operator=(basic_elem&& o) noexcept(!ThrowMove)
    {
        if constexpr(ThrowMove)
            may_throw();
        if(!live().count(&o) || !live().count(this))
            moved_from_dead() = true;
        int t = o.v;
        if(this != &o)
            o.v = -1;
        v = t;
        return *this;
    }

    ~basic_elem()
    {
        if(!live().erase(this))
            moved_from_dead() = true;
        v = -2;
    }

    static bool& moved_from_dead() { return misused(); }

    friend bool operator==(const basic_elem& a, const basic_elem& b)
    {
        a.alive();
        b.alive();
        return a.v == b.v;
    }

    friend auto operator<=>(const basic_elem& a, const basic_elem& b)
    {
        a.alive();
        b.alive();
        return a.v <=> b.v;
    }
};

using elem = basic_elem<false>;
using mover = basic_elem<true>;

inline void reset()
{
    live().clear();
    elem::moved_from_dead() = false;
    copies_until_throw() = 0;
}

inline void check_counts(std::size_t expected, const char* when)
{
    if(elem::moved_from_dead())
        vp::fail(std::string("an element was destroyed twice, moved while dead, or moved onto a live one, ") + when);
    if(live().size() != expected)
        vp::fail(std::string("live elements: ") + std::to_string(live().size()) + ", expected " + std::to_string(expected) + ", " + when);
}

// ---- allocator
struct block_table
{
    address_set p;
    std::size_t len[address_set::max];

    std::size_t size() const { return p.n; }

    bool empty() const { return p.n == 0; }

    void clear() { p.n = 0; }

    void add(void* q, std::size_t n)
    {
        p.insert(q);
        len[p.n - 1] = n;
    }

    // 0: not there, 1: gone, 2: gone, but it had another size
    int remove(void* q, std::size_t n)
    {
        for(std::size_t i = p.n; i-- > 0;)
            if(p.a[i] == q)
            {
                int r = len[i] == n ? 1 : 2;
                p.a[i] = p.a[p.n - 1];
                len[i] = len[p.n - 1];
                --p.n;
                return r;
            }
        return 0;
    }
};

inline block_table& blocks()
{
    static block_table m;
    return m;
}

template <typename T>
struct alloc
{
    using value_type = T;
    int id = 0;

    alloc() = default;

    explicit alloc(int i)
        : id(i) {}

    template <typename U>
    alloc(const alloc<U>& o)
        : id(o.id) {}

    T* allocate(std::size_t n)
    {
        T* p = static_cast<T*>(::operator new(n * sizeof(T)));
        blocks().add(p, n);
        return p;
    }

    void deallocate(T* p, std::size_t n) noexcept
    {
        int r = blocks().remove(p, n);
        if(r == 0)
            elem::moved_from_dead() = true;
        if(r == 2)
            bad_size() = true;
        ::operator delete(p);
    }

    static bool& bad_size()
    {
        static bool b = false;
        return b;
    }

    friend bool operator==(const alloc&, const alloc&) { return true; }
};
} // namespace tr

#endif
