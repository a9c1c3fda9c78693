// M01 - optionally owning pointers delete owned objects exactly once, others never
#include "vpbt.hpp"
#include <memory>
#include <optional>
#include <papilio/memory.hpp>
#include <papilio/utility.hpp>

using namespace papilio;

namespace
{
struct obj
{
    int v = 0;
    int serial;
    static inline int next_serial = 0;
    static inline std::vector<int> destroyed; // per serial: how often

    obj()
        : serial(next_serial++)
    {
        destroyed.push_back(0);
    }

    explicit obj(int x)
        : obj()
    {
        v = x;
    }

    obj(const obj&) = delete;

    ~obj() { ++destroyed[std::size_t(serial)]; }

    static void reset()
    {
        next_serial = 0;
        destroyed.clear();
    }
};

struct event
{
    const void* p;
    int id;
};

std::vector<event> events; // what the stateful deleters did

struct stateful
{
    int id = 0;
    bool array = false;

    void operator()(obj* p) const
    {
        events.push_back({p, id});
        if(array)
            delete[] p;
        else
            delete p;
    }
};

struct stateless
{
    void operator()(obj* p) const
    {
        events.push_back({p, 0});
        delete p;
    }
};

// one allocation: a single object or an array
struct block
{
    obj* p;
    int first, count; // serials
    int destroyed_by = -1; // deleter id, once destroyed
    bool dead = false;
    bool external = false; // belongs to the harness
};

template <typename T, typename D>
struct machine
{
    using P = optional_unique_ptr<T, D>;
    static constexpr bool array = std::is_array_v<T>;
    static constexpr bool has_id = std::is_same_v<D, stateful>;
    static constexpr bool logged = !std::is_same_v<D, std::default_delete<T>>;

    struct slot
    {
        int b = -1; // block
        bool own = false;
        int del = 0;
    };

    vp::source& s;
    vp::ctx& c;
    std::vector<block> blocks;
    std::array<std::optional<P>, 3> v;
    std::array<slot, 3> m;
    bool moved_owner = false, deleted = false;

    machine(vp::source& src, vp::ctx& ctx)
        : s(src), c(ctx)
    {
        obj::reset();
        events.clear();
        for(auto& x : v)
        {
            x.emplace();
            if constexpr(has_id)
                x->get_deleter().array = array;
        }
    }

    ~machine()
    {
        // only after a failure
        for(auto& x : v)
            x.reset();
        for(auto& b : blocks)
            if(b.external && !b.dead)
                drop(b);
    }

    void drop(block& b)
    {
        if constexpr(array)
            delete[] b.p;
        else
            delete b.p;
        b.dead = true;
    }

    int make_block()
    {
        block b{};
        b.first = obj::next_serial;
        if constexpr(array)
        {
            b.count = int(1 + s.draw(4));
            b.p = new obj[std::size_t(b.count)];
        }
        else
        {
            b.count = 1;
            b.p = new obj(int(s.draw(100)));
        }
        blocks.push_back(b);
        return int(blocks.size()) - 1;
    }

    // the object a slot owns goes away
    void model_drop(slot& x)
    {
        if(x.own)
        {
            blocks[std::size_t(x.b)].dead = true;
            blocks[std::size_t(x.b)].destroyed_by = has_id ? x.del : 0;
            deleted = true;
        }
        x.b = -1;
        x.own = false;
    }

    D make_deleter(int id)
    {
        if constexpr(has_id)
            return D{id, array};
        else
            return D{};
    }

    void check(const std::string& after)
    {
        for(std::size_t i = 0; i < 3; ++i)
        {
            P& p = *v[i];
            const P& k = p;
            obj* want = m[i].b < 0 ? nullptr : blocks[std::size_t(m[i].b)].p;
            std::string w = after + ", p" + std::to_string(i);
            VP_CHECK(k.get() == want, w + ": get()");
            VP_CHECK(k.has_ownership() == m[i].own, w + ": has_ownership() is " + (k.has_ownership() ? "true" : "false"));
            VP_CHECK(static_cast<bool>(k) == (want != nullptr) && (k == nullptr) == (want == nullptr) && (nullptr == k) == (want == nullptr), w + ": null tests");
            if constexpr(has_id)
                VP_CHECK(!m[i].own || k.get_deleter().id == m[i].del, w + ": deleter " + std::to_string(k.get_deleter().id) + ", expected " + std::to_string(m[i].del));
            if(want && !blocks[std::size_t(m[i].b)].dead)
            {
                if constexpr(array)
                {
                    for(int z = 0; z < blocks[std::size_t(m[i].b)].count; ++z)
                        VP_CHECK(&k[std::size_t(z)] == want + z && p[std::size_t(z)].serial == blocks[std::size_t(m[i].b)].first + z, w + ": operator[]");
                }
                else
                    VP_CHECK(&*k == want && k->serial == want->serial && k.operator->() == want, w + ": access");
            }
            for(std::size_t j = 0; j < 3; ++j)
                VP_CHECK((k == *v[j]) == (k.get() == v[j]->get()), w + ": comparison");
        }
        std::size_t seen = 0;
        for(auto& b : blocks)
        {
            for(int z = 0; z < b.count; ++z)
            {
                int n = obj::destroyed[std::size_t(b.first + z)];
                VP_CHECK(n == (b.dead ? 1 : 0), after + ": object " + std::to_string(b.first + z) + " was destroyed " + std::to_string(n) + " times, expected " + (b.dead ? "1" : "0"));
            }
            if(b.destroyed_by >= 0)
                ++seen;
        }
        if constexpr(logged)
        {
            VP_CHECK(events.size() == seen, after + ": deleters ran " + std::to_string(events.size()) + " times, expected " + std::to_string(seen));
            // addresses may be reused: the last call is what this step did
            if(!events.empty())
            {
                auto e = events.back();
                bool ok = false;
                for(auto& b : blocks)
                    ok |= b.p == e.p && b.destroyed_by == e.id;
                VP_CHECK(ok, after + ": destroyed by deleter " + std::to_string(e.id) + ", which was not given for it");
            }
        }
    }

    // a reference that an operation on slot i may keep: not to what slot i owns itself
    bool refers_to_own(std::size_t i, int b)
    {
        return m[i].own && m[i].b == b;
    }

    void step()
    {
        std::size_t i = s.draw(3), j = (i + 1 + s.draw(2)) % 3;
        P& p = *v[i];
        slot& x = m[i];
        std::string w = "p" + std::to_string(i) + ".", q = "p" + std::to_string(j);
        int id = int(1 + s.draw(9));
        switch(s.draw(17))
        {
        case 0:
        case 1: // take ownership
        {
            int b = make_block();
            c.note(w + "reset(new, own)");
            p.reset(blocks[std::size_t(b)].p, true);
            int keep = x.del;
            model_drop(x);
            x = {b, true, keep};
            break;
        }
        case 2: // refer to something external
        {
            int b = -1;
            if(s.boolean())
            {
                b = make_block();
                blocks[std::size_t(b)].external = true;
            }
            c.note(w + (b < 0 ? "reset(null, false)" : "reset(external, false)"));
            p.reset(b < 0 ? nullptr : blocks[std::size_t(b)].p, s.boolean() && b < 0);
            int keep = x.del;
            model_drop(x);
            x = {b, false, keep};
            break;
        }
        case 3: // refer to what another owns or refers to
        {
            if(refers_to_own(i, m[j].b) || m[j].b < 0)
                break;
            c.note(w + "reset(" + q + ".get(), false)");
            p.reset(v[j]->get(), false);
            int keep = x.del, b = m[j].b;
            model_drop(x);
            x = {b, false, keep};
            break;
        }
        case 4:
            if(s.boolean())
            {
                c.note(w + "reset()");
                p.reset();
            }
            else
            {
                c.note(w + "reset(nullptr)");
                p.reset(nullptr);
            }
            model_drop(x);
            break;
        case 5:
        {
            c.note(w + "release()");
            obj* r = p.release();
            obj* want = x.b < 0 ? nullptr : blocks[std::size_t(x.b)].p;
            VP_CHECK(r == want, "release() returns the pointer");
            if(x.own)
            {
                blocks[std::size_t(x.b)].external = true; // now ours
                c.tag("released an owned object");
            }
            x.b = -1;
            x.own = false;
            break;
        }
        case 6:
        case 7:
        {
            c.note(w + "swap(" + q + ")");
            p.swap(*v[j]);
            moved_owner |= x.own || m[j].own;
            std::swap(x, m[j]);
            break;
        }
        case 8:
        case 9:
        {
            if(refers_to_own(i, m[j].b) && s.draw(2))
                break;
            bool ctor = s.boolean();
            c.note(w + (ctor ? "move-construct from " : "= move of ") + q);
            slot from = m[j];
            if(refers_to_own(i, from.b))
                break;
            if(ctor)
            {
                v[i].reset();
                v[i].emplace(std::move(*v[j]));
            }
            else
            {
                P& r = (p = std::move(*v[j]));
                VP_CHECK(&r == &*v[i], "move assignment returns *this");
            }
            moved_owner |= from.own;
            model_drop(x);
            x = from;
            m[j].b = -1;
            m[j].own = false;
            break;
        }
        case 10:
        {
            if(refers_to_own(i, m[j].b))
                break;
            bool ctor = s.boolean();
            c.note(w + (ctor ? "copy-construct from " : "= copy of ") + q);
            int keep = ctor ? m[j].del : x.del;
            if(ctor)
            {
                v[i].reset();
                v[i].emplace(std::as_const(*v[j]));
            }
            else
            {
                P& r = (p = std::as_const(*v[j]));
                VP_CHECK(&r == &*v[i], "copy assignment returns *this");
            }
            model_drop(x);
            x = {m[j].b, false, keep};
            break;
        }
        case 11:
        {
            bool mv = s.boolean();
            c.note(w + (mv ? "= move of itself" : "= itself"));
            P& self = p;
            if(mv)
                p = std::move(self);
            else
                p = std::as_const(self);
            break;
        }
        case 12: // construct from a pointer
        {
            unsigned how = unsigned(s.draw(4)); // 3: null pointer with ownership
            bool own = s.boolean();
            int b = how == 3 ? -1 : make_block();
            obj* r = b < 0 ? nullptr : blocks[std::size_t(b)].p;
            c.note(w + "construct(" + (b < 0 ? "null" : "new") + ", " + (own ? "own)" : "not)"));
            v[i].reset();
            model_drop(x);
            if constexpr(!array)
            {
                if(how == 0)
                {
                    v[i].emplace(independent, r);
                    own = true;
                }
                else if(how == 1 && !own)
                    v[i].emplace(P::pointer_to(*r));
                else
                    v[i].emplace(r, own);
            }
            else
                v[i].emplace(r, own);
            if(b >= 0 && !own)
                blocks[std::size_t(b)].external = true;
            if constexpr(has_id)
                v[i]->get_deleter() = D{id, array};
            x = {b, own && b >= 0, has_id ? id : 0};
            break;
        }
        case 13:
        case 14: // take over a unique_ptr
        {
            bool null = s.chance(1, 5);
            bool ctor = s.boolean();
            int b = null ? -1 : make_block();
            c.note(w + (ctor ? "construct" : "reset") + std::string("(unique_ptr") + (null ? " null)" : ")"));
            std::unique_ptr<T, D> u(null ? nullptr : blocks[std::size_t(b)].p, make_deleter(id));
            int keep = x.del;
            if(ctor)
            {
                v[i].reset();
                v[i].emplace(std::move(u));
            }
            else
                p.reset(std::move(u));
            VP_CHECK(!u, "the unique_ptr was released");
            model_drop(x);
            x = {b, b >= 0, has_id ? (null && !ctor ? keep : id) : 0};
            break;
        }
        case 15:
            if constexpr(has_id)
            {
                c.note(w + "get_deleter() = " + std::to_string(id));
                p.get_deleter() = D{id, array};
                x.del = id;
            }
            break;
        default:
        {
            if constexpr(!has_id && !array)
            {
                c.note(w + "make_optional_unique");
                if constexpr(std::is_same_v<D, std::default_delete<T>>)
                {
                    v[i].reset();
                    model_drop(x);
                    int first = obj::next_serial;
                    v[i].emplace(make_optional_unique<T>(7));
                    blocks.push_back({v[i]->get(), first, 1});
                    VP_CHECK((*v[i])->v == 7, "make_optional_unique forwards its arguments");
                    x = {int(blocks.size()) - 1, true, 0};
                }
            }
            else if constexpr(!has_id && array)
            {
                int n = int(1 + s.draw(4));
                c.note(w + "make_optional_unique[" + std::to_string(n) + "]");
                v[i].reset();
                model_drop(x);
                int first = obj::next_serial;
                v[i].emplace(make_optional_unique<T>(std::size_t(n)));
                VP_CHECK(obj::next_serial == first + n, "make_optional_unique makes n objects");
                blocks.push_back({v[i]->get(), first, n});
                x = {int(blocks.size()) - 1, true, 0};
            }
            break;
        }
        }
        check("after the last step");
    }

    void finish()
    {
        for(std::size_t i = 0; i < 3; ++i)
        {
            v[i].reset();
            model_drop(m[i]);
            v[i].emplace();
        }
        check("after destruction");
        for(auto& b : blocks)
            if(!b.dead)
            {
                VP_CHECK(b.external, "an object that was handed over is still alive at the end");
                drop(b);
            }
        check("at the end");
        c.nontrivial_if(deleted && moved_owner);
        if(deleted)
            c.tag("deleted");
        if(moved_owner)
            c.tag("moved an owner");
    }
};

template <typename T, typename D>
void history(vp::source& s, vp::ctx& c)
{
    machine<T, D> m(s, c);
    std::size_t k = 1 + s.draw(20);
    while(k--)
        m.step();
    m.finish();
}

// ---- compressed_pair
int seen1, seen2;

struct empty1
{
    empty1() { seen1 = -1; }

    empty1(int x) { seen1 = x; }

    empty1(int x, int y) { seen1 = x * 100 + y; }

    empty1(const empty1&) = default;
    int tag() const { return 1; }
};

struct empty2
{
    empty2() { seen2 = -1; }

    empty2(const std::string& x) { seen2 = int(x.size()); }

    empty2(std::size_t x, char) { seen2 = int(x); }

    empty2(const empty2&) = default;
    int tag() const { return 2; }
};
} // namespace

VP_FACET(single_stateful, 100000, 3000000, "an owner was moved or swapped, and a deleter ran")
{
    history<obj, stateful>(s, c);
}

VP_FACET(single_default, 60000, 2000000, "an owner was moved or swapped, and a deleter ran")
{
    history<obj, std::default_delete<obj>>(s, c);
}

VP_FACET(single_stateless, 40000, 1000000, "an owner was moved or swapped, and a deleter ran")
{
    history<obj, stateless>(s, c);
}

VP_FACET(array_default, 60000, 2000000, "an owner was moved or swapped, and a deleter ran")
{
    history<obj[], std::default_delete<obj[]>>(s, c);
}

VP_FACET(array_stateful, 60000, 2000000, "an owner was moved or swapped, and a deleter ran")
{
    history<obj[], stateful>(s, c);
}

VP_FACET(compressed, 60000, 1000000, "values differ")
{
    int a = int(s.draw(90)), b = int(s.draw(90));
    std::string x(1 + s.draw(40), 'x'), y(1 + s.draw(40), 'y');
    unsigned how = unsigned(s.draw(4));
    c.note("how " + std::to_string(how) + " " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(x.size()) + " " + std::to_string(y.size()));
    c.nontrivial_if(a != b && x.size() != y.size());
    const int ca = a;
    const std::string cx = x;
    {
        using P = compressed_pair<int, std::string>;
        static_assert(sizeof(P) >= sizeof(int) + sizeof(std::string));
        P p = how == 0 ? P(ca, cx) : how == 1 ? P(a + 0, std::string(x)) :
                                 how == 2     ? P(std::piecewise_construct, std::forward_as_tuple(ca), std::forward_as_tuple(x.size(), 'x')) :
                                                P(std::piecewise_construct, std::make_tuple(), std::forward_as_tuple(std::string(x)));
        int wa = how == 3 ? 0 : a;
        VP_CHECK(p.first() == wa && p.second() == x && get<0>(p) == wa && get<1>(p) == x, "pair");
        P q(b, y), r(q), t(std::move(r));
        VP_CHECK(t.first() == b && t.second() == y && q.second() == y, "copies");
        p.swap(q);
        VP_CHECK(p.first() == b && p.second() == y && q.first() == wa && q.second() == x, "swap");
        auto& [f, g] = p;
        f = a;
        g = cx;
        VP_CHECK(std::as_const(p).first() == a && get<1>(std::as_const(p)) == x, "structured binding");
    }
    {
        using P = compressed_pair<empty1, std::string>;
        static_assert(sizeof(P) == sizeof(std::string));
        seen1 = -2;
        P p = how == 0 ? P(empty1(ca), cx) : how == 1 ? P(ca, x.c_str()) :
                                  how == 2       ? P(std::piecewise_construct, std::forward_as_tuple(a, b), std::forward_as_tuple(std::string(x))) :
                                                   P(std::piecewise_construct, std::forward_as_tuple(), std::forward_as_tuple(x.size(), 'x'));
        int want = how == 2 ? a * 100 + b : how == 3 ? -1 :
                                                       a;
        VP_CHECK(seen1 == want && p.second() == x && p.first().tag() == 1, "empty first");
        P q(empty1(), y);
        p.swap(q);
        VP_CHECK(p.second() == y && get<1>(q) == x && get<0>(q).tag() == 1, "swap, empty first");
    }
    {
        using P = compressed_pair<std::string, empty2>;
        static_assert(sizeof(P) == sizeof(std::string));
        seen2 = -2;
        P p = how == 0 ? P(cx, empty2(y)) : how == 1 ? P(x.c_str(), std::string(y)) :
                                  how == 2       ? P(std::piecewise_construct, std::forward_as_tuple(x.size(), 'x'), std::forward_as_tuple(y.size(), 'y')) :
                                                   P(std::piecewise_construct, std::forward_as_tuple(x), std::forward_as_tuple());
        VP_CHECK(seen2 == (how == 3 ? -1 : int(y.size())) && p.first() == x && p.second().tag() == 2, "empty second");
        P q(y, empty2());
        p.swap(q);
        VP_CHECK(p.first() == y && get<0>(q) == x && get<1>(q).tag() == 2, "swap, empty second");
    }
    {
        using P = compressed_pair<empty1, empty2>;
        static_assert(sizeof(P) == 1);
        seen1 = seen2 = -2;
        P p = how == 0 ? P(empty1(a), empty2(y)) : how == 1 ? P(ca, std::string(y)) :
                                        how == 2        ? P(std::piecewise_construct, std::forward_as_tuple(a, b), std::forward_as_tuple(y.size(), 'y')) :
                                                          P(std::piecewise_construct, std::forward_as_tuple(), std::forward_as_tuple());
        VP_CHECK(seen1 == (how == 2 ? a * 100 + b : how == 3 ? -1 :
                                                               a) &&
                     seen2 == (how == 3 ? -1 : int(y.size())),
                 "both empty");
        VP_CHECK(get<0>(p).tag() == 1 && get<1>(p).tag() == 2, "both empty");
    }
    {
        using P = compressed_pair<empty1, empty1>;
        seen1 = -2;
        P p(a, b);
        VP_CHECK(seen1 == b && p.first().tag() == 1 && p.second().tag() == 1, "same empty type");
        VP_CHECK((const void*)&p.first() != (const void*)&p.second(), "two objects of one type have two addresses");
    }
}
