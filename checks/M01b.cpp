// M01 - destroying an object that comes back to the pointers: still exactly once
#include "vpbt.hpp"
#include <memory>
#include <papilio/memory.hpp>
#include <papilio/utility.hpp>

using namespace papilio;

namespace
{
struct node;
using sptr = optional_unique_ptr<node>;
using aptr = optional_unique_ptr<node[]>;

template <typename P>
struct world
{
    static inline P* p = nullptr; // the pointers
};

struct node
{
    int serial = -1, target = -1; // the destructor resets pointer `target`
    bool array = false;
    static inline std::vector<int>* destroyed = nullptr;

    ~node();
};

node::~node()
{
    if(serial < 0)
        return;
    ++(*destroyed)[std::size_t(serial)];
    if(target >= 0)
    {
        if(array)
            world<aptr>::p[target].reset();
        else
            world<sptr>::p[target].reset();
    }
}

template <typename P>
void history(vp::source& s, vp::ctx& c)
{
    constexpr bool array = std::is_same_v<P, aptr>;
    std::vector<int> destroyed, model, targets;
    node::destroyed = &destroyed;
    struct slot
    {
        int serial = -1; // -1: none
        bool own = false;
    };
    slot m[3];
    auto drop = [&](auto&& self, int i) -> void
    {
        slot o = m[i];
        m[i] = {};
        if(o.serial >= 0 && o.own)
        {
            ++model[std::size_t(o.serial)];
            int t = targets[std::size_t(o.serial)];
            if(t >= 0)
            {
                if(m[t].serial >= 0 && m[t].own)
                    c.nontrivial();
                self(self, t);
            }
        }
    };
    {
        P p[3];
        world<P>::p = p;
        std::size_t steps = 1 + s.draw(12);
        while(steps--)
        {
            int i = int(s.draw(3)), j = int(s.draw(3));
            switch(s.draw(5))
            {
            case 0:
            case 1:
            {
                node* n = array ? new node[1]() : new node();
                n->serial = int(model.size());
                n->target = int(s.draw(4)) - 1;
                n->array = array;
                model.push_back(0);
                destroyed.push_back(0);
                targets.push_back(n->target);
                c.note("p" + std::to_string(i) + " owns #" + std::to_string(n->serial) + " resetting " + std::to_string(n->target));
                int serial = n->serial;
                if(s.boolean())
                    p[i].reset(n, true);
                else if constexpr(array)
                    p[i].reset(std::unique_ptr<node[]>(n));
                else
                    p[i].reset(std::unique_ptr<node>(n));
                drop(drop, i);
                m[i] = {serial, true};
                break;
            }
            case 2:
                c.note("p" + std::to_string(i) + ".reset");
                if(s.boolean())
                    p[i].reset();
                else
                    p[i].reset(nullptr);
                drop(drop, i);
                break;
            case 3:
                c.note("p" + std::to_string(i) + " = move p" + std::to_string(j));
                p[i] = std::move(p[j]);
                if(i != j)
                {
                    drop(drop, i);
                    m[i] = m[j];
                    m[j] = {};
                }
                break;
            default:
            {
                c.note("p" + std::to_string(i) + ".swap p" + std::to_string(j));
                p[i].swap(p[j]);
                std::swap(m[i], m[j]);
                break;
            }
            }
            VP_CHECK(destroyed == model, "objects destroyed");
            for(int k = 0; k < 3; ++k)
            {
                VP_CHECK(p[k].has_ownership() == m[k].own && (p[k].get() != nullptr) == (m[k].serial >= 0), "p" + std::to_string(k));
                if(p[k])
                    VP_CHECK(p[k].get()->serial == m[k].serial, "p" + std::to_string(k));
            }
        }
        for(int k = 0; k < 3; ++k)
        {
            p[k].reset();
            drop(drop, k);
        }
    }
    for(int d : destroyed)
        VP_CHECK(d == 1, "an object was destroyed " + std::to_string(d) + " times");
}
} // namespace

VP_FACET(coming_back, 40000, 1000000, "the destruction of an object destroyed another one")
{
    if(s.boolean())
        history<sptr>(s, c);
    else
        history<aptr>(s, c);
}

VP_KNOWN(reset_while_resetting)
{
    // the destructor of the object resets the pointer that is being reset
    std::vector<int> destroyed{0};
    node::destroyed = &destroyed;
    sptr p[3];
    world<sptr>::p = p;
    node* n = new node();
    n->serial = 0;
    n->target = 1;
    p[1].reset(n, true);
    p[1].reset();
    VP_CHECK(destroyed[0] == 1 && !p[1], "");
}
