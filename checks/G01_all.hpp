// G01 - captured arguments stay faithful through copies and moves
//
// A pool of arguments goes through a random history of captures, copies, moves, swaps,
// assignments and destructions, together with the objects they were captured from, argument
// lists and handles. A model knows for each argument what it holds and whose memory it relies
// on; everything that is still valid by the model is read back in every way there is.
#ifndef G01_ALL_HPP
#define G01_ALL_HPP
#define FM_XCHAR
#include "genfmt.hpp"
#include "tracked.hpp"
#include <papilio/papilio.hpp>
#include <map>
#include <memory>
#include <optional>
#include <typeinfo>
#include <typeindex>
#include <vector>

#define RULE_G01 "an argument was read back after it was copied, moved, swapped or assigned, or after its original was gone, at least 3 times"

namespace g01
{
using namespace papilio;
using um::text;

// ---- values of user types; every one knows whether it is alive
// small, copied into the argument
struct tiny : tr::elem
{
    using base = tr::elem;
    using base::base;

    tiny(const tiny& o) noexcept
        : base(static_cast<const base&>(o))
    {}

    tiny(tiny&&) noexcept = default;
    tiny& operator=(const tiny&) = default;
    tiny& operator=(tiny&&) = default;
};

// as large as fits into the argument, with the strictest alignment
struct alignas(16) snug
{
    tr::elem e;

    explicit snug(int v)
        : e(v) {}

    snug(const snug& o) noexcept
        : e(o.e) {}

    snug(snug&&) noexcept = default;
    snug& operator=(const snug&) = default;
};

// too large for the argument
struct big
{
    tr::elem e;
    char pad[64] = {};
    std::string more = "the text of a big object";

    explicit big(int v)
        : e(v) {}
};

// small, but its copies may fail
struct shy
{
    tr::elem e;

    explicit shy(int v)
        : e(v) {}

    shy(const shy& o) noexcept(false)
        : e(o.e) {}

    shy(shy&& o) noexcept
        : e(std::move(o.e)) {}

    shy& operator=(const shy&) = default;
};

// cannot be copied
struct lone
{
    tr::elem e;
    std::unique_ptr<int> p;

    explicit lone(int v)
        : e(v), p(new int(v)) {}

    lone(lone&&) noexcept = default;
};

inline int value_of(const tiny& x) { return x.alive(), x.v; }

inline int value_of(const snug& x) { return x.e.alive(), x.e.v; }

inline int value_of(const big& x)
{
    x.e.alive();
    if(x.more != "the text of a big object")
        vp::fail("a large value was damaged");
    return x.e.v;
}

inline int value_of(const shy& x) { return x.e.alive(), x.e.v; }

inline int value_of(const lone& x)
{
    x.e.alive();
    if(!x.p || *x.p != x.e.v)
        vp::fail("a value that cannot be copied was damaged");
    return x.e.v;
}

template <typename T>
concept user = std::is_same_v<T, tiny> || std::is_same_v<T, snug> || std::is_same_v<T, big> || std::is_same_v<T, shy> || std::is_same_v<T, lone>;

template <user T>
constexpr char letter_of = std::is_same_v<T, tiny> ? 't' : std::is_same_v<T, snug> ? 's' :
                       std::is_same_v<T, big>    ? 'b' :
                       std::is_same_v<T, shy>    ? 'y' :
                                                   'l';
} // namespace g01

template <g01::user T, typename CharT>
struct papilio::formatter<T, CharT>
{
    template <typename ParseContext>
    auto parse(ParseContext& ctx)
    {
        return ctx.begin();
    }

    template <typename Context>
    auto format(const T& x, Context& ctx) const
    {
        using traits = papilio::format_context_traits<Context>;
        traits::append(ctx, static_cast<CharT>(g01::letter_of<T>));
        for(char ch : std::to_string(g01::value_of(x)))
            traits::append(ctx, static_cast<CharT>(ch));
        return ctx.out();
    }
};

template <g01::user T, typename Context>
struct papilio::accessor<T, Context>
{
    using arg = papilio::basic_format_arg<Context>;
    using char_type = typename Context::char_type;

    // the value itself
    static arg index(const T& x, papilio::ssize_t i)
    {
        g01::value_of(x);
        return i == 0 ? arg(x) : arg();
    }

    // its number
    static arg attribute(const T& x, const papilio::basic_attribute_name<char_type>& a)
    {
        if(a == PAPILIO_TSTRING_VIEW(char_type, "num"))
            return g01::value_of(x);
        papilio::throw_invalid_attribute(a);
    }
};

namespace g01
{
enum class kind
{
    none,
    boolean,
    character,
    i,
    u,
    ll,
    ull,
    f,
    d,
    ld,
    string,
    pointer,
    tiny_,
    snug_,
    big_,
    shy_,
    lone_,
    array,
    vec,
    count
};

inline const char* name_of(kind k)
{
    static const char* const names[] = {"none", "bool", "char", "int", "unsigned", "llong", "ullong", "float", "double", "ldouble", "string", "pointer", "tiny", "snug", "big", "shy", "lone", "array", "vector"};
    return names[static_cast<int>(k)];
}

// memory somebody relies on
struct stor
{
    bool alive = true;
    bool sliced = false; // somebody relies on a part
};

using pstor = std::shared_ptr<stor>;

// a value; arguments that refer to the same object share it
struct cell
{
    kind k = kind::none;
    long long num = 0;     // everything but strings and floating points
    long double flt = 0;
    text str;
    std::vector<int> nums; // array, vector
};

using pcell = std::shared_ptr<cell>;

struct model
{
    pcell c = std::make_shared<cell>();
    pstor own;             // memory that lives in the argument or belongs to it
    bool in_place = false; // ... and moves with the argument
    pstor dep;             // memory that belongs to somebody else

    bool readable() const { return !dep || dep->alive; }

    kind k() const { return c->k; }

    void end()
    {
        if(own)
            own->alive = false;
    }
};

inline bool scalar(kind k) { return k < kind::string || k == kind::pointer; }

inline bool inside(kind k) { return k == kind::tiny_ || k == kind::snug_ || k == kind::array; }

// what a copy of an argument is; owns tells what the copy says of itself
inline model copied(const model& m, bool owns)
{
    model r;
    r.c = m.c;
    if(scalar(m.k()))
        return r;
    if(inside(m.k()))
    {
        // the value was copied, but what an array holds is elsewhere
        if(m.k() != kind::array)
            r.c = std::make_shared<cell>(*m.c);
        r.dep = m.k() == kind::array ? m.dep : nullptr;
        r.own = std::make_shared<stor>();
        r.in_place = true;
        return r;
    }
    if(owns)
    {
        r.c = std::make_shared<cell>(*m.c);
        r.own = std::make_shared<stor>();
        r.in_place = m.k() == kind::string;
        return r;
    }
    r.dep = m.own ? m.own : m.dep;
    return r;
}

// what is left, and what the new argument is
inline model moved(model& m)
{
    model r = m;
    if(m.own && m.in_place)
    {
        m.own->alive = false;
        r.own = std::make_shared<stor>();
    }
    m = model();
    return r;
}

// an element of a list moves when the list grows
inline void relocated(model& m)
{
    if(m.own && m.in_place)
    {
        m.own->alive = false;
        m.own = std::make_shared<stor>();
    }
}

// an object that arguments are captured from
template <typename CharT>
struct origin
{
    pcell c = std::make_shared<cell>();
    pstor st = std::make_shared<stor>();

    std::unique_ptr<std::basic_string<CharT>> s;
    std::unique_ptr<tiny> t;
    std::unique_ptr<snug> g;
    std::unique_ptr<big> b;
    std::unique_ptr<shy> y;
    std::unique_ptr<lone> l;
    std::unique_ptr<int[]> plain; // 3 elements
    std::unique_ptr<std::array<int, 3>> arr;
    std::unique_ptr<std::vector<int>> v;

    origin(origin&&) = default;
    origin& operator=(origin&&) = default;

    origin(vp::source& src, kind k)
    {
        c->k = k;
        c->num = static_cast<long long>(src.draw(1000));
        int n = static_cast<int>(c->num);
        switch(k)
        {
        case kind::string:
            c->str = um::gen_text(src, src.boolean() ? 4 : 30);
            s.reset(new std::basic_string<CharT>(um::enc<CharT>(c->str)));
            break;
        case kind::tiny_: t.reset(new tiny(n)); break;
        case kind::snug_: g.reset(new snug(n)); break;
        case kind::big_: b.reset(new big(n)); break;
        case kind::shy_: y.reset(new shy(n)); break;
        case kind::lone_: l.reset(new lone(n)); break;
        case kind::array:
            c->nums = {n, n + 1, n + 2};
            plain.reset(new int[3]{n, n + 1, n + 2});
            arr.reset(new std::array<int, 3>{n, n + 1, n + 2});
            break;
        default:
            c->nums = {n, n + 1};
            v.reset(new std::vector<int>(c->nums));
            break;
        }
    }

    ~origin()
    {
        if(st)
            st->alive = false;
    }

    // false if it now lies elsewhere
    void modify(vp::source& src)
    {
        int n = static_cast<int>(src.draw(1000));
        switch(c->k)
        {
        case kind::string:
            if(src.boolean() && !c->str.empty() && !st->sliced)
            {
                // in place
                std::size_t at = src.size(c->str.size() - 1);
                if(c->str[at] < 0x80)
                {
                    text before(c->str.begin(), c->str.begin() + static_cast<long>(at));
                    c->str[at] = U'a' + static_cast<char32_t>(n % 26);
                    (*s)[um::enc<CharT>(before).size()] = static_cast<CharT>(c->str[at]);
                    break;
                }
            }
            // somewhere else
            st->alive = false;
            st = std::make_shared<stor>();
            c = std::make_shared<cell>(*c);
            c->str = um::gen_text(src, 30);
            *s = um::enc<CharT>(c->str);
            s->shrink_to_fit();
            break;
        case kind::tiny_: t->v = n; break;
        case kind::snug_: g->e.v = n; break;
        case kind::big_: b->e.v = n; break;
        case kind::shy_: y->e.v = n; break;
        case kind::lone_: l->e.v = n, *l->p = n; break;
        case kind::array:
            c->nums[1] = n;
            plain[1] = n;
            (*arr)[1] = n;
            break;
        default:
            v->push_back(n);
            c->nums.push_back(n);
            break;
        }
        c->num = n;
    }
};

template <typename CharT>
struct world
{
    using context = basic_format_context<format_iterator_for<CharT>, CharT>;
    using arg = basic_format_arg<context>;
    using handle = typename arg::handle;
    using list = basic_dynamic_format_args<context, CharT>;
    using ref = basic_format_args_ref<context, CharT>;
    using sview = std::basic_string_view<CharT>;
    using string = std::basic_string<CharT>;
    using container = utf::basic_string_container<CharT>;

    static constexpr std::size_t N = 6;

    vp::source& s;
    vp::ctx* log; // null when the history is repeated
    std::optional<arg> a[N];
    model m[N];
    std::vector<origin<CharT>> from;
    int reads = 0, later = 0;
    bool stirred = false;
    int static_things[4] = {};

    struct mlist
    {
        std::vector<model> indexed;
        std::map<std::string, model> named;

        void end()
        {
            for(auto& x : indexed)
                x.end();
            for(auto& x : named)
                x.second.end();
            indexed.clear();
            named.clear();
        }
    };

    std::optional<list> lists[2];
    mlist ml[2];

    world(vp::source& src, vp::ctx* lg)
        : s(src), log(lg)
    {
        from.reserve(16);
    }

    ~world()
    {
        // in any order
        for(auto& x : lists)
            x.reset();
        if(s.boolean())
            from.clear();
        for(auto& x : a)
            x.reset();
    }

    void say(const std::string& x)
    {
        if(log)
            log->note(x);
    }

    // ---- what it should look like
    static std::string out_of(const cell& c)
    {
        std::string r;
        switch(c.k)
        {
        case kind::none: break;
        case kind::boolean: r = c.num ? "true" : "false"; break;
        case kind::character: r = um::enc<char>(text(1, static_cast<char32_t>(c.num))); break;
        case kind::ull: r = std::to_string(static_cast<unsigned long long>(c.num)); break;
        case kind::i:
        case kind::u:
        case kind::ll: r = std::to_string(c.num); break;
        case kind::f:
        case kind::d:
        case kind::ld:
        {
            char b[64];
            std::snprintf(b, sizeof b, "%.1Lf", c.flt);
            r = b;
            break;
        }
        case kind::string: r = um::enc<char>(c.str); break;
        case kind::pointer:
        {
            char b[64];
            std::snprintf(b, sizeof b, "0x%llx", static_cast<unsigned long long>(c.num));
            r = b;
            break;
        }
        case kind::tiny_: r = "t" + std::to_string(c.num); break;
        case kind::snug_: r = "s" + std::to_string(c.num); break;
        case kind::big_: r = "b" + std::to_string(c.num); break;
        case kind::shy_: r = "y" + std::to_string(c.num); break;
        case kind::lone_: r = "l" + std::to_string(c.num); break;
        default:
            r = "[";
            for(std::size_t i = 0; i < c.nums.size(); ++i)
                r += (i ? ", " : "") + std::to_string(c.nums[i]);
            r += "]";
            break;
        }
        return r;
    }

    static string recoded(const std::string& utf8)
    {
        text t;
        um::dec(std::string_view(utf8), t);
        return um::enc<CharT>(t);
    }

    static const std::type_info& type_of(kind k)
    {
        switch(k)
        {
        case kind::none: return typeid(std::monostate);
        case kind::boolean: return typeid(bool);
        case kind::character: return typeid(utf::codepoint);
        case kind::i: return typeid(int);
        case kind::u: return typeid(unsigned int);
        case kind::ll: return typeid(long long);
        case kind::ull: return typeid(unsigned long long);
        case kind::f: return typeid(float);
        case kind::d: return typeid(double);
        case kind::ld: return typeid(long double);
        case kind::string: return typeid(container);
        case kind::pointer: return typeid(const void*);
        default: return typeid(handle);
        }
    }

    template <typename F>
    static bool refused(F f)
    {
        try
        {
            (void)f();
        }
        catch(const std::bad_variant_access&)
        {
            return true;
        }
        catch(const bad_handle_cast&)
        {
            return true;
        }
        return false;
    }

    // is asked for a type it does not hold, sometimes
    void wrong(const arg& x, const model& mo)
    {
        kind k = mo.k();
        auto ask = [&](kind as, auto f)
        {
            if(as != k)
                VP_CHECK(refused(f), std::string("a ") + name_of(k) + " argument was handed out as " + name_of(as));
        };
        switch(s.draw(8))
        {
        case 0: ask(kind::i, [&] { return get<short>(x); }); break;
        case 1: ask(kind::string, [&] { return get<sview>(x).size(); }); break;
        case 2: ask(kind::tiny_, [&] { return value_of(get<tiny>(x)); }); break;
        case 3: ask(kind::big_, [&] { return value_of(get<big>(x)); }); break;
        case 4: ask(kind::shy_, [&] { return value_of(get<shy>(x)); }); break;
        case 5: ask(kind::d, [&] { return get<double>(x); }); break;
        case 6: ask(kind::vec, [&] { return get<std::vector<int>>(x).size(); }); break;
        default: ask(kind::pointer, [&] { return get<void*>(x); }); break;
        }
    }

    template <typename T>
    static void same_handle(const arg& x, int want, const std::string& what)
    {
        const handle& h = std::get<handle>(x.to_variant());
        VP_CHECK(h.type() == typeid(T), what + ": another type");
        VP_CHECK(h.is_formattable(), what + ": cannot be formatted");
        const T* p = handle_cast<T>(&h);
        VP_CHECK(p && value_of(*p) == want, what + ": handle_cast gives " + (p ? std::to_string(value_of(*p)) : "nothing") + ", captured " + std::to_string(want));
        VP_CHECK(&get<T>(x) == p && &handle_cast<const T>(h) == p, what + ": refers to several objects");
    }

    static string vf(sview fmt, ref r)
    {
        return PAPILIO_NS vformat(fmt, r);
    }

    void read(const arg& x, const model& mo, const std::string& what)
    {
        // whatever happened to it, it can be asked what it holds
        const cell& c = *mo.c;
        const std::type_info& ty = x.visit([]<typename T>(const T&) -> const std::type_info&
                                           { return typeid(T); });
        VP_CHECK(ty == type_of(c.k), what + ": holds " + ty.name() + ", captured as " + name_of(c.k));
        VP_CHECK(x.empty() == (c.k == kind::none) && static_cast<bool>(x) == !x.empty(), what + ": is empty or not, wrongly");
        VP_CHECK(x.template holds<int>() == (c.k == kind::i) && x.template holds<container>() == (c.k == kind::string) && x.template holds<handle>() == (c.k > kind::pointer), what + ": holds() is wrong");
        if(!mo.readable())
            return;
        ++reads;
        if(stirred)
            ++later;
        switch(c.k)
        {
        case kind::none: break;
        case kind::boolean: VP_CHECK(get<bool>(x) == (c.num != 0), what + ": another value"); break;
        case kind::character: VP_CHECK(get<char>(x) == utf::codepoint(static_cast<char32_t>(c.num)), what + ": another value"); break;
        case kind::i: VP_CHECK(get<int>(x) == c.num, what + ": another value"); break;
        case kind::u: VP_CHECK(get<unsigned>(x) == c.num, what + ": another value"); break;
        case kind::ll: VP_CHECK(get<long long>(x) == c.num, what + ": another value"); break;
        case kind::ull: VP_CHECK(get<unsigned long long>(x) == static_cast<unsigned long long>(c.num), what + ": another value"); break;
        case kind::f: VP_CHECK(get<float>(x) == static_cast<float>(c.flt), what + ": another value"); break;
        case kind::d: VP_CHECK(get<double>(x) == static_cast<double>(c.flt), what + ": another value"); break;
        case kind::ld: VP_CHECK(get<long double>(x) == c.flt, what + ": another value"); break;
        case kind::string:
        {
            const container& sc = get<string>(x);
            VP_CHECK(string(sview(sc)) == um::enc<CharT>(c.str), what + ": another text, " + vp::quote(string(sview(sc))) + ", captured " + vp::quote(um::enc<CharT>(c.str)));
            break;
        }
        case kind::pointer: VP_CHECK(get<const void*>(x) == reinterpret_cast<const void*>(static_cast<std::uintptr_t>(c.num)), what + ": another value"); break;
        case kind::tiny_: same_handle<tiny>(x, static_cast<int>(c.num), what); break;
        case kind::snug_: same_handle<snug>(x, static_cast<int>(c.num), what); break;
        case kind::big_: same_handle<big>(x, static_cast<int>(c.num), what); break;
        case kind::shy_: same_handle<shy>(x, static_cast<int>(c.num), what); break;
        case kind::lone_: same_handle<lone>(x, static_cast<int>(c.num), what); break;
        case kind::array:
        {
            std::span<const int> sp = get<std::span<const int>>(x);
            VP_CHECK(std::vector<int>(sp.begin(), sp.end()) == c.nums, what + ": another array");
            break;
        }
        default: VP_CHECK(get<std::vector<int>>(x) == c.nums, what + ": another vector"); break;
        }
        if(c.k != kind::none)
            VP_CHECK(x.is_formattable(), what + ": cannot be formatted");
        if(s.chance(1, 4))
            wrong(x, mo);
    }

    // through a formatting call
    void put_out(const list& l, const mlist& mo, const std::string& what)
    {
        string fmt;
        std::string want;
        ref r(l);
        VP_CHECK(l.indexed_size() == mo.indexed.size() && l.named_size() == mo.named.size(), what + ": another number of arguments");
        auto field = [&](const std::string& id, const model& x)
        {
            bool fl = x.k() == kind::f || x.k() == kind::d || x.k() == kind::ld;
            if(!x.readable() || x.k() == kind::none)
                return;
            for(char ch : "{" + id + (fl ? ":.1f}" : "}") + ";")
                fmt += static_cast<CharT>(ch);
            want += out_of(*x.c) + ";";
        };
        for(std::size_t i = 0; i < mo.indexed.size(); ++i)
        {
            read(l.get(i), mo.indexed[i], what + "[" + std::to_string(i) + "]");
            VP_CHECK(&r.get(i) == &l.get(i), what + ": the reference to the list gives another argument");
            field(std::to_string(i), mo.indexed[i]);
        }
        for(auto& [k, x] : mo.named)
        {
            string key(k.begin(), k.end());
            VP_CHECK(l.contains(key), what + ": has lost " + k);
            read(l.get(key), x, what + "[" + k + "]");
            field(k, x);
        }
        if(!fmt.empty())
            VP_CHECK(vf(fmt, r) == recoded(want), what + ": formats as " + vp::quote(vf(fmt, r)) + ", expected " + vp::quote(want));
    }

    // ---- new arguments
    arg fresh(model& mo, std::string& how)
    {
        mo = model();
        cell& c = *mo.c;
        kind k = static_cast<kind>(s.draw(static_cast<std::uint64_t>(kind::pointer) + 1));
        c.k = k;
        how = name_of(k);
        switch(k)
        {
        case kind::none: return arg();
        case kind::boolean:
            c.num = s.boolean();
            return arg(c.num != 0);
        case kind::character:
            switch(s.draw(3))
            {
            case 0:
                c.num = static_cast<long long>(um::gen_scalar(s));
                return arg(utf::codepoint(static_cast<char32_t>(c.num)));
            case 1:
                c.num = static_cast<long long>(s.draw(0x80));
                return arg(static_cast<char>(c.num));
            default:
                c.num = static_cast<long long>(um::gen_scalar(s));
                return arg(static_cast<char32_t>(c.num));
            }
        case kind::i:
            switch(s.draw(4))
            {
            case 0:
                c.num = fm::gen_int<int>(s);
                return arg(static_cast<int>(c.num));
            case 1:
                c.num = fm::gen_int<short>(s);
                return arg(static_cast<short>(c.num));
            case 2:
                c.num = fm::gen_int<unsigned char>(s);
                c.k = kind::u;
                return arg(static_cast<unsigned char>(c.num));
            default:
                c.num = fm::gen_int<signed char>(s);
                return arg(static_cast<signed char>(c.num));
            }
        case kind::u:
            if(s.boolean())
            {
                c.num = fm::gen_int<unsigned short>(s);
                return arg(static_cast<unsigned short>(c.num));
            }
            c.num = fm::gen_int<unsigned>(s);
            return arg(static_cast<unsigned>(c.num));
        case kind::ll:
            c.num = fm::gen_int<long long>(s);
            if(s.boolean())
                return arg(static_cast<long>(c.num));
            return arg(c.num);
        case kind::ull:
            c.num = static_cast<long long>(fm::gen_int<unsigned long long>(s));
            if(s.boolean())
                return arg(static_cast<unsigned long>(c.num));
            return arg(static_cast<unsigned long long>(c.num));
        case kind::f:
            c.flt = static_cast<long double>(s.range(-2000, 2000)) / 2;
            return arg(static_cast<float>(c.flt));
        case kind::d:
            c.flt = static_cast<long double>(s.range(-2000, 2000)) / 2;
            return arg(static_cast<double>(c.flt));
        case kind::ld:
            c.flt = static_cast<long double>(s.range(-2000, 2000)) / 2;
            return arg(c.flt);
        case kind::string:
        {
            c.str = um::gen_text(s, s.boolean() ? 4 : 30);
            string tmp = um::enc<CharT>(c.str);
            mo.own = std::make_shared<stor>();
            mo.in_place = true;
            switch(s.draw(6))
            {
            case 0: how += " from a temporary"; return arg(string(tmp));
            case 1: how += " independent of a string"; return arg(independent, static_cast<const string&>(tmp));
            case 2: how += " independent of a temporary"; return arg(independent, string(tmp));
            case 3: how += " independent of a container"; return arg(container(independent, tmp));
            case 4: how += " independent of a view"; return arg(container(independent, container(sview(tmp))));
            default:
                how += " that never goes away";
                mo.own = nullptr;
                mo.in_place = false;
                c.str = U"static";
                return arg(PAPILIO_TSTRING_VIEW(CharT, "static"));
            }
        }
        default:
            c.k = kind::pointer;
            c.num = static_cast<long long>(s.draw(2) ? s.draw(1ull << 47) : 0);
            if(c.num == 0 && s.boolean())
                return arg(nullptr);
            switch(s.draw(3))
            {
            case 0: return arg(reinterpret_cast<int*>(static_cast<std::uintptr_t>(c.num)));
            case 1: return arg(reinterpret_cast<const double*>(static_cast<std::uintptr_t>(c.num)));
            default: return arg(reinterpret_cast<const void*>(static_cast<std::uintptr_t>(c.num)));
            }
        }
    }

    template <typename T>
    arg hold(std::unique_ptr<T>& p, std::uint64_t way, std::string& how)
    {
        switch(way)
        {
        case 0: return arg(*p);
        case 1: return arg(std::as_const(*p));
        case 2: how += ", independent"; return arg(independent, *p);
        case 3: how += ", independent of a temporary"; return arg(independent, T(*p));
        default: how += ", independent of a constant"; return arg(independent, std::as_const(*p));
        }
    }

    // captured from an object; may use the object up
    arg captured(std::size_t at, model& mo, std::string& how)
    {
        origin<CharT>& o = from[at];
        kind k = o.c->k;
        mo = model();
        how = std::string(name_of(k)) + " of object " + std::to_string(at);
        std::uint64_t way = s.draw(5);
        bool own = way >= 2;
        if(k == kind::array)
        {
            mo.c = o.c;
            mo.dep = o.st;
            mo.own = std::make_shared<stor>();
            mo.in_place = true;
            if(s.boolean())
                return arg(*o.arr);
            int(&r)[3] = *reinterpret_cast<int(*)[3]>(o.plain.get());
            return arg(r);
        }
        if(k == kind::lone_)
        {
            if(!own)
            {
                mo.c = o.c;
                mo.dep = o.st;
                return arg(*o.l);
            }
            how += ", moved in";
            mo.c = std::make_shared<cell>(*o.c);
            mo.own = std::make_shared<stor>();
            arg r(independent, std::move(*o.l));
            o.st->alive = false;
            o = origin<CharT>(s, kind::lone_);
            return r;
        }
        if(own || inside(k))
        {
            mo.c = std::make_shared<cell>(*o.c);
            mo.own = std::make_shared<stor>();
            mo.in_place = inside(k) || k == kind::string;
        }
        else
        {
            mo.c = o.c;
            mo.dep = o.st;
        }
        switch(k)
        {
        case kind::string:
            switch(way)
            {
            case 0: return arg(*o.s);
            case 1:
                if(s.boolean())
                    return arg(sview(*o.s));
                return arg(container(sview(*o.s)));
            case 2: how += ", independent"; return arg(independent, *o.s);
            case 3: how += ", a temporary copy"; return arg(string(*o.s));
            default: how += ", independent of a constant"; return arg(independent, std::as_const(*o.s));
            }
        case kind::tiny_: return hold(o.t, way, how);
        case kind::snug_: return hold(o.g, way, how);
        case kind::big_: return hold(o.b, way, how);
        case kind::shy_: return hold(o.y, way, how);
        default: return hold(o.v, way, how);
        }
    }

    arg anything(model& mo, std::string& how)
    {
        if(from.empty() || s.chance(1, 3))
            return fresh(mo, how);
        return captured(s.size(from.size() - 1), mo, how);
    }

    // a part of a readable argument
    arg part(const arg& x, const model& mo, model& r, std::string& how)
    {
        r = model();
        pstor base = mo.own ? mo.own : mo.dep;
        switch(mo.k())
        {
        case kind::string:
            if(s.boolean() || mo.c->str.empty())
            {
                how = "length";
                r.c->k = kind::ull;
                r.c->num = static_cast<long long>(mo.c->str.size());
                arg y = x.attribute(PAPILIO_TSTRING_VIEW(CharT, "length"));
                // the type is no concern of this property
                long long got = y.visit([]<typename T>(const T& v) -> long long
                                        {
                    if constexpr(std::is_integral_v<T>)
                        return static_cast<long long>(v);
                    else
                        return -1; });
                VP_CHECK(got == r.c->num, "a captured text has length " + std::to_string(got) + ", expected " + std::to_string(r.c->num));
                r.c->k = kind::none;
                return arg();
            }
            if(s.boolean())
            {
                how = "character";
                std::size_t i = s.size(mo.c->str.size() - 1);
                r.c->k = kind::character;
                r.c->num = static_cast<long long>(mo.c->str[i]);
                return x.index(static_cast<papilio::ssize_t>(i));
            }
            else
            {
                how = "slice";
                std::size_t i = s.size(mo.c->str.size()), j = i + s.size(mo.c->str.size() - i);
                r.c->k = kind::string;
                r.c->str = mo.c->str.substr(i, j - i);
                arg y = x.index(index_range(static_cast<papilio::ssize_t>(i), static_cast<papilio::ssize_t>(j)));
                if(y.has_ownership())
                {
                    r.own = std::make_shared<stor>();
                    r.in_place = true;
                }
                else
                {
                    r.dep = base;
                    if(base)
                        base->sliced = true;
                }
                return y;
            }
        case kind::tiny_:
        case kind::snug_:
        case kind::big_:
        case kind::shy_:
        case kind::lone_:
            if(s.boolean())
            {
                how = "number";
                r.c->k = kind::i;
                r.c->num = mo.c->num;
                return x.attribute(PAPILIO_TSTRING_VIEW(CharT, "num"));
            }
            how = "whole";
            if(inside(mo.k()))
            {
                r.c = std::make_shared<cell>(*mo.c);
                r.own = std::make_shared<stor>();
                r.in_place = true;
            }
            else
            {
                r.c = mo.c;
                r.dep = base;
            }
            return x.index(papilio::ssize_t(0));
        case kind::array:
        case kind::vec:
        {
            how = "element";
            std::size_t i = s.size(mo.c->nums.size() - 1);
            r.c->k = kind::i;
            r.c->num = mo.c->nums[i];
            return x.index(static_cast<papilio::ssize_t>(i));
        }
        default: how = "nothing"; return arg();
        }
    }

    // sets a slot to a new argument that was just made
    void put(std::size_t i, arg&& x, model mo)
    {
        m[i].end();
        if(a[i] && s.boolean())
        {
            arg old(std::move(*a[i]));
            *a[i] = std::move(x);
        }
        else if(a[i] && s.boolean())
            *a[i] = std::move(x);
        else
            a[i].emplace(std::move(x));
        m[i] = moved(mo);
    }

    std::size_t slot() { return s.size(N - 1); }

    void drop_origin(std::size_t at)
    {
        if(at + 1 != from.size())
            std::swap(from[at], from.back());
        from.pop_back();
    }

    void step()
    {
        std::size_t i = slot(), j = slot();
        std::string si = std::to_string(i), sj = std::to_string(j);
        model mo;
        std::string how;
        switch(s.draw(22))
        {
        case 0:
        case 1:
        {
            if(from.size() >= 8)
                return;
            static constexpr kind ks[] = {kind::string, kind::tiny_, kind::snug_, kind::big_, kind::shy_, kind::lone_, kind::array, kind::vec};
            kind k = ks[s.draw(8)];
            from.emplace_back(s, k);
            say("new " + std::string(name_of(k)) + " object " + std::to_string(from.size() - 1));
            [[fallthrough]];
        }
        case 2:
        case 3:
        case 4:
        {
            arg x = anything(mo, how);
            say("#" + si + " = " + how);
            put(i, std::move(x), mo);
            return;
        }
        case 5:
        case 6: // a copy into an empty or used slot
        {
            if(!a[i])
                return;
            say("#" + sj + " = copy of #" + si);
            stirred = true;
            if(i == j)
            {
                const arg& self = *a[i];
                *a[i] = self;
                // it is the same afterwards, or owns less
                if(!scalar(m[i].k()) && !a[i]->has_ownership() && m[i].own)
                {
                    m[i].end();
                    m[i].dep = m[i].own;
                    m[i].own = nullptr;
                }
                else
                    relocated(m[i]);
                return;
            }
            m[j].end();
            if(a[j] && s.boolean())
                *a[j] = *a[i];
            else
                a[j].emplace(*a[i]);
            m[j] = copied(m[i], a[j]->has_ownership());
            return;
        }
        case 7:
        case 8: // moved
        {
            if(!a[i])
                return;
            stirred = true;
            say("#" + sj + " = moved #" + si);
            if(i == j)
            {
                arg& self = *a[i];
                self = std::move(*a[i]);
                if(self.empty())
                {
                    m[i].end();
                    m[i] = model();
                }
                else
                    relocated(m[i]);
                return;
            }
            model r = moved(m[i]);
            m[j].end();
            if(a[j])
                *a[j] = std::move(*a[i]);
            else
                a[j].emplace(std::move(*a[i]));
            m[j] = r;
            VP_CHECK(a[i]->empty(), "an argument that was moved from is not empty");
            return;
        }
        case 9:
        case 10: // swapped
        {
            if(!a[i] || !a[j])
                return;
            stirred = true;
            say("#" + sj + " <-> #" + si);
            if(i != j)
            {
                model x = moved(m[i]);
                m[i] = moved(m[j]);
                m[j] = x;
            }
            else
                relocated(m[i]);
            switch(s.draw(3))
            {
            case 0: a[i]->swap(*a[j]); break;
            case 1: swap(*a[i], *a[j]); break;
            default: std::swap(*a[i], *a[j]); break;
            }
            return;
        }
        case 11: // gone
            if(!a[i])
                return;
            stirred = true;
            say("#" + si + " destroyed");
            m[i].end();
            m[i] = model();
            a[i].reset();
            return;
        case 12: // the object changes
            if(from.empty())
                return;
            stirred = true;
            {
                std::size_t at = s.size(from.size() - 1);
                say("object " + std::to_string(at) + " modified");
                from[at].modify(s);
            }
            return;
        case 13: // or goes
            if(from.empty())
                return;
            stirred = true;
            {
                std::size_t at = s.size(from.size() - 1);
                say("object " + std::to_string(at) + " destroyed");
                drop_origin(at);
            }
            return;
        case 14: // a part
        {
            if(!a[i] || !m[i].readable() || m[i].k() == kind::none)
                return;
            arg x = part(*a[i], m[i], mo, how);
            say("#" + sj + " = " + how + " of #" + si);
            put(j, std::move(x), mo);
            return;
        }
        case 15: // handles on their own
        {
            if(!a[i] || m[i].k() <= kind::pointer)
                return;
            say("the handle of #" + si + " copied and moved");
            handles(*a[i], m[i], j);
            return;
        }
        case 16: // a list of the kind formatting functions use
        {
            if(!a[i] || !a[j])
                return;
            say("static list of #" + si + " and #" + sj);
            static_list(*a[i], m[i], *a[j], m[j]);
            return;
        }
        default: list_step(i, j); return;
        }
    }

    void handles(arg& x, const model& mo, std::size_t j)
    {
        handle& h = std::get<handle>(x.to_variant());
        bool owned = h.has_ownership();
        handle c1(h);
        handle c2 = std::as_const(h);
        handle c3(std::move(c2));
        c2 = c1;
        c1 = std::move(c3);
        c3 = h;
        handle& self = c3;
        c3 = self;
        VP_CHECK(h.has_ownership() == owned, "copying a handle changed its ownership");
        VP_CHECK(h.type() == c1.type() && c1.type() == c2.type() && c2.type() == c3.type(), "the copy of a handle has another type");
        arg y(std::in_place_type<handle>, s.boolean() ? c1 : c3);
        model my = copied(mo, std::get<handle>(y.to_variant()).has_ownership());
        read(y, my, "the copy of a handle");
        if(s.boolean())
        {
            // an owner that is moved leaves the value with the new owner
            arg z(std::in_place_type<handle>, std::move(h));
            // what is left of x may only be given a new value
            if(a[j] && &x == &*a[j])
            {
                model r = moved(m[j]);
                a[j] = std::move(z);
                m[j] = moved(r);
            }
            else
            {
                std::size_t i = static_cast<std::size_t>(&mo - m);
                model r = moved(m[i]);
                a[i].emplace();
                model q = moved(r);
                m[j].end();
                a[j].emplace(std::move(z));
                m[j] = q;
            }
            stirred = true;
        }
    }

    template <typename L>
    void look(const L& l, const model& m1, const model& m2, const std::string& what)
    {
        model x1 = copied(m1, l.get(std::size_t(0)).has_ownership());
        model x2 = copied(m2, l.get(PAPILIO_TSTRING_VIEW(CharT, "b")).has_ownership());
        read(l.get(std::size_t(0)), x1, what + " [0]");
        read(l.get(PAPILIO_TSTRING_VIEW(CharT, "b")), x2, what + " [b]");
        VP_CHECK(l.indexed_size() == 1 && l.named_size() == 1, what + ": another number of arguments");
        if(x1.readable() && x2.readable() && x1.k() != kind::none && x2.k() != kind::none)
        {
            auto fl = [](const model& x)
            { return x.k() == kind::f || x.k() == kind::d || x.k() == kind::ld; };
            std::string f = std::string(fl(x1) ? "{:.1f}" : "{}") + "/" + (fl(x2) ? "{b:.1f}" : "{b}");
            string got = vf(string(f.begin(), f.end()), ref(l));
            std::string want = out_of(*x1.c) + "/" + out_of(*x2.c);
            VP_CHECK(got == recoded(want), what + ": formats as " + vp::quote(got) + ", expected " + vp::quote(want));
        }
    }

    void static_list(const arg& x, const model& mx, const arg& y, const model& my)
    {
        auto b = PAPILIO_NS arg(PAPILIO_TSTRING_VIEW(CharT, "b"), y);
        static_format_args<1, 1, context, CharT> l(x, b);
        look(l, mx, my, "a list");
        const auto l2 = std::as_const(l);
        look(l2, mx, my, "the copy of a list");
        auto l3(l);
        look(l3, mx, my, "the copy of a list");
        auto l4(std::move(l3));
        look(l4, mx, my, "a list that was moved");
        look(l, mx, my, "a list that was copied");
    }

    void list_step(std::size_t i, std::size_t j)
    {
        std::size_t n = s.size(1);
        std::string sn = "list " + std::to_string(n);
        mlist& q = ml[n];
        if(!lists[n])
        {
            say("new " + sn);
            if(a[i] && a[j] && s.boolean())
            {
                lists[n].emplace(std::as_const(*a[i]), *a[j]);
                q.indexed.push_back(copied(m[i], lists[n]->get(std::size_t(0)).has_ownership()));
                q.indexed.push_back(copied(m[j], lists[n]->get(std::size_t(1)).has_ownership()));
            }
            else
                lists[n].emplace();
            return;
        }
        list& l = *lists[n];
        static const char* const names[] = {"a", "b", "name", "zz"};
        switch(s.draw(10))
        {
        case 0:
        case 1: // an argument of the pool
            if(!a[i])
                return;
            say(sn + " += #" + std::to_string(i));
            l.emplace(*a[i]);
            for(auto& x : q.indexed)
                relocated(x);
            q.indexed.push_back(copied(m[i], l.get(l.indexed_size() - 1).has_ownership()));
            return;
        case 2: // moved in
        {
            if(!a[i])
                return;
            say(sn + " += moved #" + std::to_string(i));
            model r = moved(m[i]);
            l.append(std::move(*a[i]));
            for(auto& x : q.indexed)
                relocated(x);
            q.indexed.push_back(moved(r));
            VP_CHECK(a[i]->empty(), "an argument that was moved into a list is not empty");
            return;
        }
        case 3: // made in place
        {
            model mo;
            std::string how;
            arg x = anything(mo, how);
            say(sn + " += " + how);
            l.emplace(std::move(x));
            for(auto& y : q.indexed)
                relocated(y);
            q.indexed.push_back(moved(mo));
            return;
        }
        case 4: // an object itself
        {
            if(from.empty())
                return;
            std::size_t at = s.size(from.size() - 1);
            origin<CharT>& o = from[at];
            say(sn + " += object " + std::to_string(at));
            for(auto& y : q.indexed)
                relocated(y);
            model mo;
            mo.c = o.c;
            mo.dep = o.st;
            switch(o.c->k)
            {
            case kind::string:
                if(s.boolean())
                {
                    l.emplace(string(*o.s));
                    mo = model();
                    mo.c = std::make_shared<cell>(*o.c);
                    mo.own = std::make_shared<stor>();
                    mo.in_place = true;
                }
                else
                    l.emplace(*o.s);
                break;
            case kind::tiny_:
                l.emplace(*o.t);
                mo = model();
                mo.c = std::make_shared<cell>(*o.c);
                break;
            case kind::snug_:
                l.append(std::as_const(*o.g));
                mo = model();
                mo.c = std::make_shared<cell>(*o.c);
                break;
            case kind::big_: l.emplace(*o.b); break;
            case kind::shy_: l.append(*o.y); break;
            case kind::lone_: l.emplace(*o.l); break;
            case kind::array: l.emplace(*o.arr); break;
            default: l.emplace(std::as_const(*o.v)); break;
            }
            if(inside(mo.k()))
            {
                mo.own = std::make_shared<stor>();
                mo.in_place = true;
            }
            q.indexed.push_back(mo);
            return;
        }
        case 5: // under a name
        {
            std::string name = names[s.draw(4)];
            string key(name.begin(), name.end());
            model mo;
            std::string how;
            if(a[i] && s.boolean())
            {
                say(sn + "." + name + " = #" + std::to_string(i));
                l.emplace(PAPILIO_NS arg(sview(key), *a[i]));
                mo = copied(m[i], l.get(key).has_ownership());
            }
            else
            {
                arg x = anything(mo, how);
                say(sn + "." + name + " = " + how);
                l.append(PAPILIO_NS arg(sview(key), std::move(x)));
                bool kept = l.get(key).has_ownership();
                if(!kept && mo.own && !scalar(mo.k()))
                    vp::fail("a temporary value given by name was not kept");
                mo = moved(mo);
            }
            if(auto it = q.named.find(name); it != q.named.end())
            {
                it->second.end();
                it->second = mo;
            }
            else
                q.named.emplace(name, mo);
            return;
        }
        case 6: // one of its own arguments, again
        {
            if(q.indexed.empty())
                return;
            std::size_t k = s.size(q.indexed.size() - 1);
            say(sn + " += its [" + std::to_string(k) + "]");
            l.emplace(l.get(k));
            model r = copied(q.indexed[k], l.get(l.indexed_size() - 1).has_ownership());
            for(auto& y : q.indexed)
                relocated(y);
            q.indexed.push_back(r);
            return;
        }
        case 7: // an argument back out
        {
            if(q.indexed.empty())
                return;
            std::size_t k = s.size(q.indexed.size() - 1);
            say("#" + std::to_string(j) + " = " + sn + "[" + std::to_string(k) + "]");
            stirred = true;
            m[j].end();
            m[j] = model();
            a[j].emplace(l.get(k));
            m[j] = copied(q.indexed[k], a[j]->has_ownership());
            return;
        }
        case 8: // the list itself moves, or goes
            stirred = true;
            if(s.boolean())
            {
                say(sn + " moved");
                list tmp(std::move(l));
                for(auto& y : q.indexed)
                    relocated(y);
                for(auto& y : q.named)
                    relocated(y.second);
                put_out(tmp, q, "a list that was moved");
                lists[n].reset();
                lists[n].emplace(std::move(tmp));
                for(auto& y : q.indexed)
                    relocated(y);
                for(auto& y : q.named)
                    relocated(y.second);
                return;
            }
            say(sn + " destroyed");
            q.end();
            lists[n].reset();
            return;
        default:
            stirred = true;
            say(sn + " cleared");
            q.end();
            l.clear();
            return;
        }
    }

    void read_all()
    {
        for(std::size_t i = 0; i < N; ++i)
            if(a[i])
                read(*a[i], m[i], "#" + std::to_string(i));
        for(std::size_t i = 0; i < 2; ++i)
            if(lists[i])
                put_out(*lists[i], ml[i], "list " + std::to_string(i));
        for(auto& o : from)
            if(o.c->k == kind::string)
                VP_CHECK(*o.s == um::enc<CharT>(o.c->str), "the object a text was captured from has changed");
            else if(o.c->k == kind::vec)
                VP_CHECK(*o.v == o.c->nums, "the object a vector was captured from has changed");
        if(tr::elem::moved_from_dead())
            vp::fail("a value was destroyed twice, used while dead, or written over a live one");
    }
};

// the number of blocks that are left
template <typename CharT>
std::ptrdiff_t run(vp::source& s, vp::ctx* log, int& later)
{
    tr::reset();
    std::size_t steps = 2 + s.small_size(40);
    std::size_t before = vp::alloc_now().live_blocks;
    {
        world<CharT> w(s, log);
        for(std::size_t i = 0; i < steps; ++i)
        {
            w.step();
            w.read_all();
        }
        later = w.later;
    }
    std::size_t after = vp::alloc_now().live_blocks;
    tr::check_counts(0, "when everything is gone");
    return static_cast<std::ptrdiff_t>(after) - static_cast<std::ptrdiff_t>(before);
}

template <typename CharT>
void history(vp::source& s, vp::ctx& c)
{
    c.note("a history of captured arguments");
    int later = 0;
    std::vector<std::uint64_t> tape;
    tape.reserve(100000);
    s.capture(&tape);
    try
    {
        std::ptrdiff_t left = run<CharT>(s, &c, later);
        s.capture(nullptr);
        if(left != 0)
        {
            // tables may be made when they are used first; a leak is there every time
            vp::source again(tape);
            left = run<CharT>(again, nullptr, later);
        }
        VP_CHECK(left == 0, std::to_string(left) + " blocks are left after the history");
    }
    catch(...)
    {
        s.capture(nullptr);
        throw;
    }
    c.nontrivial_if(later >= 3);
}
} // namespace g01

#endif
