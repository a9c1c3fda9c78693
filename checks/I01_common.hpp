// I01 - failures midway: exceptions of iterators, of user code and of allocations
#ifndef I01_COMMON_HPP
#define I01_COMMON_HPP
#define FM_XCHAR
#include "zoo.hpp"
#include <expected>
#include <functional>
#include <iterator>
#include <sstream>

namespace i01
{
using namespace papilio;
using um::text;

// ------------------------------------------------------------ the planned fault
// Every call of tick() is a point at which user code may fail.
struct plan_t
{
    long at = 0;    // the point that fails; 0: none
    long count = 0; // points passed so far
    int kind = 0;   // what is thrown
};

inline plan_t plan;

struct boom
{
    long serial;
};

struct own_error : std::runtime_error
{
    long serial;

    explicit own_error(long n)
        : std::runtime_error("own error"), serial(n) {}
};

inline constexpr int n_fault_kinds = 7;

inline void tick()
{
    if(++plan.count != plan.at)
        return;
    switch(plan.kind)
    {
    case 0: throw boom{plan.at};
    case 1: throw own_error(plan.at);
    case 2: throw plan.at;
    case 3: throw papilio::format_error("a format error of the user");
    case 4: throw std::out_of_range("an out_of_range of the user");
    case 5: throw std::bad_alloc();
    default: throw papilio::invalid_attribute(papilio::attribute_name("of_the_user"));
    }
}

struct outcome
{
    bool thrown = false;
    std::string what; // describes the exception

    friend bool operator==(const outcome&, const outcome&) = default;
};

template <typename F>
outcome attempt(F&& f)
{
    try
    {
        f();
        return {};
    }
    catch(const vp::failure&)
    {
        throw;
    }
    catch(const vp::discard&)
    {
        throw;
    }
    catch(const boom& b)
    {
        return {true, "boom " + std::to_string(b.serial)};
    }
    catch(const own_error& e)
    {
        return {true, "own_error " + std::to_string(e.serial)};
    }
    catch(long n)
    {
        return {true, "long " + std::to_string(n)};
    }
    catch(const std::exception& e)
    {
        return {true, std::string(typeid(e).name()) + ": " + e.what()};
    }
    catch(...)
    {
        return {true, "something else"};
    }
}

// the exception that the point is planned to throw
inline outcome planned(long at, int kind)
{
    plan = {1, 0, kind};
    // not at 1: the serial number is part of it
    plan.at = at;
    plan.count = at - 1;
    outcome r = attempt([] { tick(); });
    plan = {};
    return r;
}

// ------------------------------------------------------------ user types that may fail
// written by a formatter with a parser
template <typename CharT>
struct parsed
{
    std::basic_string<CharT> s;
};

// written by a formatter without a separate parser
template <typename CharT>
struct direct
{
    std::basic_string<CharT> s;
};

// written by format(val, ctx) found by its namespace
template <typename CharT>
struct found
{
    std::basic_string<CharT> s;
};

// written by format(val, pctx, ctx) found by its namespace
template <typename CharT>
struct found2
{
    std::basic_string<CharT> s;
};

// written by operator<<
template <typename CharT>
struct streamed
{
    std::basic_string<CharT> s;
};

// written by the formatter of another type, which it calls
template <typename CharT>
struct delegating
{
    std::basic_string<CharT> s;
    int n = 0;
};

// members can be indexed and have attributes
template <typename CharT>
struct keyed
{
    std::basic_string<CharT> s;
    parsed<CharT> p;
    std::vector<int> v;
};

// a range whose iterators may fail
template <typename T>
struct failing_range
{
    std::vector<T> v;

    struct iterator
    {
        using value_type = T;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::forward_iterator_tag;
        using reference = const T&;
        using pointer = const T*;
        const T* p = nullptr;

        const T& operator*() const
        {
            tick();
            return *p;
        }

        iterator& operator++()
        {
            tick();
            ++p;
            return *this;
        }

        iterator operator++(int)
        {
            iterator r = *this;
            ++*this;
            return r;
        }

        friend bool operator==(const iterator& a, const iterator& b)
        {
            tick();
            return a.p == b.p;
        }
    };

    iterator begin() const
    {
        tick();
        return {v.data()};
    }

    iterator end() const
    {
        return {v.data() + v.size()};
    }
};

// writes a string in pieces, holding memory while it does
template <typename CharT, typename Context>
auto pieces(const std::basic_string<CharT>& s, Context& ctx, std::size_t step)
{
    using traits = format_context_traits<Context>;
    std::basic_string<CharT> held(40, CharT('h'));
    tick();
    for(std::size_t i = 0; i < s.size(); i += step)
    {
        std::basic_string<CharT> piece = s.substr(i, step);
        piece.reserve(40);
        if(i % 2)
            traits::append(ctx, piece);
        else
            for(CharT ch : piece)
                traits::append(ctx, ch);
        tick();
    }
    return ctx.out();
}

template <typename CharT, typename Context>
requires std::is_same_v<CharT, typename Context::char_type>
auto format(const found<CharT>& f, Context& ctx) -> typename Context::iterator
{
    return pieces(f.s, ctx, 1);
}

template <typename CharT, typename ParseContext, typename Context>
requires std::is_same_v<CharT, typename Context::char_type>
auto format(const found2<CharT>& f, ParseContext& pctx, Context& ctx) -> typename Context::iterator
{
    auto it = pctx.begin();
    while(it != pctx.end() && *it != U'}')
    {
        tick();
        ++it;
    }
    pctx.advance_to(it);
    return pieces(f.s, ctx, 2);
}

template <typename CharT>
std::basic_ostream<CharT>& operator<<(std::basic_ostream<CharT>& os, const streamed<CharT>& v)
{
    std::basic_string<CharT> held(40, CharT('h'));
    tick();
    for(CharT ch : v.s)
    {
        os << ch;
        tick();
    }
    return os;
}
} // namespace i01

template <typename CharT>
struct papilio::formatter<i01::parsed<CharT>, CharT>
{
    std::basic_string<CharT> held;
    std::size_t step = 1;

    template <typename ParseContext>
    auto parse(ParseContext& ctx)
    {
        auto it = ctx.begin();
        held.assign(40, CharT('h'));
        i01::tick();
        while(it != ctx.end() && *it != U'}')
        {
            if(*it == U'2')
                step = 2;
            ++it;
            held += held;
            i01::tick();
        }
        return it;
    }

    template <typename Context>
    auto format(const i01::parsed<CharT>& p, Context& ctx) const
    {
        return i01::pieces(p.s, ctx, step);
    }
};

template <typename CharT>
struct papilio::formatter<i01::direct<CharT>, CharT>
{
    template <typename ParseContext, typename Context>
    auto format(const i01::direct<CharT>& p, ParseContext& pctx, Context& ctx) const
    {
        i01::tick();
        papilio::formatter<papilio::utf::basic_string_container<CharT>, CharT> f;
        pctx.advance_to(f.parse(pctx));
        i01::tick();
        auto it = f.format(papilio::utf::basic_string_container<CharT>(papilio::independent, p.s), ctx);
        i01::tick();
        return it;
    }
};

template <typename CharT>
struct papilio::formatter<i01::delegating<CharT>, CharT>
{
    template <typename ParseContext>
    auto parse(ParseContext& ctx)
    {
        i01::tick();
        return ctx.begin();
    }

    template <typename Context>
    auto format(const i01::delegating<CharT>& p, Context& ctx) const
    {
        using traits = papilio::format_context_traits<Context>;
        static constexpr CharT f1[] = {'<', '{', '}', ':', '{', ':', '4', '}', '>', 0};
        static constexpr CharT f2[] = {'[', '{', '0', '}', '|', '{', '1', ':', '2', '}', ']', 0};
        traits::format_to(ctx, std::basic_string_view<CharT>(f1), p.n, p.s);
        i01::tick();
        i01::parsed<CharT> inner{p.s};
        traits::vformat_to(ctx, std::basic_string_view<CharT>(f2), papilio::make_format_args<Context>(p.n, inner));
        i01::tick();
        return ctx.out();
    }
};

template <typename CharT, typename Context>
struct papilio::accessor<i01::keyed<CharT>, Context>
{
    using arg = papilio::basic_format_arg<Context>;

    static arg index(const i01::keyed<CharT>& k, papilio::ssize_t i)
    {
        std::string held(40, 'h');
        i01::tick();
        if(i == 0)
            return arg(k.p);
        if(i == 1)
            return arg(k.v);
        if(i == 2)
            return arg(papilio::independent, i01::parsed<CharT>(k.p));
        return arg(papilio::utf::basic_string_container<CharT>(papilio::independent, k.s));
    }

    static arg index(const i01::keyed<CharT>& k, papilio::index_range r)
    {
        i01::tick();
        return arg(papilio::utf::basic_string_container<CharT>(k.s).substr(r));
    }

    static arg index(const i01::keyed<CharT>& k, std::basic_string_view<CharT> key)
    {
        i01::tick();
        return key.empty() ? arg(k.v) : arg(k.p);
    }

    static arg attribute(const i01::keyed<CharT>& k, const papilio::basic_attribute_name<CharT>& a)
    {
        i01::tick();
        if(a == PAPILIO_TSTRING_VIEW(CharT, "p"))
            return k.p;
        if(a == PAPILIO_TSTRING_VIEW(CharT, "s"))
            return k.s;
        papilio::throw_invalid_attribute(a);
    }
};

template <typename CharT>
struct papilio::formatter<i01::keyed<CharT>, CharT>
{
    template <typename ParseContext>
    auto parse(ParseContext& ctx)
    {
        return ctx.begin();
    }

    template <typename Context>
    auto format(const i01::keyed<CharT>& k, Context& ctx) const
    {
        return i01::pieces(k.s, ctx, 3);
    }
};

namespace i01
{
// ------------------------------------------------------------ generated values
template <typename CharT>
std::basic_string<CharT> gen_str(vp::source& s, std::size_t max = 12)
{
    return um::enc<CharT>(um::gen_text(s, max));
}

// calls f with a user value of random kind; the field to write it with is added to the format
template <typename CharT, typename F>
const char* with_user(vp::source& s, zoo::store& st, text& spec, F&& f)
{
    using str = std::basic_string<CharT>;
    auto one = [&]() -> str { return gen_str<CharT>(s); };
    auto P = [&] { return parsed<CharT>{one()}; };
    switch(s.draw(25))
    {
    case 0:
        spec = s.pick<text>({U"", U":", U":1", U":2", U":122"});
        f(st.keep(P()));
        return "parsed";
    case 1:
        spec = s.pick<text>({U"", U":", U":>20", U":.3", U":?", U":*^30.2"});
        f(st.keep(direct<CharT>{one()}));
        return "direct";
    case 2: f(st.keep(found<CharT>{one()})); return "found";
    case 3:
        spec = s.pick<text>({U"", U":ab"});
        f(st.keep(found2<CharT>{one()}));
        return "found with parser";
    case 4:
        if constexpr(std::is_same_v<CharT, char> || std::is_same_v<CharT, wchar_t>)
        {
            spec = s.pick<text>({U"", U":>20", U":.3", U":-<14"});
            f(st.keep(streamed<CharT>{one()}));
            return "streamed";
        }
        else
            [[fallthrough]];
    case 5: f(st.keep(delegating<CharT>{one(), static_cast<int>(s.draw(100))})); return "delegating";
    case 6:
    case 7:
    case 8:
        spec = s.pick<text>({U"", U"[0]", U"[1]", U"[2]", U"[3]", U"[1:3]", U"['k']", U"['']", U".p", U".s", U"[0]:2", U"[2]:2", U"[3]:>9", U".p:1", U"[1][0]", U"[3].size", U"[1].size"});
        f(st.keep(keyed<CharT>{one(), P(), {1, 2, 3}}));
        return "keyed";
    case 9:
        spec = s.pick<text>({U"", U"::2", U":n", U"[0]", U".size"});
        {
            std::vector<parsed<CharT>> v;
            for(std::size_t n = s.size(4); n > 0; --n)
                v.push_back(P());
            if(v.empty())
                spec = U"";
            f(st.keep(v));
        }
        return "vector of parsed";
    case 10:
        spec = s.pick<text>({U"", U":n", U"::3", U"::>4"});
        {
            failing_range<int> v;
            for(std::size_t n = s.size(4); n > 0; --n)
                v.v.push_back(static_cast<int>(s.draw(50)));
            f(st.keep(v));
        }
        return "failing range of int";
    case 11:
        spec = s.pick<text>({U"", U"::2", U":n"});
        {
            failing_range<parsed<CharT>> v;
            for(std::size_t n = s.size(3); n > 0; --n)
                v.v.push_back(P());
            f(st.keep(v));
        }
        return "failing range of parsed";
    case 12: f(st.keep(std::optional<parsed<CharT>>(P()))); return "optional";
    case 13: f(st.keep(std::variant<int, parsed<CharT>>(P()))); return "variant";
    case 14:
        spec = s.pick<text>({U"", U":m", U":n", U"[0]", U"[1]"});
        f(st.keep(std::pair<parsed<CharT>, int>(P(), 3)));
        return "pair";
    case 15:
        spec = s.pick<text>({U"", U":n", U"[-1]", U"[1]"});
        f(st.keep(std::tuple<int, parsed<CharT>, delegating<CharT>>(1, P(), {one(), 4})));
        return "tuple";
    case 16: f(st.keep(std::ref(st.keep(P())))); return "reference";
    case 17:
    {
        const auto& v = st.keep(std::vector<parsed<CharT>>{P(), P(), P()});
        f(st.keep(join(v, std::basic_string_view<CharT>(st.keep(one())))));
        return "joined";
    }
    case 18:
    {
        spec = s.pick<text>({U"", U":n", U":m", U"[3]", U"[4]"});
        std::map<int, parsed<CharT>> m;
        m.emplace(3, P());
        m.emplace(4, P());
        f(st.keep(m));
        return "map";
    }
    case 19:
    {
        spec = s.pick<text>({U"", U"::2", U"[0]"});
        const auto& v = st.keep(std::vector<std::vector<parsed<CharT>>>{{P()}, {P(), P()}});
        f(v);
        return "vector of vector";
    }
    case 20:
    {
        const auto& v = st.keep(std::vector<keyed<CharT>>{{one(), P(), {5}}, {one(), P(), {6}}});
        spec = s.pick<text>({U"", U"[1]", U"[0][0]", U"[1].p", U"[-1][2]:2", U"[0].s"});
        f(v);
        return "vector of keyed";
    }
    case 21:
        f(st.keep(std::expected<parsed<CharT>, int>(P())));
        return "expected";
    default:
        spec = s.pick<text>({U"", U":", U":12"});
        f(st.keep(P()));
        return "parsed";
    }
}

// ------------------------------------------------------------ the sink
// An output iterator whose writes may fail.
template <typename CharT>
struct sink
{
    std::basic_string<CharT> got;
    bool can_fail = false;
};

template <typename CharT>
struct sink_iterator
{
    using iterator_category = std::output_iterator_tag;
    using value_type = CharT;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    sink<CharT>* to = nullptr;

    sink_iterator& operator=(CharT ch)
    {
        if(to->can_fail)
            tick();
        to->got.push_back(ch);
        return *this;
    }

    sink_iterator& operator*()
    {
        if(to->can_fail)
            tick();
        return *this;
    }

    sink_iterator& operator++()
    {
        if(to->can_fail)
            tick();
        return *this;
    }

    sink_iterator& operator++(int) { return *this; }
};

// ------------------------------------------------------------ a call that may fail at many points
template <typename CharT>
struct call
{
    std::basic_string<CharT> out; // what was written; has room for everything

    // Performs the call once.  What was written is left in out.
    std::function<void(std::basic_string<CharT>&)> run;
    bool keeps_prefix = true; // false: the output is only there at the end
};

template <typename CharT>
bool is_prefix(const std::basic_string<CharT>& p, const std::basic_string<CharT>& of)
{
    return p.size() <= of.size() && of.compare(0, p.size(), p) == 0;
}

struct statistics
{
    long points = 0;  // points at which the call can fail
    long failed = 0;  // runs that failed as planned
    long partial = 0; // ... after something had been written
};

// Lets every point of the call fail in turn (at most max of them).
template <typename CharT>
statistics explore(vp::source& s, const call<CharT>& c, bool allocations, long max)
{
    using str = std::basic_string<CharT>;
    statistics st;
    str got;
    got.reserve(1 << 16);
    auto perform = [&]
    {
        got.clear();
        return attempt([&] { c.run(got); });
    };
    // the full result; the second time, everything that is made once has been made
    plan = {};
    outcome full = perform();
    str full_out = got;
    plan = {};
    {
        outcome again = perform();
        if(again != full || got != full_out)
            vp::fail("two runs of the call differ: " + full.what + " " + vp::quote(full_out) + " and " + again.what + " " + vp::quote(got));
    }
    long total = plan.count;
    if(allocations)
    {
        plan = {};
        long before = vp::alloc_now().total_allocs;
        perform();
        total = vp::alloc_now().total_allocs - before;
    }
    plan = {};
    st.points = total;
    int kind = static_cast<int>(s.draw(n_fault_kinds));
    bool step_kinds = s.boolean();
    // all the points, or a random choice of them
    std::vector<long> at;
    if(total <= max)
        for(long i = 1; i <= total; ++i)
            at.push_back(i);
    else
        for(long i = 0; i < max; ++i)
            at.push_back(s.range(1, total));
    for(long k : at)
    {
        if(step_kinds)
            kind = (kind + 1) % n_fault_kinds;
        outcome want = allocations ? outcome{} : planned(k, kind);
        auto once = [&]() -> std::string
        {
            long before = vp::alloc_now().live_blocks;
            std::string wrong;
            {
                outcome r;
                bool hit = true;
                std::string kept;
                {
                    if(allocations)
                        vp::alloc_fail_after(k);
                    else
                        plan = {k, 0, kind};
                    got.clear();
                    try
                    {
                        c.run(got);
                        r.thrown = false;
                    }
                    catch(const vp::failure&)
                    {
                        throw;
                    }
                    catch(...)
                    {
                        hit = vp::alloc_fail_triggered();
                        vp::alloc_fail_after(0);
                        r = attempt([] { throw; });
                    }
                    if(!allocations)
                        hit = plan.count >= plan.at;
                    else if(!r.thrown)
                    {
                        hit = vp::alloc_fail_triggered();
                        vp::alloc_fail_after(0);
                    }
                    plan = {};
                }
                if(!hit)
                {
                    if(r != full || got != full_out)
                        wrong = "no point failed, but the result is " + r.what + " " + vp::quote(got);
                }
                else if(!r.thrown)
                    wrong = "the exception was lost; the output is " + vp::quote(got);
                else if(allocations)
                {
                    if(r.what.find("bad_alloc") == std::string::npos)
                        wrong = "the failed allocation became " + r.what;
                }
                else if(r != want)
                    wrong = "the exception " + want.what + " became " + r.what;
                if(wrong.empty() && hit)
                {
                    ++st.failed;
                    if(!got.empty())
                        ++st.partial;
                    if(c.keeps_prefix && !is_prefix(got, full_out))
                        wrong = vp::quote(got) + " was written, which is not how the full result starts";
                    if(!c.keeps_prefix && !got.empty())
                        wrong = "a failed call gave a result";
                }
            }
            if(!wrong.empty())
                return wrong;
            long left = vp::alloc_now().live_blocks - before;
            if(left != 0)
                return "leak: " + std::to_string(left) + " blocks are left";
            return {};
        };
        std::string wrong = once();
        if(wrong.starts_with("leak"))
            wrong = once();
        if(!wrong.empty())
            vp::fail("point " + std::to_string(k) + " of " + std::to_string(total) + ": " + wrong + "; the full result is " + full.what + " " + vp::quote(full_out));
    }
    // the next call behaves normally
    outcome r = perform();
    plan = {};
    if(r != full || got != full_out)
        vp::fail("after the failures the call gives " + r.what + " " + vp::quote(got) + " and not " + full.what + " " + vp::quote(full_out));
    return st;
}

inline void count(vp::ctx& c, const statistics& st)
{
    c.tag(st.points == 0 ? "no point can fail" : st.points < 10 ? "1 to 9 points" : st.points < 60 ? "10 to 59 points" : "60 points or more");
    if(st.partial)
        c.tag("output before the failure");
    c.nontrivial_if(st.failed >= 3);
}

// a format string and arguments, for output through any iterator
template <typename CharT, typename Out, bool Zoo>
struct prepared
{
    using context = basic_format_context<Out, CharT>;
    using args_t = basic_dynamic_format_args<context, CharT>;
    gf::holder<CharT> h;
    zoo::store st;
    args_t args;
    std::basic_string<CharT> fmt;
    std::string note;

    explicit prepared(vp::source& s, bool with_values)
    {
        gf::builder b(s);
        if(with_values)
            b.program(3, 1, 3, 1);
        text f = b.fmt;
        h.fill(args, b);
        if(with_values)
            note = b.note();
        for(std::size_t n = 1 + s.small_size(3), i = 0; i < n; ++i)
        {
            std::string id = std::to_string(args.indexed_size());
            text name;
            if(s.chance(1, 4))
            {
                name = U"u" + gf::ascii(std::to_string(i));
                id = "u" + std::to_string(i);
            }
            text spec;
            std::string kind;
            auto add = [&](const auto& x)
            {
                if(name.empty())
                    args.emplace(x);
                else
                    args.emplace(papilio::arg(h.string(name).c_str(), x));
            };
            if constexpr(Zoo)
            {
                if(s.chance(4, 5))
                    kind = with_user<CharT>(s, st, spec, add);
                else
                    kind = zoo::with<CharT>(s, st, false, add);
            }
            else
                kind = with_user<CharT>(s, st, spec, add);
            note += " + " + kind;
            text fld = U"{" + gf::ascii(id) + spec + U"}";
            b.fmt.clear(); b.literal(b.gen_literal(5)); f += b.fmt;
            switch(s.draw(8))
            {
            case 0: f += U"{$ {" + gf::ascii(id) + U"}: '" + fld + U"': 'x'}"; break;
            case 1: f += U"{$ !false: '" + fld + U"'}"; break;
            default: f += fld; break;
            }
        }
        note += " as " + vp::quote(um::enc<char>(f));
        fmt = um::enc<CharT>(f);
    }
};

// the calls, each character type in a translation unit of its own
template <typename CharT>
void to_sink(vp::source& s, vp::ctx& c, bool values, bool writes_fail);
template <typename CharT>
void to_string_args(vp::source& s, vp::ctx& c, bool allocations);
} // namespace i01
#endif
