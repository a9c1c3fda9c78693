// H01 - calls are independent of history, nesting and other threads
#ifndef H01_COMMON_HPP
#define H01_COMMON_HPP
#define FM_XCHAR
#include "mutfmt.hpp"
#include "zoo.hpp"
#include <atomic>
#include <functional>
#include <locale>
#include <thread>

namespace h01
{
using namespace papilio;
using gf::text;
using tape_t = std::vector<std::uint64_t>;

// locales that live as long as the process
template <typename CharT>
struct odd_names : std::numpunct<CharT>
{
protected:
    CharT do_decimal_point() const override { return CharT(','); }
    CharT do_thousands_sep() const override { return CharT('.'); }
    std::string do_grouping() const override { return "\3"; }
    std::basic_string<CharT> do_truename() const override { return {CharT('J'), CharT('a')}; }
    std::basic_string<CharT> do_falsename() const override { return {CharT('N'), CharT('e'), CharT('i'), CharT('n')}; }
};

inline std::locale& the_locale(std::size_t i)
{
    static std::locale* l[2] = {
        new std::locale(std::locale::classic()),
        new std::locale(std::locale(std::locale::classic(), new odd_names<char>), new odd_names<wchar_t>),
    };
    return *l[i];
}

// what a call made of its arguments
inline std::string describe(const std::exception& e)
{
    return std::string("exception ") + typeid(e).name() + ": " + e.what();
}

// a format string and arguments for it
template <typename CharT>
struct prepared
{
    using H = gf::holder<CharT>;
    using context = typename H::ctx_t;
    using args_t = basic_dynamic_format_args<context, CharT>;

    H h;
    zoo::store st;
    args_t args;
    std::basic_string<CharT> fmt;
    std::string note;

    explicit prepared(vp::source& s)
    {
        gf::builder b(s);
        b.program(5, 1, 3, 1);
        text f = b.fmt;
        if(s.chance(1, 3))
        {
            for(std::size_t n = 1 + s.small_size(3); n > 0; --n)
                mf::edit(s, f);
            mf::tame(f);
            // any integer may have become a width
            for(auto& v : b.pos)
                if(gf::is_int(v) && v.i > 5000)
                    v.i = v.i % 5000;
            for(auto& [n, v] : b.named)
                if(gf::is_int(v) && v.i > 5000)
                    v.i = v.i % 5000;
        }
        h.fill(args, b);
        note = b.note();
        for(std::size_t n = s.size(2), i = 0; i < n; ++i)
        {
            std::string id = std::to_string(args.indexed_size());
            std::string kind = zoo::with<CharT>(s, st, false, [&](const auto& x)
                                                { args.emplace(x); });
            note += " + " + kind;
            if(s.chance(3, 4))
            {
                f += U"{" + gf::ascii(id);
                switch(s.draw(6))
                {
                case 0: f += U":>12}"; break;
                case 1: f += U":L}"; break;
                case 2: f += U":?}"; break;
                default: f += U"}"; break;
                }
            }
        }
        if(f != b.fmt)
            note += " as " + vp::quote(um::enc<char>(f));
        fmt = um::enc<CharT>(f);
    }

    // the result of the call in a form that can be compared
    std::string perform(std::size_t way, std::basic_string_view<CharT> f) const
    {
        using str = std::basic_string<CharT>;
        using interpreter = basic_interpreter<context, true>;
        try
        {
            switch(way)
            {
            case 0:
            case 1: return "text " + vp::quote(PAPILIO_NS vformat(f, args));
            case 2:
                if constexpr(std::is_same_v<CharT, char> || std::is_same_v<CharT, wchar_t>)
                    return "text " + vp::quote(PAPILIO_NS vformat(the_locale(1), f, args));
                else
                    return "text " + vp::quote(PAPILIO_NS vformat(f, args));
            case 3:
            {
                str r(3, CharT('#'));
                PAPILIO_NS vformat_to(std::back_inserter(r), f, args);
                return "text " + vp::quote(r);
            }
            case 4:
            {
                str r;
                basic_format_parse_context<context> pc(f, args);
                context fc(std::back_inserter(r), args);
                basic_interpreter<context, false> intp;
                intp.format(pc, fc);
                return "text " + vp::quote(r);
            }
            default:
            {
                str r;
                basic_format_parse_context<context> pc(f, args);
                context fc(std::back_inserter(r), args);
                interpreter intp;
                intp.format(pc, fc);
                return "text " + vp::quote(r);
            }
            }
        }
        catch(const typename interpreter::extended_error& e)
        {
            std::size_t at = 0;
            auto it = utf::codepoint_begin(f), end = utf::codepoint_end(f);
            while(it != end && it != e.get_iter())
                ++it, ++at;
            return describe(e) + " at " + std::to_string(at);
        }
        catch(const std::exception& e)
        {
            return describe(e);
        }
    }

    static constexpr std::size_t ways = 6;
};

// A call made of choices only: the same choices are the same call. The format strings of all
// calls may lie at the same place.
template <typename CharT>
std::string call(vp::source& s, std::string* note)
{
    prepared<CharT> p(s);
    std::size_t way = s.draw(prepared<CharT>::ways);
    if(note)
        *note = p.note + " way " + std::to_string(way);
    if(s.boolean() || p.fmt.size() > 500)
        return p.perform(way, p.fmt);
    static thread_local CharT buffer[500];
    // (kept while it is in use by a call around this one)
    std::basic_string<CharT> outer(buffer, 500);
    std::copy(p.fmt.begin(), p.fmt.end(), buffer);
    std::string r = p.perform(way, std::basic_string_view<CharT>(buffer, p.fmt.size()));
    std::copy(outer.begin(), outer.end(), buffer);
    return r;
}

// in its own translation unit for each character type
std::string call_narrow(vp::source& s, std::string* note);
std::string call_wide(vp::source& s, std::string* note);
std::string call_utf16(vp::source& s, std::string* note);

inline std::string any_call(vp::source& s, std::string* note)
{
    switch(s.draw(4))
    {
    case 0:
    case 1: return call_narrow(s, note);
    case 2: return call_wide(s, note);
    default: return call_utf16(s, note);
    }
}

inline std::string call_again(const tape_t& t)
{
    vp::source s(t);
    return any_call(s, nullptr);
}

// Runs the functions at the same time.
inline void together(const std::vector<std::function<void()>>& fs)
{
    std::atomic<std::size_t> waiting{fs.size()};
    std::vector<std::thread> ts;
    ts.reserve(fs.size());
    for(auto& f : fs)
        ts.emplace_back([&f, &waiting]
                        {
            waiting.fetch_sub(1, std::memory_order_relaxed);
            for(int spin = 0; waiting.load(std::memory_order_relaxed) != 0; ++spin)
                if(spin > 200)
                    std::this_thread::yield();
            f(); });
    for(auto& t : ts)
        t.join();
}

// Many threads read the same format string and arguments.
template <typename CharT>
void shared(vp::source& s, vp::ctx& c)
{
    using P = prepared<CharT>;
    P p(s);
    c.note(p.note);
    std::size_t n = 2 + s.size(2);
    std::vector<std::vector<std::size_t>> plan(n);
    for(auto& x : plan)
        for(std::size_t k = 1 + s.size(4); k > 0; --k)
            x.push_back(s.draw(P::ways));
    std::vector<std::string> want;
    bool first = s.boolean(); // the calls are made in one thread first, or afterwards
    auto sequential = [&]
    {
        for(std::size_t w = 0; w < P::ways; ++w)
            want.push_back(p.perform(w, p.fmt));
    };
    if(first)
        sequential();
    std::vector<std::vector<std::string>> got(n);
    std::vector<std::function<void()>> fs;
    for(std::size_t i = 0; i < n; ++i)
        fs.push_back([&, i]
                     {
            for(std::size_t w : plan[i])
                got[i].push_back(p.perform(w, p.fmt)); });
    together(fs);
    if(!first)
        sequential();
    for(std::size_t i = 0; i < n; ++i)
        for(std::size_t k = 0; k < plan[i].size(); ++k)
            VP_CHECK(got[i][k] == want[plan[i][k]], "thread " + std::to_string(i) + " gives " + got[i][k] + ", alone it is " + want[plan[i][k]]);
    c.nontrivial_if(p.args.indexed_size() + p.args.named_size() > 0);
}
} // namespace h01

// ---- a user type whose formatter makes calls of its own
namespace h01
{
struct node;

struct piece
{
    enum kind_t
    {
        literal,
        leaf,    // a call, its result is written
        same,    // a call with the same character type that writes into the output
        child,   // another node
        guarded, // another node, whose exceptions are caught
        outer,   // arguments of the call around this one
    } kind = literal;

    std::string lit;
    tape_t tape;
    std::string want; // the result of the call made alone
    std::shared_ptr<node> sub;
    unsigned way = 0;
};

struct node
{
    std::vector<piece> pieces;
    bool fails = false;
    tape_t first;
    std::string first_want;
};

struct child_failed : std::runtime_error
{
    using runtime_error::runtime_error;
};

// collected where a formatter sees another result than expected
inline std::string& mismatch()
{
    static thread_local std::string m;
    return m;
}

inline void expect(const std::string& got, const std::string& want, const char* where)
{
    if(got != want && mismatch().empty())
        mismatch() = std::string(where) + " gives " + got + ", alone it is " + want;
}

// what the node writes; throws child_failed if it fails
inline void model(const node& n, std::string& out)
{
    for(auto& p : n.pieces)
        switch(p.kind)
        {
        case piece::literal: out += p.lit; break;
        case piece::leaf: out += p.want; break;
        case piece::same: out += "<12,  ab>"; break;
        case piece::outer: out += "42-2a"; break;
        case piece::child:
            if(p.way % 3 == 1)
            {
                std::string r;
                model(*p.sub, r);
                out += r + std::string(r.size() < 40 ? 40 - r.size() : 0, '.');
            }
            else
                model(*p.sub, out);
            break;
        case piece::guarded:
        {
            std::string r;
            try
            {
                model(*p.sub, r);
                out += r;
            }
            catch(const child_failed& e)
            {
                out += e.what();
            }
            break;
        }
        }
    if(n.fails)
        throw child_failed("failed");
}
} // namespace h01

template <typename CharT>
struct papilio::formatter<h01::node, CharT>
{
    bool pad = false;

    template <typename ParseContext>
    auto parse(ParseContext& ctx)
    {
        auto it = ctx.begin();
        if(it != ctx.end() && *it == U'p')
        {
            pad = true;
            ++it;
        }
        return it;
    }

    template <typename Context>
    auto format(const h01::node& n, Context& ctx) const
    {
        using traits = papilio::format_context_traits<Context>;
        using str = std::basic_string<CharT>;
        auto put = [&](const auto& x)
        {
            for(auto ch : x)
                traits::append(ctx, static_cast<CharT>(ch));
        };
        if(pad)
        {
            str r = call("{}", n);
            put(r);
            put(std::string(r.size() < 40 ? 40 - r.size() : 0, '.'));
            return ctx.out();
        }
        if(!n.first.empty())
            h01::expect(h01::call_again(n.first), n.first_want, "the first call in a formatter");
        for(auto& p : n.pieces)
            switch(p.kind)
            {
            case h01::piece::literal: put(p.lit); break;
            case h01::piece::leaf:
            {
                std::string got = h01::call_again(p.tape);
                h01::expect(got, p.want, "a call in a formatter");
                put(p.want);
                break;
            }
            case h01::piece::same:
            {
                str ab{CharT('a'), CharT('b')};
                if(p.way % 2)
                    into(ctx, "<{:d},{:>4}>", 12, ab);
                else
                    put(call("<{:d},{:>4}>", 12, ab));
                break;
            }
            case h01::piece::outer:
                // with the arguments of the call around this one
                put(PAPILIO_NS vformat(ascii("{0}-{0:x}"), ctx.get_args()));
                break;
            case h01::piece::child:
                if(p.way % 3 == 0)
                    into(ctx, "{}", *p.sub);
                else if(p.way % 3 == 1)
                    put(call("{:p}", *p.sub));
                else
                {
                    str name = ascii("x");
                    put(call("{x}", papilio::arg(name.c_str(), *p.sub)));
                }
                break;
            case h01::piece::guarded:
                try
                {
                    put(call("{}", *p.sub));
                }
                catch(const h01::child_failed& e)
                {
                    put(std::string(e.what()));
                }
                break;
            }
        if(n.fails)
            throw h01::child_failed("failed");
        return ctx.out();
    }

    static std::basic_string<CharT> ascii(std::string_view f) { return {f.begin(), f.end()}; }

    using own_context = papilio::basic_format_context<papilio::format_iterator_for<CharT>, CharT>;

    template <typename... Args>
    static std::basic_string<CharT> call(std::string_view f, const Args&... args)
    {
        return PAPILIO_NS vformat(ascii(f), PAPILIO_NS make_format_args<own_context>(args...));
    }

    template <typename Context, typename... Args>
    static void into(Context& ctx, std::string_view f, const Args&... args)
    {
        std::basic_string<CharT> fmt = ascii(f);
        papilio::format_context_traits<Context>::vformat_to(ctx, fmt, PAPILIO_NS make_format_args<Context>(args...));
    }
};
#endif
