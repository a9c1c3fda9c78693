// zoo.hpp - arguments of every kind the library can format, behind a single interface
#ifndef ZOO_HPP
#define ZOO_HPP
#include "genfmt.hpp"
#include <papilio/papilio.hpp>
#include <papilio/accessor/chrono.hpp>
#include <papilio/formatter/chrono.hpp>
#include <papilio/formatter/filesystem.hpp>
#include <papilio/formatter/misc.hpp>
#include <array>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <span>
#include <thread>
#include <tuple>
#include <typeindex>
#include <variant>

namespace zoo
{
using um::text;
using papilio::fixed_vector;
using papilio::small_vector;
namespace utf = papilio::utf;

enum class colour
{
    red = 0,
    green = 1,
    dark_blue = -3,
};

// formatter with one parsing step that understands 'x'
struct point
{
    int x = 0, y = 0;
};

// a formatter whose values are large and own memory
template <typename CharT>
struct blob
{
    std::basic_string<CharT> s;
    long pad[8] = {};
};
} // namespace zoo

template <typename CharT>
struct papilio::formatter<zoo::point, CharT>
{
    bool hex = false;

    template <typename ParseContext>
    auto parse(ParseContext& ctx)
    {
        auto it = ctx.begin();
        if(it != ctx.end() && *it == U'x')
        {
            hex = true;
            ++it;
        }
        return it;
    }

    template <typename Context>
    auto format(const zoo::point& p, Context& ctx) const
    {
        using traits = papilio::format_context_traits<Context>;
        traits::append(ctx, static_cast<CharT>(hex ? '<' : '('));
        for(char ch : std::to_string(p.x) + "," + std::to_string(p.y))
            traits::append(ctx, static_cast<CharT>(ch));
        traits::append(ctx, static_cast<CharT>(hex ? '>' : ')'));
        return ctx.out();
    }
};

template <typename CharT>
struct papilio::formatter<zoo::blob<CharT>, CharT>
{
    template <typename ParseContext, typename Context>
    auto format(const zoo::blob<CharT>& b, ParseContext& pctx, Context& ctx) const
    {
        papilio::formatter<papilio::utf::basic_string_container<CharT>, CharT> f;
        pctx.advance_to(f.parse(pctx));
        return f.format(papilio::utf::basic_string_container<CharT>(b.s), ctx);
    }
};

template <typename CharT, typename Context>
struct papilio::accessor<zoo::blob<CharT>, Context>
{
    using arg = papilio::basic_format_arg<Context>;

    static arg index(const zoo::blob<CharT>& b, papilio::ssize_t i)
    {
        return i == 0 ? arg(b.s) : arg();
    }

    static arg attribute(const zoo::blob<CharT>& b, const papilio::basic_attribute_name<CharT>& a)
    {
        if(a == PAPILIO_TSTRING_VIEW(CharT, "text"))
            return b.s;
        papilio::throw_invalid_attribute(a);
    }
};

namespace zoo
{
// keeps arguments alive, with stable addresses
struct store
{
    std::vector<std::shared_ptr<void>> kept;

    template <typename T>
    const T& keep(T v)
    {
        auto p = std::make_shared<T>(std::move(v));
        kept.push_back(p);
        return *p;
    }
};

// integers that may become a width stay small
inline long long small(vp::source& s)
{
    switch(s.draw(4))
    {
    case 0: return s.range(-3, 30);
    case 1: return s.range(-300, 300);
    case 2: return -static_cast<long long>(s.draw(0) >> (1 + s.draw(63)));
    default: return static_cast<long long>(s.draw(20));
    }
}

inline const int somewhere = 0;

inline constexpr std::size_t n_kinds = 48;

// calls f with a const reference to a random argument; the name of its kind is returned
template <typename CharT, typename F>
const char* with(vp::source& s, store& st, bool broken_text, F&& f)
{
    using str = std::basic_string<CharT>;
    using view = std::basic_string_view<CharT>;
    auto any_text = [&]() -> str
    {
        if(broken_text && s.chance(1, 2))
        {
            str r;
            for(std::size_t n = s.small_size(10); n > 0; --n)
                switch(s.draw(3))
                {
                case 0: r += um::enc<CharT>(um::gen_scalar(s)); break;
                case 1:
                {
                    str e = um::enc<CharT>(um::gen_scalar(s));
                    e.pop_back();
                    r += e;
                    break;
                }
                default: r += static_cast<CharT>(sizeof(CharT) == 1 ? s.range(0x80, 0xFF) : sizeof(CharT) == 2 ? s.range(0xD800, 0xDFFF) : s.pick<std::int64_t>({0xD800, 0xDFFF, 0x110000, 0x7FFFFFFF})); break;
                }
            return r;
        }
        return um::enc<CharT>(um::gen_text(s, 10));
    };
    auto any_unit = [&]() -> char32_t
    {
        if(broken_text && s.boolean())
            return s.boolean() ? static_cast<char32_t>(s.range(0x80, 0xFF)) : s.pick<char32_t>({0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0xFFFFFFFF});
        return um::gen_scalar(s);
    };
    auto num = [&]
    { return static_cast<int>(std::max<long long>(small(s), std::numeric_limits<int>::min())); };
    auto dbl = [&]
    { return s.pick({0.0, -0.0, 1.5, -2.25, 1e300, 5e-324, HUGE_VAL, -HUGE_VAL, std::nan(""), 3.25e10, 1.0 / 3}); };
    auto ints = [&]
    {
        std::vector<int> v;
        for(std::size_t n = s.size(4); n > 0; --n)
            v.push_back(num());
        return v;
    };
    auto filled = [&]<typename V>()
    {
        V v;
        for(std::size_t n = s.size(4); n > 0; --n)
            v.push_back(num());
        return v;
    };
    // exactly sized, so that any read outside is noticed
    auto exact = [&]() -> view
    {
        auto p = std::make_shared<um::exact<CharT>>(any_text());
        st.kept.push_back(p);
        return p->view();
    };
#define ZOO(NAME, EXPR)           \
    {                             \
        f(st.keep(EXPR));         \
        return NAME;              \
    }
    switch(s.draw(n_kinds))
    {
    case 0: ZOO("int", num())
    case 1: ZOO("unsigned", static_cast<unsigned>(s.draw(300)))
    case 2: ZOO("long long", small(s))
    case 3: ZOO("unsigned long", static_cast<unsigned long>(s.draw(300)))
    case 4: ZOO("short", static_cast<short>(s.range(-300, 300)))
    case 5: ZOO("signed char", static_cast<signed char>(s.range(-128, 127)))
    case 6: ZOO("bool", s.boolean())
    case 7: ZOO("double", dbl())
    case 8: ZOO("float", static_cast<float>(dbl()))
    case 9: ZOO("long double", static_cast<long double>(dbl()))
    case 10: ZOO("codepoint", utf::codepoint(any_unit()))
    case 11: ZOO("character", broken_text ? static_cast<CharT>(any_unit()) : static_cast<CharT>(s.draw(128)))
    case 12: ZOO("view", exact())
    case 13: ZOO("string", any_text())
    case 14: ZOO("string_ref", utf::basic_string_ref<CharT>(exact()))
    case 15: ZOO("container", utf::basic_string_container<CharT>(papilio::independent, any_text()))
    case 16:
    {
        auto p = std::make_shared<um::exact<CharT>>(um::enc<CharT>(um::gen_text(s, 6).substr(0, s.draw(7))), true);
        st.kept.push_back(p);
        f(st.keep(static_cast<const CharT*>(p->data())));
        return "pointer to text";
    }
    case 17: ZOO("pointer", static_cast<const void*>(s.boolean() ? &somewhere : nullptr))
    case 18:
    {
        f(nullptr);
        return "nullptr";
    }
    case 19: ZOO("enumeration", s.pick({colour::red, colour::green, colour::dark_blue, static_cast<colour>(77)}))
    case 20: ZOO("point", (point{num(), num()}))
    case 21: ZOO("blob", (blob<CharT>{any_text(), {}}))
    case 22: ZOO("vector<int>", ints())
    case 23: ZOO("vector<string>", (std::vector<str>{any_text(), any_text()}))
    case 24:
    {
        // (elements of an initializer list would be copied, and a copy does not own its text)
        std::vector<utf::basic_string_container<CharT>> v;
        v.reserve(2);
        v.emplace_back(any_text());
        v.emplace_back(any_text());
        ZOO("vector<container>", std::move(v))
    }
    case 25: ZOO("vector<vector<int>>", (std::vector<std::vector<int>>{ints(), ints()}))
    case 26: ZOO("vector<bool>", (std::vector<bool>{s.boolean(), s.boolean()}))
    case 27: ZOO("list<double>", (std::list<double>{dbl(), dbl()}))
    case 28: ZOO("set<int>", (std::set<int>{num(), num()}))
    case 29: ZOO("deque<codepoint>", (std::deque<utf::codepoint>{utf::codepoint(um::gen_scalar(s))}))
    case 30: ZOO("map<int,int>", (std::map<int, int>{{num(), num()}, {num(), num()}}))
    case 31: ZOO("map<string,int>", (std::map<str, int>{{CharT('1') + any_text(), num()}, {CharT('2') + any_text(), num()}}))
    case 32: ZOO("array<int>", (std::array<int, 3>{num(), num(), num()}))
    case 33: ZOO("fixed_vector<int>", (filled.template operator()<fixed_vector<int, 4>>()))
    case 34: ZOO("small_vector<int>", (filled.template operator()<small_vector<int, 2>>()))
    case 35: ZOO("pair", (std::pair<int, str>{num(), any_text()}))
    case 36: ZOO("tuple", (std::tuple<int, double, str>{num(), dbl(), any_text()}))
    case 37: ZOO("tuple<>", std::tuple<>())
    case 38: ZOO("optional<int>", s.boolean() ? std::optional<int>(num()) : std::nullopt)
    case 39: ZOO("optional<string>", s.boolean() ? std::optional<utf::basic_string_container<CharT>>(any_text()) : std::nullopt)
    case 40: ZOO("variant", (s.boolean() ? std::variant<int, utf::basic_string_container<CharT>>(num()) : std::variant<int, utf::basic_string_container<CharT>>(utf::basic_string_container<CharT>(any_text()))))
    case 41:
    {
        std::tm t{};
        t.tm_year = static_cast<int>(s.range(-100, 300));
        t.tm_mon = static_cast<int>(s.range(0, 11));
        t.tm_mday = static_cast<int>(s.range(1, 31));
        t.tm_hour = static_cast<int>(s.range(0, 23));
        t.tm_min = static_cast<int>(s.range(0, 59));
        t.tm_sec = static_cast<int>(s.range(0, 60));
        t.tm_wday = static_cast<int>(s.range(0, 6));
        t.tm_yday = static_cast<int>(s.range(0, 365));
        ZOO("tm", t)
    }
    case 42: ZOO("path", std::filesystem::path(um::enc<char8_t>(um::gen_text(s, 10))))
    case 43:
    {
        static const std::thread::id me = std::this_thread::get_id();
        ZOO("thread::id", s.boolean() ? me : std::thread::id())
    }
    case 44: ZOO("span<const double>", (std::span<const double>(st.keep(std::vector<double>{dbl(), dbl()}))))
    case 45: ZOO("joined", papilio::join(st.keep(ints()), std::basic_string_view<CharT>(st.keep(any_text()))))
    case 46:
    {
        std::vector<std::optional<int>> v;
        for(std::size_t n = s.size(3); n > 0; --n)
            v.push_back(s.boolean() ? std::optional<int>(num()) : std::nullopt);
        ZOO("joined optionals", papilio::join(st.keep(std::move(v)), std::basic_string_view<CharT>(st.keep(any_text()))))
    }
    default: ZOO("pair<vector,map>", (std::pair<std::vector<int>, std::map<int, int>>{ints(), {{num(), num()}}}))
    }
#undef ZOO
}
} // namespace zoo
#endif
