// A01 - index, slice and attribute access
#ifndef A01_COMMON_HPP
#define A01_COMMON_HPP
#include "genfmt.hpp"
#include <papilio/papilio.hpp>
#include <papilio/accessor/chrono.hpp>
#include <papilio/accessor/misc.hpp>
#include <papilio/formatter/chrono.hpp>
#include <papilio/formatter/misc.hpp>
#include <array>
#include <expected>
#include <map>
#include <optional>
#include <span>
#include <tuple>
#include <typeindex>
#include <variant>
#include <vector>

using namespace papilio;
using gf::text;

#define RULE_A01 "at least two accesses, or an access outside of the value"
#define RULE_TEXT "a slice, or an index, that is not simply in range; or at least two accesses"

// what an access leads to
enum outcome
{
    o_value,    // a part: formatting it gives its text
    o_empty,    // no such part: cannot be formatted
    o_no_index, // this kind of index is not available
    o_no_attr,  // no such attribute
};

// positions around the interesting ones of a sequence of n elements
inline long long gen_pos(vp::source& s, std::size_t n)
{
    long long len = static_cast<long long>(n);
    switch(s.draw(16))
    {
    case 0: return s.pick({0x7FFFFFFFFFFFFFFEll, 0x7FFFFFFFFFFFFFFFll, -0x7FFFFFFFFFFFFFFFll, 0x7FFFFFFFll, 0x80000000ll, -0x80000000ll, -0x80000001ll, 0x100000000ll, -0x100000000ll, 0x100000001ll, 256ll, -256ll});
    case 1: return len;
    case 2: return -len - 1;
    case 3: return s.range(-len - 4, len + 4);
    case 4: return -len;
    default: return n ? s.range(-len, len - 1) : s.range(-1, 0);
    }
}

inline text pos_text(vp::source& s, long long v)
{
    if(v == 0 && s.chance(1, 8))
        return U"-0";
    text t = gf::num(v);
    if(v > 0 && s.chance(1, 16))
        t.insert(0, 1, U'0');
    return t;
}

struct slice
{
    std::size_t a, b; // in range, a <= b
    bool plain;       // written with positions in range
};

// writes "[x:y]", gives what it selects among n elements
inline slice gen_slice(vp::source& s, std::size_t n, text& path)
{
    long long len = static_cast<long long>(n);
    long long a = 0, b = len;
    bool plain = true;
    path += U'[';
    if(s.chance(3, 4))
    {
        a = gen_pos(s, n);
        path += pos_text(s, a);
    }
    path += U':';
    if(s.chance(3, 4))
    {
        b = gen_pos(s, n);
        path += pos_text(s, b);
    }
    path += U']';
    auto clamp = [&](long long v)
    {
        if(v > len || v < -len)
            plain = false;
        return v > len ? len : v >= 0 ? v : v < -len ? 0 : len + v;
    };
    a = clamp(a);
    b = clamp(b);
    if(b <= a)
    {
        plain = plain && a == b;
        b = a;
    }
    return {static_cast<std::size_t>(a), static_cast<std::size_t>(b), plain};
}

inline text quote_key(vp::source& s, const text& t)
{
    text r = U"'";
    for(char32_t ch : t)
    {
        if(ch == U'\'' || ch == U'\\')
            r += U'\\';
        if(ch == U'\n' && s.boolean())
            r += U"\\n";
        else if(ch == U'\t' && s.boolean())
            r += U"\\t";
        else
            r += ch;
    }
    return r + U"'";
}

// a type of the harness: gives views of itself
template <typename CharT>
struct widget
{
    CharT name[4] = {};
    int values[2] = {};
    std::string large = std::string(40, 'w'); // not stored inside of an argument
};

template <typename CharT>
struct small_widget
{
    CharT name[3] = {};
    int value = 0;
};

template <typename CharT, typename Context>
struct papilio::accessor<widget<CharT>, Context>
{
    using arg = papilio::basic_format_arg<Context>;

    static arg index(const widget<CharT>& w, papilio::ssize_t i)
    {
        return i >= 0 && i < 2 ? arg(w.values[i]) : arg();
    }

    static arg index(const widget<CharT>& w, papilio::index_range r)
    {
        // reports what it was given
        return arg(static_cast<long long>(r.first * 1000 + (r.second == papilio::index_range::npos ? 999 : r.second)));
    }

    static arg index(const widget<CharT>& w, std::basic_string_view<CharT> k)
    {
        return arg(k.size());
    }

    static arg attribute(const widget<CharT>& w, const papilio::basic_attribute_name<CharT>& attr)
    {
        if(attr == PAPILIO_TSTRING_VIEW(CharT, "name"))
            return std::basic_string_view<CharT>(w.name, 4);
        if(attr == PAPILIO_TSTRING_VIEW(CharT, "values"))
            return std::span<const int>(w.values);
        papilio::throw_invalid_attribute(attr);
    }
};

template <typename CharT, typename Context>
struct papilio::accessor<small_widget<CharT>, Context>
{
    using arg = papilio::basic_format_arg<Context>;

    static arg attribute(const small_widget<CharT>& w, const papilio::basic_attribute_name<CharT>& attr)
    {
        if(attr == PAPILIO_TSTRING_VIEW(CharT, "name"))
            return std::basic_string_view<CharT>(w.name, 3);
        if(attr == PAPILIO_TSTRING_VIEW(CharT, "value"))
            return w.value;
        papilio::throw_invalid_attribute(attr);
    }
};

template <typename T>
inline constexpr bool is_std_array = false;
template <typename T, std::size_t N>
inline constexpr bool is_std_array<std::array<T, N>> = true;
template <typename T>
inline constexpr bool is_span = false;
template <typename T>
inline constexpr bool is_span<std::span<T>> = true;
template <typename T>
inline constexpr bool is_vbool = std::is_same_v<T, std::vector<bool>>;
template <typename T>
inline constexpr bool is_seq = is_span<T>;
template <typename T, typename A>
inline constexpr bool is_seq<std::vector<T, A>> = true;
template <typename T, std::size_t N>
inline constexpr bool is_seq<std::array<T, N>> = true;
template <typename T, std::size_t N>
inline constexpr bool is_seq<papilio::fixed_vector<T, N>> = true;
template <typename T, std::size_t N, typename A>
inline constexpr bool is_seq<papilio::small_vector<T, N, A>> = true;
template <typename T>
inline constexpr std::size_t fixed_capacity = 0;
template <typename T, std::size_t N>
inline constexpr std::size_t fixed_capacity<papilio::fixed_vector<T, N>> = N;
template <typename T>
inline constexpr bool is_tup = false;
template <typename... Ts>
inline constexpr bool is_tup<std::tuple<Ts...>> = true;
template <typename A, typename B>
inline constexpr bool is_tup<std::pair<A, B>> = true;
template <typename A, typename B>
inline constexpr bool is_tup<papilio::compressed_pair<A, B>> = true;
template <typename T>
inline constexpr bool is_opt = false;
template <typename T>
inline constexpr bool is_opt<std::optional<T>> = true;
template <typename T>
inline constexpr bool is_exp = false;
template <typename T, typename E>
inline constexpr bool is_exp<std::expected<T, E>> = true;
template <typename T>
inline constexpr bool is_var = false;
template <typename... Ts>
inline constexpr bool is_var<std::variant<Ts...>> = true;
template <typename T>
inline constexpr bool is_map = false;
template <typename K, typename V, typename C, typename A>
inline constexpr bool is_map<std::map<K, V, C, A>> = true;
template <typename K, typename V, std::size_t N, typename C>
inline constexpr bool is_map<papilio::fixed_flat_map<K, V, N, C>> = true;

template <typename C>
inline constexpr int map_order = 0; // 1 ascending, -1 descending
template <typename T>
inline constexpr int map_order<std::less<T>> = 1;
template <typename T>
inline constexpr int map_order<std::greater<T>> = -1;

struct odd_first
{
    bool operator()(int a, int b) const
    {
        bool x = a % 2 == 0, y = b % 2 == 0;
        return x != y ? x < y : a < b;
    }
};

template <typename CharT>
struct accesses
{
    using str = std::basic_string<CharT>;
    using view = std::basic_string_view<CharT>;

    vp::source& s;
    text path{};
    text want{};
    outcome o = o_value;
    unsigned steps = 0;
    bool outside = false;

    template <typename T>
    static constexpr bool is_text = std::is_same_v<T, str> || std::is_same_v<T, view> || std::is_same_v<T, text>;

    template <typename T>
    static constexpr bool simple = std::is_arithmetic_v<T> || std::is_same_v<T, utf::codepoint> || is_text<T>;

    // arguments of these types are kept inside of the argument (see the known finding)
    template <typename T>
    static constexpr bool inlined = !simple<T> && !is_span<T> && std::is_nothrow_copy_constructible_v<T> && std::is_nothrow_move_constructible_v<T> && sizeof(T) <= 24;

    template <typename T>
    static text show(const T& v)
    {
        if constexpr(std::is_same_v<T, bool>)
            return v ? U"true" : U"false";
        else if constexpr(std::is_same_v<T, utf::codepoint>)
            return text(1, static_cast<char32_t>(v));
        else if constexpr(std::is_integral_v<T>)
            return gf::ascii(std::to_string(v));
        else if constexpr(std::is_floating_point_v<T>)
            return gf::float_digits(v, 0, 0);
        else if constexpr(std::is_same_v<T, text>)
            return v;
        else if constexpr(is_text<T>)
        {
            text t;
            if(!um::dec(view(v), t))
                vp::fail("a generated string is not well-formed");
            return t;
        }
        else if constexpr(is_seq<T>)
        {
            text t = U"[";
            bool first = true;
            for(auto&& e : v)
            {
                if(!first)
                    t += U", ";
                first = false;
                using E = std::ranges::range_value_t<T>;
                t += show(static_cast<const E&>(E(e)));
            }
            return t + U"]";
        }
        else
            static_assert(!sizeof(T));
    }

    // can be the end of a chain
    template <typename T>
    static constexpr bool printable()
    {
        if constexpr(simple<T>)
            return true;
        else if constexpr(is_seq<T>)
            return std::is_arithmetic_v<std::ranges::range_value_t<T>>;
        else
            return false;
    }

    void end(outcome out)
    {
        o = out;
        outside = true;
        // whatever follows is not reached, unless the result is only empty
        if(out != o_empty)
        {
            if(s.boolean())
                path += s.pick<text>({U"[0]", U".size", U"['k']", U"[1:2]"});
            return;
        }
        if(s.chance(1, 4))
        {
            ++steps;
            if(s.boolean())
            {
                path += s.pick<text>({U"[0]", U"['k']", U"[1:2]", U"[-1]"});
                o = o_no_index;
            }
            else
            {
                path += s.pick<text>({U".size", U".value"});
                o = o_no_attr;
            }
        }
    }

    template <typename T>
    void stop(const T& v)
    {
        o = o_value;
        want = show(v);
    }

    void bad_attribute()
    {
        path += U'.';
        path += s.pick<text>({U"nope", U"Size", U"sizes", U"siz", U"valu", U"_", U"firs", U"\u4E00", U"lengthy"});
        end(o_no_attr);
    }

    void bad_index(bool number, bool range, bool key)
    {
        std::vector<text> t;
        if(number)
            t = {U"[0]", U"[-1]", U"[5]"};
        if(range)
            t.insert(t.end(), {U"[0:1]", U"[:]", U"[-2:]"});
        if(key)
            t.insert(t.end(), {U"['key']", U"['']"});
        if(t.empty())
            return bad_attribute();
        path += s.pick(t);
        end(o_no_index);
    }

    void attr(const char32_t* name)
    {
        path += U'.';
        path += name;
    }

    template <typename T>
    void go(const T& v, unsigned depth = 0)
    {
        if constexpr(printable<T>())
        {
            constexpr bool last = simple<T> && !is_text<T>; // no access is available
            if(depth > 0 && (depth > 5 || (last ? !s.chance(1, 10) : s.chance(1, 3))))
                return stop(v);
        }
        ++steps;
        if(s.chance(1, 20))
            return s.boolean() ? bad_attribute() : bad<T>();
        if constexpr(is_text<T>)
            go_text(show(v), depth);
        else if constexpr(simple<T>)
            s.boolean() ? bad_attribute() : bad_index(true, true, true);
        else if constexpr(is_vbool<T> || is_seq<T>)
            go_seq(v, depth);
        else if constexpr(is_tup<T>)
            go_tuple(v, depth);
        else if constexpr(is_map<T>)
            go_map(v, depth);
        else if constexpr(is_opt<T>)
        {
            if(s.chance(1, 4))
            {
                attr(U"has_value");
                return go(v.has_value(), depth + 1);
            }
            attr(U"value");
            if(!v)
                return end(o_empty);
            go(*v, depth + 1);
        }
        else if constexpr(is_exp<T>)
        {
            switch(s.draw(3))
            {
            case 0: attr(U"has_value"); return go(v.has_value(), depth + 1);
            case 1:
                attr(U"value");
                if(!v)
                    return end(o_empty);
                return go(*v, depth + 1);
            default:
                attr(U"error");
                if(v)
                    return end(o_empty);
                return go(v.error(), depth + 1);
            }
        }
        else if constexpr(is_var<T>)
            go_variant(v, depth);
        else if constexpr(std::is_same_v<T, std::tm>)
        {
            static const std::pair<const char32_t*, int std::tm::*> members[] = {{U"month", &std::tm::tm_mon}, {U"mday", &std::tm::tm_mday}, {U"hour", &std::tm::tm_hour}, {U"min", &std::tm::tm_min}, {U"sec", &std::tm::tm_sec}, {U"wday", &std::tm::tm_wday}, {U"yday", &std::tm::tm_yday}};
            std::size_t i = s.draw(std::size(members) + 2);
            if(i < std::size(members))
            {
                attr(members[i].first);
                return go(v.*members[i].second, depth + 1);
            }
            if(i == std::size(members))
            {
                attr(U"year");
                return go(v.tm_year + 1900ll, depth + 1);
            }
            attr(U"is_dst");
            go(v.tm_isdst != 0, depth + 1);
        }
        else if constexpr(std::is_same_v<T, std::type_index>)
        {
            if(s.boolean())
            {
                attr(U"hash_code");
                return go(v.hash_code(), depth + 1);
            }
            attr(U"name");
            std::string n = v.name();
            stop(text(n.begin(), n.end()));
        }
        else if constexpr(std::is_same_v<T, widget<CharT>>)
        {
            switch(s.draw(5))
            {
            case 0: attr(U"name"); return go(view(v.name, 4), depth + 1);
            case 1: attr(U"values"); return go(std::span<const int>(v.values), depth + 1);
            case 2:
            {
                long long i = s.range(-2, 3);
                path += U'[' + pos_text(s, i) + U']';
                if(i < 0 || i > 1)
                    return end(o_empty);
                return go(v.values[i], depth + 1);
            }
            case 3:
            {
                long long a = 0, b = 999;
                path += U'[';
                if(s.boolean())
                    path += pos_text(s, a = s.range(-50, 50));
                path += U':';
                if(s.boolean())
                    path += pos_text(s, b = s.range(-50, 50));
                path += U']';
                return go(static_cast<long long>(a * 1000 + b), depth + 1);
            }
            default:
            {
                text k = um::gen_text(s, 5);
                path += U'[' + quote_key(s, k) + U']';
                return go(um::enc<CharT>(k).size(), depth + 1);
            }
            }
        }
        else if constexpr(std::is_same_v<T, small_widget<CharT>>)
        {
            // its text refers to itself
            if(depth == 0 && s.boolean())
            {
                attr(U"name");
                return go(view(v.name, 3), depth + 1);
            }
            attr(U"value");
            go(v.value, depth + 1);
        }
        else
            static_assert(!sizeof(T));
    }

    // an access that the type does not provide
    template <typename T>
    void bad()
    {
        if constexpr(is_text<T>)
            bad_index(false, false, true);
        else if constexpr(is_vbool<T>)
            bad_index(false, true, true);
        else if constexpr(is_seq<T>)
            bad_index(false, false, true);
        else if constexpr(is_tup<T> || is_var<T>)
            bad_index(false, true, true);
        else if constexpr(is_map<T>)
        {
            if constexpr(std::integral<typename T::key_type>)
                bad_index(false, true, true);
            else
                bad_index(true, true, false);
        }
        else if constexpr(std::is_same_v<T, widget<CharT>>)
            bad_attribute();
        else
            bad_index(true, true, true);
    }

    void go_text(const text& t, unsigned depth)
    {
        switch(s.draw(4))
        {
        case 0:
            attr(U"length");
            return go(t.size(), depth + 1);
        case 1:
            attr(U"size");
            return go(um::enc<CharT>(t).size(), depth + 1);
        case 2:
        {
            long long i = gen_pos(s, t.size());
            path += U'[' + pos_text(s, i) + U']';
            long long n = static_cast<long long>(t.size());
            bool in = i < n && i >= -n;
            outside |= !in || i < 0;
            return go(utf::codepoint(in ? t[static_cast<std::size_t>(i < 0 ? n + i : i)] : U'\0'), depth + 1);
        }
        default:
        {
            slice r = gen_slice(s, t.size(), path);
            outside |= !r.plain;
            return go(t.substr(r.a, r.b - r.a), depth + 1);
        }
        }
    }

    template <typename T>
    void go_seq(const T& v, unsigned depth)
    {
        std::size_t n = v.size();
        std::size_t what = s.draw(is_vbool<T> ? 3 : 5);
        if(what == 0)
        {
            attr(U"size");
            return go(n, depth + 1);
        }
        if(what <= 2)
        {
            long long i = gen_pos(s, n), len = static_cast<long long>(n);
            path += U'[' + pos_text(s, i) + U']';
            if(i >= len || i < -len)
                return end(o_empty);
            auto k = static_cast<std::size_t>(i < 0 ? len + i : i);
            if constexpr(is_vbool<T>)
                return go(static_cast<bool>(v[k]), depth + 1);
            else
                return go(v[k], depth + 1);
        }
        if constexpr(!is_vbool<T>)
        {
            // an inline part must not be sliced
            if constexpr(inlined<T>)
            {
                if(depth > 0)
                    throw vp::discard{"a slice of an inline part (known finding)"};
            }
            slice r = gen_slice(s, n, path);
            outside |= !r.plain;
            if(r.a == r.b)
                return end(o_empty);
            return go(std::span<const std::ranges::range_value_t<T>>(v.data() + r.a, r.b - r.a), depth + 1);
        }
    }

    template <std::size_t I = 0, typename T>
    void element(const T& v, std::size_t i, unsigned depth)
    {
        constexpr std::size_t n = std::tuple_size_v<T>;
        if constexpr(I < n)
        {
            if(i == I)
            {
                using std::get;
                using E = std::tuple_element_t<I, T>;
                if constexpr(is_std_array<std::remove_const_t<E>>)
                {
                    if constexpr(inlined<T>)
                    {
                        if(depth > 0)
                            throw vp::discard{"an array inside of an inline part (known finding)"};
                    }
                }
                return go(static_cast<const E&>(get<I>(v)), depth + 1);
            }
            return element<I + 1>(v, i, depth);
        }
    }

    template <typename T>
    void go_tuple(const T& v, unsigned depth)
    {
        constexpr std::size_t n = std::tuple_size_v<T>;
        std::size_t what = s.draw(n == 2 ? 5 : 3);
        if(what == 0)
        {
            attr(U"size");
            return go(n, depth + 1);
        }
        if(what >= 3)
        {
            attr(what == 3 ? U"first" : U"second");
            return element(v, what - 3, depth);
        }
        long long i = gen_pos(s, n), len = static_cast<long long>(n);
        path += U'[' + pos_text(s, i) + U']';
        if(i >= len || i < -len)
            return end(o_empty);
        element(v, static_cast<std::size_t>(i < 0 ? len + i : i), depth);
    }

    template <typename T>
    void go_map(const T& m, unsigned depth)
    {
        using K = typename T::key_type;
        using V = typename T::mapped_type;
        constexpr int order = map_order<typename T::key_compare>;
        std::size_t what = s.draw(8);
        if(what == 0)
        {
            attr(U"size");
            return go(static_cast<std::size_t>(std::distance(m.begin(), m.end())), depth + 1);
        }
        if(what <= 2)
        {
            attr(what == 1 ? U"min" : U"max");
            if constexpr(order == 0)
                return end(o_no_attr);
            else
            {
                if(m.begin() == m.end())
                    return end(o_empty);
                // the smallest or largest key, found by looking at all of them
                const V* best = nullptr;
                const K* bk = nullptr;
                for(auto it = m.begin(); it != m.end(); ++it)
                    if(!bk || (what == 1 ? it->first < *bk : *bk < it->first))
                    {
                        bk = &it->first;
                        best = &it->second;
                    }
                return part(*best, m, depth);
            }
        }
        if constexpr(std::integral<K>)
        {
            long long i = 0;
            std::size_t n = static_cast<std::size_t>(std::distance(m.begin(), m.end()));
            if(n && s.chance(2, 3))
                i = static_cast<long long>(std::next(m.begin(), static_cast<std::ptrdiff_t>(s.draw(n)))->first) + (s.chance(1, 3) ? s.pick({256ll, -256ll, 0x100000000ll, -0x100000000ll, 1ll, -1ll}) : 0);
            else
                i = gen_pos(s, 10);
            path += U'[' + pos_text(s, i) + U']';
            for(auto it = m.begin(); it != m.end(); ++it)
                if(std::cmp_equal(it->first, i))
                    return part(it->second, m, depth);
            return end(o_empty);
        }
        else
        {
            text k;
            std::size_t n = static_cast<std::size_t>(std::distance(m.begin(), m.end()));
            if(n && s.chance(2, 3))
            {
                um::dec(view(std::next(m.begin(), static_cast<std::ptrdiff_t>(s.draw(n)))->first), k);
                if(s.chance(1, 4))
                    k += U'x';
            }
            else
                k = um::gen_text(s, 4);
            path += U'[' + quote_key(s, k) + U']';
            str e = um::enc<CharT>(k);
            for(auto it = m.begin(); it != m.end(); ++it)
                if(it->first == e)
                    return part(it->second, m, depth);
            return end(o_empty);
        }
    }

    template <typename V, typename M>
    void part(const V& v, const M&, unsigned depth)
    {
        if constexpr(inlined<M> && is_std_array<V>)
        {
            if(depth > 0)
                throw vp::discard{"an array inside of an inline part (known finding)"};
        }
        go(v, depth + 1);
    }

    template <typename... Ts>
    void go_variant(const std::variant<Ts...>& v, unsigned depth)
    {
        std::size_t what = s.draw(4);
        if(what == 0)
        {
            attr(U"index");
            return go(v.index(), depth + 1);
        }
        if(what == 1)
        {
            attr(U"value");
            return std::visit([&](auto& x)
                              { go(x, depth + 1); }, v);
        }
        long long len = sizeof...(Ts);
        long long i = gen_pos(s, sizeof...(Ts));
        if(s.boolean())
            i = static_cast<long long>(v.index()) - (s.boolean() ? len : 0);
        path += U'[' + pos_text(s, i) + U']';
        if(i >= len || i < -len)
            return end(o_empty);
        if(static_cast<std::size_t>(i < 0 ? len + i : i) != v.index())
            return end(o_empty);
        std::visit([&](auto& x)
                   { go(x, depth + 1); }, v);
    }

    // ------------------------------------------------------------ values
    int num() { return static_cast<int>(s.range(-99, 99)); }

    str txt() { return um::enc<CharT>(um::gen_text(s, 5)); }

    template <typename T>
    T gen()
    {
        if constexpr(std::is_same_v<T, bool>)
            return s.boolean();
        else if constexpr(std::is_integral_v<T>)
            return static_cast<T>(num());
        else if constexpr(std::is_floating_point_v<T>)
            return static_cast<T>(num()) / 4;
        else if constexpr(std::is_same_v<T, utf::codepoint>)
            return utf::codepoint(um::gen_scalar(s));
        else if constexpr(std::is_same_v<T, str>)
            return txt();
        else if constexpr(is_std_array<T>)
        {
            T r{};
            for(auto& e : r)
                e = gen<std::ranges::range_value_t<T>>();
            return r;
        }
        else if constexpr(is_vbool<T> || is_seq<T>)
        {
            T r;
            std::size_t max = 6;
            if constexpr(fixed_capacity<T> != 0)
                max = fixed_capacity<T>;
            if constexpr(requires { r.push_back(gen<typename T::value_type>()); })
            {
                for(std::size_t n = s.size(std::min<std::size_t>(max, 6)); n > 0; --n)
                    r.push_back(gen<typename T::value_type>());
            }
            return r;
        }
        else if constexpr(is_tup<T>)
            return [&]<std::size_t... Is>(std::index_sequence<Is...>)
            { return T(gen<std::tuple_element_t<Is, T>>()...); }(std::make_index_sequence<std::tuple_size_v<T>>());
        else if constexpr(is_map<T>)
        {
            T r;
            for(std::size_t n = s.size(4); n > 0; --n)
            {
                auto k = gen<typename T::key_type>();
                auto v = gen<typename T::mapped_type>();
                if(r.find(k) == r.end())
                    r.insert_or_assign(k, std::move(v));
            }
            return r;
        }
        else if constexpr(is_opt<T>)
        {
            if(s.chance(1, 4))
                return std::nullopt;
            return T(gen<typename T::value_type>());
        }
        else if constexpr(is_exp<T>)
        {
            if(s.chance(1, 3))
                return T(std::unexpect, gen<typename T::error_type>());
            return T(gen<typename T::value_type>());
        }
        else if constexpr(is_var<T>)
            return gen_variant<T>();
        else if constexpr(std::is_same_v<T, std::tm>)
        {
            std::tm t{};
            t.tm_year = s.chance(1, 4) ? s.pick({std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), -1900}) : static_cast<int>(s.range(-2000, 300));
            t.tm_mon = static_cast<int>(s.range(0, 11));
            t.tm_mday = static_cast<int>(s.range(1, 31));
            t.tm_hour = static_cast<int>(s.range(0, 23));
            t.tm_min = static_cast<int>(s.range(0, 59));
            t.tm_sec = static_cast<int>(s.range(0, 60));
            t.tm_wday = static_cast<int>(s.range(0, 6));
            t.tm_yday = static_cast<int>(s.range(0, 365));
            t.tm_isdst = static_cast<int>(s.range(-1, 1));
            return t;
        }
        else if constexpr(std::is_same_v<T, std::type_index>)
            return s.boolean() ? typeid(int) : typeid(std::vector<double>);
        else if constexpr(std::is_same_v<T, widget<CharT>>)
        {
            T r;
            for(auto& ch : r.name)
                ch = static_cast<CharT>('a' + s.draw(26));
            for(auto& x : r.values)
                x = num();
            return r;
        }
        else if constexpr(std::is_same_v<T, small_widget<CharT>>)
        {
            T r;
            for(auto& ch : r.name)
                ch = static_cast<CharT>('a' + s.draw(26));
            r.value = num();
            return r;
        }
        else
            static_assert(!sizeof(T));
    }

    template <typename T>
    T gen_variant()
    {
        T r;
        std::size_t k = s.draw(std::variant_size_v<T>);
        [&]<std::size_t... Is>(std::index_sequence<Is...>)
        {
            ((Is == k ? (r.template emplace<Is>(gen<std::variant_alternative_t<Is, T>>()), 0) : 0), ...);
        }(std::make_index_sequence<std::variant_size_v<T>>());
        return r;
    }
};

// Formats "<x{ARG path}y>" and compares with the outcome.
template <typename CharT, typename F>
void judge(vp::ctx& c, const accesses<CharT>& a, const text& fmt, F&& f)
{
    static const char* names[] = {"value", "empty", "no index", "no attribute"};
    c.note(vp::quote(um::enc<char>(fmt)));
    c.tag(names[a.o]);
    c.tag("steps " + std::to_string(a.steps > 5 ? 5u : a.steps));
    std::basic_string<CharT> got;
    std::string what;
    int threw = 0; // 1 format_error 2 invalid_attribute 3 runtime_error 4 other
    try
    {
        got = f();
    }
    catch(const format_error& e)
    {
        threw = 1;
        what = e.what();
    }
    catch(const basic_invalid_attribute<CharT>& e)
    {
        threw = 2;
        what = e.what();
        text t;
        auto n = e.name().name();
        if(!um::dec(static_cast<std::basic_string_view<CharT>>(n), t) || fmt.find(U"." + t) == text::npos)
            vp::fail("the exception names another attribute: " + um::enc<char>(t));
    }
    catch(const std::runtime_error& e)
    {
        threw = 3;
        what = e.what();
    }
    catch(const std::exception& e)
    {
        threw = 4;
        what = e.what();
    }
    switch(a.o)
    {
    case o_value:
        if(threw)
            vp::fail("threw " + what + ", expected " + vp::quote(um::enc<char>(a.want)));
        fm::expect(got, U"<" + a.want + U">", "accessed part");
        break;
    case o_empty:
        if(threw != 1)
            vp::fail(threw ? "threw " + what + " for a part that does not exist" : "gave " + vp::quote(got) + " for a part that does not exist");
        break;
    case o_no_index:
        if(threw != 3)
            vp::fail(threw ? "threw " + what + " for an index that is not available" : "gave " + vp::quote(got) + " for an index that is not available");
        break;
    default:
        if(threw != 2)
            vp::fail(threw ? "threw " + what + " for an unknown attribute" : "gave " + vp::quote(got) + " for an unknown attribute");
        break;
    }
}

// hands a value over in one of several ways; formats
template <typename CharT, typename T>
std::basic_string<CharT> format_access(const text& fmt, unsigned how, const T& v)
{
    using ctx_t = basic_format_context<format_iterator_for<CharT>, CharT>;
    um::exact<CharT> mem(um::enc<CharT>(fmt));
    static const std::basic_string<CharT> name = um::enc<CharT>(U"val");
    switch(how)
    {
    case 0:
    case 1: return papilio::vformat(mem.view(), papilio::make_format_args<ctx_t>(v, 1, papilio::arg(name.c_str(), v)));
    default:
    {
        basic_dynamic_format_args<ctx_t, CharT> args;
        args.emplace(v);
        args.emplace(papilio::arg(name.c_str(), v));
        return papilio::vformat(mem.view(), args);
    }
    }
}

template <typename CharT, typename T>
void one(vp::source& s, vp::ctx& c)
{
    accesses<CharT> a{s};
    const T v = a.template gen<T>();
    a.go(v);
    c.nontrivial_if(a.steps > 1 || a.outside);
    unsigned ref = static_cast<unsigned>(s.draw(3));
    text fmt = (ref == 0 ? U"<{0" : ref == 1 ? U"<{" : U"<{val") + a.path + U"}>";
    unsigned how = static_cast<unsigned>(s.draw(3));
    judge<CharT>(c, a, fmt, [&]
                 { return format_access<CharT>(fmt, how, v); });
}

template <typename CharT>
void chains_seq(vp::source& s, vp::ctx& c)
{
    using str = std::basic_string<CharT>;
    using fn = void (*)(vp::source&, vp::ctx&);
    static const fn table[] = {
        one<CharT, std::vector<int>>,
        one<CharT, std::vector<str>>,
        one<CharT, std::vector<std::vector<int>>>,
        one<CharT, std::vector<bool>>,
        one<CharT, fixed_vector<int, 4>>,
        one<CharT, fixed_vector<int, 12>>,
        one<CharT, small_vector<int, 3>>,
        one<CharT, small_vector<str, 2>>,
        one<CharT, std::array<int, 3>>,
        one<CharT, std::array<str, 2>>,
        one<CharT, std::array<std::vector<int>, 2>>,
        one<CharT, std::vector<fixed_vector<int, 2>>>,
        one<CharT, int>,
        one<CharT, double>,
        one<CharT, bool>,
        one<CharT, utf::codepoint>,
    };
    table[s.draw(std::size(table))](s, c);
}

template <typename CharT>
void chains_map(vp::source& s, vp::ctx& c)
{
    using str = std::basic_string<CharT>;
    using fn = void (*)(vp::source&, vp::ctx&);
    static const fn table[] = {
        one<CharT, std::map<int, int>>,
        one<CharT, std::map<signed char, str>>,
        one<CharT, std::map<unsigned short, int>>,
        one<CharT, std::map<unsigned long long, int>>,
        one<CharT, std::map<long long, std::vector<int>, std::greater<long long>>>,
        one<CharT, std::map<int, int, std::greater<>>>,
        one<CharT, std::map<int, str, odd_first>>,
        one<CharT, std::map<str, int>>,
        one<CharT, std::map<str, std::vector<int>, std::less<>>>,
        one<CharT, std::map<str, std::map<int, str>>>,
        one<CharT, fixed_flat_map<int, int, 4>>,
        one<CharT, fixed_flat_map<str, int, 6>>,
    };
    table[s.draw(std::size(table))](s, c);
}

template <typename CharT>
void chains_other(vp::source& s, vp::ctx& c)
{
    using str = std::basic_string<CharT>;
    using fn = void (*)(vp::source&, vp::ctx&);
    static const fn table[] = {
        one<CharT, std::tuple<int, str, double>>,
        one<CharT, std::tuple<>>,
        one<CharT, std::tuple<std::vector<int>, bool>>,
        one<CharT, std::tuple<utf::codepoint>>,
        one<CharT, std::pair<int, str>>,
        one<CharT, std::pair<std::vector<int>, std::map<int, str>>>,
        one<CharT, std::pair<std::pair<int, double>, std::pair<str, bool>>>,
        one<CharT, compressed_pair<int, str>>,
        one<CharT, std::vector<std::pair<int, int>>>,
        one<CharT, std::optional<int>>,
        one<CharT, std::optional<std::vector<int>>>,
        one<CharT, std::optional<str>>,
        one<CharT, std::variant<int, str, std::vector<int>>>,
        one<CharT, std::variant<bool, double>>,
        one<CharT, std::expected<int, str>>,
        one<CharT, std::expected<std::vector<int>, int>>,
        one<CharT, std::tm>,
        one<CharT, std::type_index>,
        one<CharT, widget<CharT>>,
        one<CharT, small_widget<CharT>>,
        one<CharT, std::vector<widget<CharT>>>,
        one<CharT, std::vector<small_widget<CharT>>>,
    };
    table[s.draw(std::size(table))](s, c);
}

// texts, in every form
template <typename CharT>
void texts(vp::source& s, vp::ctx& c)
{
    accesses<CharT> a{s};
    text t = um::gen_text(s, 12);
    a.go_text(t, 0);
    a.steps += 1;
    c.nontrivial_if(a.steps > 1 || a.outside);
    unsigned ref = static_cast<unsigned>(s.draw(3));
    text fmt = (ref == 0 ? U"<{0" : ref == 1 ? U"<{" : U"<{val") + a.path + U"}>";
    unsigned how = static_cast<unsigned>(s.draw(3));
    um::exact<CharT> mem(um::enc<CharT>(t));
    judge<CharT>(c, a, fmt, [&]() -> std::basic_string<CharT>
                 {
        switch(s.draw(4))
        {
        case 0: return format_access<CharT>(fmt, how, mem.view());
        case 1: return format_access<CharT>(fmt, how, utf::basic_string_ref<CharT>(mem.view()));
        case 2: return format_access<CharT>(fmt, how, std::basic_string<CharT>(mem.view()));
        default: return format_access<CharT>(fmt, how, utf::basic_string_container<CharT>(papilio::independent, mem.view()));
        } });
}

// the interface of an argument: parts are the parts themselves, not copies
template <typename CharT>
void arguments(vp::source& s, vp::ctx& c)
{
    using ctx_t = basic_format_context<format_iterator_for<CharT>, CharT>;
    using arg_t = basic_format_arg<ctx_t>;
    using view = std::basic_string_view<CharT>;
    accesses<CharT> a{s};
    switch(s.draw(5))
    {
    case 0:
    {
        auto v = a.template gen<std::vector<std::vector<int>>>();
        long long i = gen_pos(s, v.size()), n = static_cast<long long>(v.size());
        c.note("vector[" + std::to_string(i) + "] of " + std::to_string(n));
        arg_t e = arg_t(v).index(i);
        if(i >= n || i < -n)
            {
                VP_CHECK(e.empty(), "an element outside of the vector");
                return;
            }
        c.nontrivial();
        auto k = static_cast<std::size_t>(i < 0 ? n + i : i);
        VP_CHECK(&get<std::vector<int>>(e) == &v[k], "not the element itself");
        arg_t again = e;
        VP_CHECK(&get<std::vector<int>>(again) == &v[k], "a copy of the argument refers to another element");
        VP_CHECK(get<std::size_t>(e.attribute(PAPILIO_TSTRING_VIEW(CharT, "size"))) == v[k].size(), "size of the element");
        break;
    }
    case 1:
    {
        auto v = a.template gen<std::vector<std::basic_string<CharT>>>();
        text p;
        long long f = gen_pos(s, v.size()), l = gen_pos(s, v.size()), n = static_cast<long long>(v.size());
        c.note("vector[" + std::to_string(f) + ":" + std::to_string(l) + "] of " + std::to_string(n));
        arg_t e = arg_t(v).index(index_range(f, l));
        auto clamp = [&](long long x)
        { return x > n ? n : x >= 0 ? x : x < -n ? 0 : n + x; };
        f = clamp(f);
        l = clamp(l);
        if(f >= l)
            {
                VP_CHECK(e.empty(), "an empty slice");
                return;
            }
        c.nontrivial();
        auto sp = get<std::span<const std::basic_string<CharT>>>(e);
        VP_CHECK(sp.data() == v.data() + f && sp.size() == static_cast<std::size_t>(l - f), "not the slice itself");
        VP_CHECK(get<utf::basic_string_container<CharT>>(e.index(0)).data() == v[static_cast<std::size_t>(f)].data(), "not the element of the slice");
        break;
    }
    case 2:
    {
        text t = um::gen_text(s, 10);
        um::exact<CharT> mem(um::enc<CharT>(t));
        text p;
        long long f = gen_pos(s, t.size()), l = gen_pos(s, t.size()), n = static_cast<long long>(t.size());
        c.note("text[" + std::to_string(f) + ":" + std::to_string(l) + "] of " + std::to_string(n));
        arg_t e = arg_t(mem.view()).index(index_range(f, l));
        auto clamp = [&](long long x)
        { return x > n ? n : x >= 0 ? x : x < -n ? 0 : n + x; };
        f = clamp(f);
        l = clamp(l);
        text want = f < l ? t.substr(static_cast<std::size_t>(f), static_cast<std::size_t>(l - f)) : text();
        c.nontrivial_if(f < l);
        const auto& sc = get<utf::basic_string_container<CharT>>(e);
        VP_CHECK(static_cast<view>(sc) == um::enc<CharT>(want), "text of the slice");
        VP_CHECK(get<std::size_t>(e.attribute(PAPILIO_TSTRING_VIEW(CharT, "length"))) == want.size(), "length of the slice");
        if(f < l)
            VP_CHECK(get<utf::codepoint>(e.index(-1)) == want.back(), "last character of the slice");
        break;
    }
    case 3:
    {
        auto m = a.template gen<std::map<std::basic_string<CharT>, std::vector<int>>>();
        std::basic_string<CharT> k = a.txt();
        if(!m.empty() && s.boolean())
            k = std::next(m.begin(), static_cast<std::ptrdiff_t>(s.draw(m.size())))->first;
        c.note("map[" + vp::quote(k) + "] of " + std::to_string(m.size()));
        arg_t e = arg_t(m).index(view(k));
        auto it = m.find(k);
        if(it == m.end())
            {
                VP_CHECK(e.empty(), "a key that is not there");
                return;
            }
        c.nontrivial();
        VP_CHECK(&get<std::vector<int>>(e) == &it->second, "not the mapped value itself");
        break;
    }
    default:
    {
        auto t = a.template gen<std::tuple<int, std::vector<int>, std::basic_string<CharT>>>();
        long long i = s.range(-4, 4);
        c.note("tuple[" + std::to_string(i) + "]");
        arg_t e = arg_t(t).index(i);
        if(i < -3 || i > 2)
            {
                VP_CHECK(e.empty(), "an element outside of the tuple");
                return;
            }
        c.nontrivial();
        switch(i < 0 ? i + 3 : i)
        {
        case 0: VP_CHECK(get<int>(e) == std::get<0>(t), "first element"); break;
        case 1: VP_CHECK(&get<std::vector<int>>(e) == &std::get<1>(t), "second element"); break;
        default: VP_CHECK(get<utf::basic_string_container<CharT>>(e).data() == std::get<2>(t).data(), "third element"); break;
        }
        break;
    }
    }
}
#endif
