// F06 - ranges, maps and tuples show every element once, in order
#ifndef F06_COMMON_HPP
#define F06_COMMON_HPP
#include "genfmt.hpp"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <queue>
#include <ranges>
#include <set>
#include <span>
#include <tuple>
#include <unordered_map>
#include <unordered_set>

using namespace papilio;

// an input range that can only be walked forward, by value
template <typename E>
struct one_way
{
    const std::vector<E>* v = nullptr;

    struct iterator
    {
        using value_type = E;
        using difference_type = std::ptrdiff_t;
        using iterator_concept = std::input_iterator_tag;
        const E *p = nullptr, *e = nullptr;

        E operator*() const { return *p; }

        iterator& operator++()
        {
            ++p;
            return *this;
        }

        void operator++(int) { ++p; }

        friend bool operator==(const iterator& i, std::default_sentinel_t) { return i.p == i.e; }
    };

    iterator begin() const { return {v->data(), v->data() + v->size()}; }

    std::default_sentinel_t end() const { return {}; }
};

// a range type of the user's, with its own separator and brackets
template <typename E>
struct framed : std::vector<E>
{
    using std::vector<E>::vector;
};

namespace papilio
{
template <typename E, typename CharT>
class formatter<framed<E>, CharT> : public range_formatter<framed<E>, CharT>
{
public:
    formatter()
    {
        this->set_separator(PAPILIO_TSTRING_VIEW(CharT, " | "));
        this->set_brackets(PAPILIO_TSTRING_VIEW(CharT, "<<"), PAPILIO_TSTRING_VIEW(CharT, ">>"));
    }
};
} // namespace papilio

namespace
{
using gf::text;

// one level of a specification
struct level
{
    char type = 0;      // range: 0 n m s ? ; tuple: 0 n m
    bool colon = false; // range: an element specification is given
    fm::spec leaf;
    std::unique_ptr<level> child;
};

struct inherit
{
    bool map_style = false; // elements of a range presented with 'm'
};

struct stats
{
    std::size_t elements = 0, depth = 0, specs = 0;
};

text escape(const text& t)
{
    text r;
    for(char32_t c : t)
        switch(c)
        {
        case U'\t': r += U"\\t"; break;
        case U'\n': r += U"\\n"; break;
        case U'\r': r += U"\\r"; break;
        case U'\\': r += U"\\\\"; break;
        case U'"': r += U"\\\""; break;
        default: r += c; break;
        }
    return r;
}

template <typename T>
struct is_pair : std::false_type
{};
template <typename A, typename B>
struct is_pair<std::pair<A, B>> : std::true_type
{};
template <typename T>
struct is_tuple : std::false_type
{};
template <typename... T>
struct is_tuple<std::tuple<T...>> : std::true_type
{};
template <typename T>
struct is_framed : std::false_type
{};
template <typename T>
struct is_framed<framed<T>> : std::true_type
{};
template <typename T>
struct is_sc : std::false_type
{};
template <typename C>
struct is_sc<utf::basic_string_container<C>> : std::true_type
{};
template <typename T>
struct is_str : std::false_type
{};
template <typename C>
struct is_str<std::basic_string<C>> : std::true_type
{};
template <typename T>
struct is_array : std::false_type
{};
template <typename T, std::size_t N>
struct is_array<std::array<T, N>> : std::true_type
{};

template <typename T>
constexpr bool is_leaf = std::is_arithmetic_v<T> || std::is_same_v<T, utf::codepoint> || is_sc<T>::value || is_str<T>::value;

template <typename T>
gf::value leaf_value(const T& v)
{
    gf::value r;
    if constexpr(std::is_same_v<T, bool>)
    {
        r.k = gf::k_bool;
        r.i = v;
    }
    else if constexpr(std::is_integral_v<T>)
    {
        r.k = gf::k_ll;
        r.i = static_cast<long long>(v);
    }
    else if constexpr(std::is_floating_point_v<T>)
    {
        r.k = std::is_same_v<T, float> ? gf::k_float : gf::k_double;
        r.f = v;
    }
    else if constexpr(std::is_same_v<T, utf::codepoint>)
    {
        r.k = gf::k_cp;
        r.c = static_cast<char32_t>(v);
    }
    else
    {
        r.k = gf::k_str;
        using C = std::remove_cvref_t<decltype(*v.data())>;
        um::dec(std::basic_string_view<C>(v.data(), v.size()), r.s);
    }
    return r;
}

template <typename T>
T gen(vp::source& s, stats& st, std::size_t depth = 0)
{
    st.depth = std::max(st.depth, depth);
    if constexpr(is_leaf<T>)
    {
        ++st.elements;
        if constexpr(std::is_same_v<T, bool>)
            return s.boolean();
        else if constexpr(std::is_integral_v<T>)
            return depth && s.boolean() ? static_cast<T>(s.draw(8)) : fm::gen_int<T>(s);
        else if constexpr(std::is_floating_point_v<T>)
            return static_cast<T>(gf::gen_value(s, gf::k_float).f);
        else if constexpr(std::is_same_v<T, utf::codepoint>)
        {
            // unprintable characters and their escapes: F04
            char32_t c = s.chance(1, 3) ? s.pick({U'"', U'\\', U'\n', U'\'', U'{', U'}', U'[', U',', U' '}) : s.boolean() ? static_cast<char32_t>(s.range(0x20, 0x7E)) :
                                                                                                                         s.pick({U'\xC4', U'\x3A9', U'\x4E00', U'\x1F351'});
            return utf::codepoint(c);
        }
        else
        {
            using C = typename T::value_type;
            if constexpr(is_sc<T>::value)
                return T(um::enc<typename T::char_type>(um::gen_text(s, 6)));
            else
                return T(um::enc<C>(um::gen_text(s, 6)));
        }
    }
    else if constexpr(is_pair<T>::value)
    {
        auto a = gen<std::remove_cvref_t<typename T::first_type>>(s, st, depth + 1);
        auto b = gen<typename T::second_type>(s, st, depth + 1);
        return T(std::move(a), std::move(b));
    }
    else if constexpr(is_tuple<T>::value)
    {
        return [&]<std::size_t... I>(std::index_sequence<I...>)
        {
            return T{gen<std::tuple_element_t<I, T>>(s, st, depth + 1)...};
        }(std::make_index_sequence<std::tuple_size_v<T>>());
    }
    else if constexpr(is_array<T>::value)
    {
        T r{};
        for(auto& e : r)
            e = gen<typename T::value_type>(s, st, depth + 1);
        return r;
    }
    else
    {
        T r;
        std::size_t n = s.small_size(depth ? 4 : 9);
        std::vector<std::ranges::range_value_t<T>> v;
        for(std::size_t i = 0; i < n; ++i)
        {
            if constexpr(requires { typename T::mapped_type; })
                r.insert({gen<typename T::key_type>(s, st, depth + 1), gen<typename T::mapped_type>(s, st, depth + 1)});
            else if constexpr(requires { typename T::key_type; })
                r.insert(gen<typename T::key_type>(s, st, depth + 1));
            else if constexpr(requires(typename T::value_type x) { r.push_back(x); })
                r.push_back(gen<typename T::value_type>(s, st, depth + 1));
            else
                r.push_front(gen<typename T::value_type>(s, st, depth + 1));
        }
        return r;
    }
}

// whether all leaves of a 's' presentation are characters
template <typename T>
constexpr bool char_range = []
{
    if constexpr(std::ranges::range<T>)
        return std::is_same_v<std::ranges::range_value_t<T>, utf::codepoint>;
    else
        return false;
}();

// Appends a specification of T (without the colon that introduces it).
template <typename T>
std::unique_ptr<level> gen_spec(vp::source& s, text& out, stats& st, bool manual)
{
    auto l = std::make_unique<level>();
    if constexpr(is_leaf<T>)
    {
        using V = T;
        unsigned f = fm::f_width;
        std::u32string_view types;
        if constexpr(std::is_same_v<V, bool>)
            types = U"sdxb";
        else if constexpr(std::is_integral_v<V>)
        {
            f |= fm::f_sign | fm::f_alt | fm::f_zero;
            types = U"dbBxX";
        }
        else if constexpr(std::is_floating_point_v<V>)
        {
            f |= fm::f_sign | fm::f_zero | fm::f_precision;
            types = U"fFeEgGaA";
        }
        else if constexpr(std::is_same_v<V, utf::codepoint>)
            types = U"cdxX";
        else
        {
            f |= fm::f_precision;
            types = U"s";
        }
        l->leaf = fm::gen(s, f, types, 12);
        l->leaf.manual = manual;
        text t = fm::spec_text(l->leaf);
        st.specs += !t.empty();
        out += t;
    }
    else if constexpr(is_pair<T>::value || is_tuple<T>::value)
    {
        switch(s.draw(3))
        {
        case 0: break;
        case 1: l->type = 'n'; break;
        default:
            if constexpr(std::tuple_size_v<T> == 2)
                l->type = 'm';
            else
                l->type = 'n';
            break;
        }
        if(l->type)
        {
            out += static_cast<char32_t>(l->type);
            ++st.specs;
        }
    }
    else
    {
        using E = std::remove_cvref_t<std::ranges::range_value_t<T>>;
        switch(s.draw(4))
        {
        case 0: break;
        case 1: l->type = 'n'; break;
        case 2:
            if constexpr(is_leaf<E> || is_pair<E>::value)
                l->type = 'm';
            break;
        default:
            if constexpr(char_range<T>)
                l->type = s.boolean() ? 's' : '?';
            break;
        }
        if(l->type == '?')
            out += U"?s";
        else if(l->type)
            out += static_cast<char32_t>(l->type);
        st.specs += l->type != 0;
        if(s.chance(2, 3) && l->type != 's' && l->type != '?')
        {
            l->colon = true;
            out += U':';
            l->child = gen_spec<E>(s, out, st, manual);
        }
        else
            l->child = std::make_unique<level>();
    }
    return l;
}

template <typename T>
std::unique_ptr<level> no_spec()
{
    auto l = std::make_unique<level>();
    if constexpr(!is_leaf<T> && !is_pair<T>::value && !is_tuple<T>::value)
        l->child = no_spec<std::remove_cvref_t<std::ranges::range_value_t<T>>>();
    return l;
}

template <typename T>
text render(const level& l, const T& v, inherit in);

template <typename Tp>
text render_tuple(const level& l, const Tp& v, inherit in)
{
    bool bare = l.type == 'n' || l.type == 'm' || in.map_style;
    text sep = l.type == 'm' || in.map_style ? U": " : U", ";
    text r = bare ? U"" : U"(";
    bool first = true;
    std::apply(
        [&](const auto&... e)
        {
            ((r += first ? U"" : sep, first = false, r += render(*no_spec<std::remove_cvref_t<decltype(e)>>(), e, {})), ...);
        },
        v
    );
    return bare ? r : r + U")";
}

template <typename T, typename R>
text render_range(const level& l, const R& v)
{
    using E = std::remove_cvref_t<std::ranges::range_value_t<R>>;
    text r;
    if(l.type == 's' || l.type == '?')
    {
        if constexpr(char_range<R>)
            for(auto&& c : v)
                r += static_cast<char32_t>(c);
        return l.type == '?' ? escape(r) : r;
    }
    bool map_brackets = l.type == 'm' || requires { typename R::key_type; };
    text open = map_brackets ? U"{" : U"[", close = map_brackets ? U"}" : U"]";
    text sep = U", ";
    if(is_framed<R>::value)
    {
        sep = U" | ";
        if(l.type != 'm')
            open = U"<<", close = U">>";
    }
    if(l.type == 'n')
        open = close = U"";
    r = open;
    bool first = true;
    std::unique_ptr<level> none;
    if(!l.colon)
        none = no_spec<E>();
    for(auto&& e : v)
    {
        if(!first)
            r += sep;
        first = false;
        r += render<E>(none ? *none : *l.child, e, {l.type == 'm'});
    }
    return r + close;
}

template <typename T>
text render(const level& l, const T& v, inherit in)
{
    if constexpr(is_leaf<T>)
    {
        auto val = leaf_value(v);
        if(val.k == gf::k_cp && l.leaf.type != 0 && l.leaf.type != U'c')
        {
            val.k = gf::k_ll;
            val.i = static_cast<long long>(val.c);
        }
        return gf::print(l.leaf, val);
    }
    else if constexpr(is_pair<T>::value || is_tuple<T>::value)
        return render_tuple(l, v, in);
    else
        return render_range<T>(l, v);
}

#define RULE_F06 "at least two elements or a specification given"

// the deepest leaf specification
inline const fm::spec& leaf_of(const level& l)
{
    const level* p = &l;
    while(p->child)
        p = p->child.get();
    return p->leaf;
}

template <typename CharT, typename T, typename V>
void check_value(vp::source& s, vp::ctx& c, const V& v, const T& model, stats& st)
{
    bool manual = s.boolean();
    text f;
    std::unique_ptr<level> l;
    if(s.chance(1, 6))
    {
        l = no_spec<T>();
        if(s.boolean())
            f = U":";
    }
    else
    {
        f = U":";
        l = gen_spec<T>(s, f, st, manual);
    }
    f = (manual ? U"<{0" : U"<{") + f + U"}>";
    text want = U"<" + render<T>(*l, model, {}) + U">";
    c.note(std::string(um::tname<CharT>()) + " " + vp::quote(um::enc<char>(f)) + " expects " + vp::quote(um::enc<char>(want)));
    c.nontrivial_if(st.elements >= 2 || st.specs);
    if(st.elements == 0)
        c.tag("empty");
    if(st.depth > 1)
        c.tag("nested");
    if(st.specs)
        c.tag("with specification");
    auto got = fm::call<CharT>(f, leaf_of(*l), v);
    fm::expect(got, want, "wrong text");
}

template <typename CharT, typename T>
void one(vp::source& s, vp::ctx& c)
{
    stats st;
    T v = gen<T>(s, st);
    c.tag("kind " + std::string(is_pair<T>::value || is_tuple<T>::value ? "tuple" : requires { typename T::mapped_type; } ? "map" : requires { typename T::key_type; } ? "set" : "sequence"));
    if(s.chance(1, 4))
    {
        // as a constant, which is captured in another way
        const T& k = v;
        check_value<CharT, T>(s, c, k, v, st);
    }
    else
        check_value<CharT, T>(s, c, v, v, st);
}

template <typename CharT, typename... Ts>
void one_of(vp::source& s, vp::ctx& c)
{
    std::size_t i = s.draw(sizeof...(Ts)), k = 0;
    ((k++ == i ? one<CharT, Ts>(s, c) : void()), ...);
}

template <typename T, typename V>
T collect(const V& v)
{
    T r;
    for(auto&& x : v)
        r.push_back(x);
    return r;
}

template <typename CharT>
void views(vp::source& s, vp::ctx& c)
{
    stats st;
    auto v = gen<std::vector<long long>>(s, st);
    c.tag("kind view");
    switch(s.draw(7))
    {
    case 0:
    {
        one_way<long long> w{&v};
        return check_value<CharT, std::vector<long long>>(s, c, w, collect<std::vector<long long>>(w), st);
    }
    case 1:
    {
        std::span<const long long> w(v);
        return check_value<CharT, std::vector<long long>>(s, c, w, collect<std::vector<long long>>(w), st);
    }
    case 2:
    {
        auto w = v | std::views::transform([](long long x)
                                           { return x ^ 1; });
        return check_value<CharT, std::vector<long long>>(s, c, w, collect<std::vector<long long>>(w), st);
    }
    case 3:
    {
        auto w = v | std::views::reverse;
        return check_value<CharT, std::vector<long long>>(s, c, w, collect<std::vector<long long>>(w), st);
    }
    case 4:
    {
        auto w = std::views::iota(static_cast<int>(s.range(-3, 3)), static_cast<int>(s.range(4, 9)));
        return check_value<CharT, std::vector<int>>(s, c, w, collect<std::vector<int>>(w), st);
    }
    case 5:
    {
        std::map<int, long long> m;
        for(auto x : v)
            m[static_cast<int>(x % 100)] = x;
        auto w = m | std::views::values;
        return check_value<CharT, std::vector<long long>>(s, c, w, collect<std::vector<long long>>(w), st);
    }
    default:
    {
        auto w = v | std::views::take(static_cast<std::ptrdiff_t>(s.draw(4)));
        return check_value<CharT, std::vector<long long>>(s, c, w, collect<std::vector<long long>>(w), st);
    }
    }
}

// a range joined by a separator: the elements and nothing else
template <typename CharT, typename T>
void joined(vp::source& s, vp::ctx& c)
{
    stats st;
    T v = gen<T>(s, st);
    using E = std::remove_cvref_t<std::ranges::range_value_t<T>>;
    text f, want = U"<";
    bool manual = s.boolean();
    std::unique_ptr<level> l = no_spec<E>();
    if(s.chance(3, 4))
    {
        f = U":";
        l = gen_spec<E>(s, f, st, manual);
    }
    f = (manual ? U"<{0" : U"<{") + f + U"}>";
    bool own = s.boolean();
    text sep = own ? um::gen_text(s, 4) : text(U", ");
    bool first = true;
    for(auto&& e : v)
    {
        if(!first)
            want += sep;
        first = false;
        want += render<E>(*l, e, {});
    }
    want += U">";
    c.note(std::string(um::tname<CharT>()) + " joined by " + vp::quote(um::enc<char>(sep)) + " " + vp::quote(um::enc<char>(f)) + " expects " + vp::quote(um::enc<char>(want)));
    c.nontrivial_if(st.elements >= 2 && st.specs);
    um::exact<CharT> se(um::enc<CharT>(sep));
    if(own)
        fm::expect(fm::call<CharT>(f, leaf_of(*l), join(v, se.view())), want, "wrong text");
    else
        fm::expect(fm::call<CharT>(f, leaf_of(*l), join<CharT>(v)), want, "wrong text");
}
} // namespace
#endif
