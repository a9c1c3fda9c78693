// V01 - stream and sequence helpers: every character and element exactly once, in order
#include "V01_common.hpp"

VP_FACET(written, 30000, 600000, "at least three operations and six characters")
{
    writes<char>(s, c);
}

VP_FACET(read, 20000, 400000, "at least three operations of at least two kinds (words, numbers, lines, blocks)")
{
    reads<char>(s, c);
}

VP_FACET(streamed_joins, 20000, 400000, "at least two elements")
{
    joins<char>(s, c);
}

// visiting a tuple
namespace
{
struct seen
{
    std::string log;

    template <typename T>
    void add(T&& v, const void* addr)
    {
        using U = std::remove_cvref_t<T>;
        log += std::is_lvalue_reference_v<T&&> ? "L" : "R";
        log += std::is_const_v<std::remove_reference_t<T>> ? "c" : "m";
        if constexpr(std::is_same_v<U, std::unique_ptr<int>>)
            log += "p" + (v ? std::to_string(*v) : std::string("null"));
        else if constexpr(std::is_same_v<U, std::string>)
            log += "s" + v;
        else
            log += "n" + std::to_string(v);
        log += "@" + std::to_string(reinterpret_cast<std::uintptr_t>(addr)) + ";";
    }
};

// what a visit of the parts must look like
template <bool Rvalue, typename Tuple>
std::string expect(Tuple& tp)
{
    seen w;
    auto one = [&]<std::size_t I>(std::integral_constant<std::size_t, I>)
    {
        using std::get;
        if constexpr(Rvalue)
        {
            auto&& e = get<I>(std::move(tp));
            w.add(std::forward<decltype(get<I>(std::move(tp)))>(e), std::addressof(e));
        }
        else
        {
            auto&& e = get<I>(tp);
            w.add(std::forward<decltype(get<I>(tp))>(e), std::addressof(e));
        }
    };
    [&]<std::size_t... I>(std::index_sequence<I...>)
    { (one(std::integral_constant<std::size_t, I>{}), ...); }(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<Tuple>>>());
    return w.log;
}

template <typename Tuple>
void visits(vp::source& s, vp::ctx& c, Tuple& tp, const char* name)
{
    const unsigned cat = static_cast<unsigned>(s.draw(3));
    seen w;
    auto f = [&w](auto&& v)
    { w.add(std::forward<decltype(v)>(v), std::addressof(v)); };
    std::string want;
    c.note(std::string(name) + " category " + vp::str(cat));
    if(cat == 0)
        want = expect<false>(tp), tuple_for_each(tp, f);
    else if(cat == 1)
        want = expect<false>(std::as_const(tp)), tuple_for_each(std::as_const(tp), f);
    else
        want = expect<true>(tp), tuple_for_each(std::move(tp), f);
    VP_CHECK(w.log == want, std::string(name) + ": visited " + w.log + ", expected " + want);
    // a second visit sees what the first one wrote
    std::size_t k = 0, calls = 0;
    tuple_for_each(tp, [&](auto& v)
                   {
        using U = std::remove_cvref_t<decltype(v)>;
        ++calls;
        if constexpr(std::is_same_v<U, std::string>)
            v = "w" + std::to_string(k++);
        else if constexpr(std::is_same_v<U, std::unique_ptr<int>>)
            v = std::make_unique<int>(int(k++));
        else
            v = static_cast<U>(k++); });
    VP_CHECK(calls == std::tuple_size_v<Tuple>, std::string(name) + ": number of calls");
    k = 0;
    tuple_for_each(tp, [&](const auto& v)
                   {
        using U = std::remove_cvref_t<decltype(v)>;
        if constexpr(std::is_same_v<U, std::string>)
            VP_CHECK(v == "w" + std::to_string(k), name);
        else if constexpr(std::is_same_v<U, std::unique_ptr<int>>)
            VP_CHECK(v && *v == int(k), name);
        else
            VP_CHECK(v == static_cast<U>(k), name);
        ++k; });
}
} // namespace

VP_FACET(tuple_visits, 20000, 400000, "a tuple of at least two elements")
{
    std::string t = um::enc<char>(um::gen_text(s, 4));
    int a = int(s.range(-100, 100)), b = int(s.range(-100, 100));
    unsigned kind = static_cast<unsigned>(s.draw(7));
    c.tag(vp::str(kind));
    c.nontrivial_if(kind > 1);
    switch(kind)
    {
    case 0:
    {
        std::size_t calls = 0;
        tuple_for_each(std::tuple<>(), [&](auto&&...)
                       { ++calls; });
        VP_CHECK(calls == 0, "empty tuple");
        break;
    }
    case 1:
    {
        std::tuple<int> x(a);
        visits(s, c, x, "tuple<int>");
        break;
    }
    case 2:
    {
        std::tuple<int, std::string, double, char> x(a, t, b / 4.0, 'c');
        visits(s, c, x, "tuple of four");
        break;
    }
    case 3:
    {
        std::pair<std::string, int> x(t, a);
        visits(s, c, x, "pair");
        break;
    }
    case 4:
    {
        std::array<int, 5> x{a, b, a + b, a - b, 0};
        visits(s, c, x, "array");
        break;
    }
    case 5:
    {
        std::tuple<std::unique_ptr<int>, std::unique_ptr<int>> x(std::make_unique<int>(a), nullptr);
        visits(s, c, x, "tuple of pointers");
        // moving out of an rvalue tuple takes every part once
        std::vector<std::unique_ptr<int>> got;
        tuple_for_each(std::move(x), [&](std::unique_ptr<int>&& p)
                       { got.push_back(std::move(p)); });
        VP_CHECK(got.size() == 2 && got[0] && *got[0] == 0 && got[1] && *got[1] == 1 && !std::get<0>(x) && !std::get<1>(x), "moving out of a tuple");
        break;
    }
    default:
    {
        std::string u = t;
        std::tuple<std::string&, int&> x(u, a);
        std::size_t k = 0;
        tuple_for_each(x, [&](auto& v)
                       {
            if constexpr(std::is_same_v<std::remove_cvref_t<decltype(v)>, std::string>)
                VP_CHECK(&v == &u && k == 0, "tuple of references");
            else
                VP_CHECK(&v == &a && k == 1, "tuple of references");
            ++k; });
        VP_CHECK(k == 2, "tuple of references");
        break;
    }
    }
}

// index ranges against arithmetic on wide integers
VP_FACET(index_ranges, 40000, 800000, "a negative bound or an open end")
{
    auto bound = [&]() -> ssize_t
    {
        switch(s.draw(5))
        {
        case 0: return s.range(-8, 8);
        case 1: return s.range(-100000, 100000);
        case 2: return index_range::npos;
        case 3: return s.pick({std::numeric_limits<ssize_t>::min(), std::numeric_limits<ssize_t>::min() + 1, index_range::npos - 1, ssize_t(-1), ssize_t(0)});
        default: return static_cast<ssize_t>(s.draw(~std::uint64_t(0)));
        }
    };
    ssize_t a = bound(), b = bound();
    std::size_t len = s.boolean() ? s.draw(16) : s.boolean() ? s.draw(200000) : s.draw(std::size_t(std::numeric_limits<ssize_t>::max()));
    c.note(vp::str(a) + ".." + vp::str(b) + " of " + vp::str(len));
    c.nontrivial_if(a < 0 || b < 0 || b == index_range::npos);
    index_range r(a, b);
    VP_CHECK(r.begin() == a && r.end() == b && r.first == a && r.second == b, "bounds");
    index_range open(a);
    VP_CHECK(open.begin() == a && open.end() == index_range::npos, "open end");
    VP_CHECK(index_range().begin() == 0 && index_range().end() == index_range::npos, "default");
    index_range n = r.normalize(len);
    VP_CHECK(r.begin() == a && r.end() == b, "normalize() const changed the range");
    __int128 wa = a < 0 ? __int128(len) + a : __int128(a);
    __int128 wb = b < 0 ? __int128(len) + b : b == index_range::npos ? __int128(len) : __int128(b);
    VP_CHECK(__int128(n.begin()) == wa && __int128(n.end()) == wb, "normalized bounds are " + vp::str(n.begin()) + ".." + vp::str(n.end()));
    index_range m = r;
    m.normalize(std::in_place, len);
    VP_CHECK(m == n, "normalizing in place");
    if(n.begin() >= 0 && n.end() >= n.begin() && n.end() != index_range::npos)
        VP_CHECK(n.length() == std::size_t(wb - wa), "length");
    index_range o(bound(), bound());
    VP_CHECK((o == r) == (o.first == a && o.second == b) && (o != r) == !(o == r), "equality");
    o = r;
    VP_CHECK(o == r, "assignment");
}

// named arguments refer to the very object they were given, under exactly the name they were given
VP_FACET(named_arguments, 20000, 400000, "a name of at least two characters with mixed encoded lengths")
{
    auto one = [&]<typename CharT>()
    {
        using sv = std::basic_string_view<CharT>;
        um::text t = um::gen_text(s, 6);
        const std::basic_string<CharT> name = um::enc<CharT>(t);
        c.note(vp::quote(std::u32string_view(t)));
        c.nontrivial_if(t.size() >= 2 && um::mixed(t));
        std::string v = um::enc<char>(um::gen_text(s, 4));
        auto same = [&](const auto& a, auto* obj, bool temp, const char* what)
        {
            VP_CHECK(a.name == sv(name) && a.name.data() == name.data(), what);
            VP_CHECK(std::addressof(a.get()) == obj && std::addressof(a.value) == obj && a.is_temporary() == temp, what);
            auto copy = a;
            VP_CHECK(copy.name.data() == name.data() && std::addressof(copy.get()) == obj && copy.is_temporary() == temp, what);
            VP_CHECK(is_named_arg_v<std::remove_cvref_t<decltype(a)>>, what);
        };
        same(arg(sv(name), v), &v, false, "lvalue");
        same(arg(sv(name), std::as_const(v)), &std::as_const(v), false, "const lvalue");
        same(arg(sv(name), std::move(v)), &v, true, "rvalue");
        if(name.find(CharT(0)) == name.npos)
        {
            auto a = arg(name.c_str(), v);
            same(a, &v, false, "C string");
            a.get() += "!";
            VP_CHECK(v.back() == '!', "writing through get()");
            std::string& r = a;
            VP_CHECK(&r == &v, "conversion");
        }
        using namespace papilio::literals;
        auto lit = [&](const auto& a, sv expected, auto* obj, bool temp)
        { VP_CHECK(a.name == expected && std::addressof(a.get()) == obj && a.is_temporary() == temp, "literal"); };
        if constexpr(std::is_same_v<CharT, char>)
        {
            lit("x"_a = v, "x", &v, false);
            lit("na\0me"_a = std::move(v), sv("na\0me", 5), &v, true);
            lit("\u00e9t\u00e9"_a = std::as_const(v), "\u00e9t\u00e9", &std::as_const(v), false);
        }
        else
        {
            lit(L"x"_a = v, L"x", &v, false);
            lit(L"na\0me"_a = std::move(v), sv(L"na\0me", 5), &v, true);
            lit(L"\u00e9t\u00e9"_a = std::as_const(v), L"\u00e9t\u00e9", &std::as_const(v), false);
        }
        VP_CHECK(!is_named_arg_v<std::string> && !is_named_arg_v<int>, "is_named_arg");
    };
    if(s.boolean())
        one.template operator()<char>();
    else
        one.template operator()<wchar_t>();
}
