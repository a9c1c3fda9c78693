// S02 - script values compare and convert coherently
#include "genfmt.hpp"

using namespace papilio;
using gf::svalue;

namespace
{
// a value, with the C++ type it is handed over as
struct src
{
    svalue v;
    bool is_bool = false;
};

src gen(vp::source& s, const src* near = nullptr)
{
    src r;
    bool close = near && s.chance(1, 2);
    switch(close ? (near->is_bool ? 0 : near->v.k + 1) : static_cast<int>(s.draw(4)))
    {
    case 0:
        r.is_bool = true;
        r.v.i = s.boolean();
        break;
    case 1:
        r.v.i = close ? near->v.i : s.boolean() ? s.range(-3, 3) : fm::gen_int<long long>(s);
        if(close && r.v.i > std::numeric_limits<long long>::min() + 2 && r.v.i < std::numeric_limits<long long>::max() - 2)
            r.v.i += s.range(-1, 1);
        break;
    case 2:
        r.v.k = 1;
        if(close)
        {
            r.v.f = near->v.f;
            switch(s.draw(4))
            {
            case 0: r.v.f = std::nextafter(r.v.f, HUGE_VALF); break;
            case 1: r.v.f = std::nextafter(r.v.f, -HUGE_VALF); break;
            case 2: r.v.f = -r.v.f; break;
            default: break;
            }
        }
        else
            switch(s.draw(6))
            {
            case 0: r.v.f = static_cast<float>(s.range(-3, 3)); break;
            case 1: r.v.f = static_cast<float>(s.range(-8, 8)) / 4; break;
            case 2: r.v.f = s.pick({HUGE_VALF, -HUGE_VALF, std::nanf(""), 0.0f, -0.0f, 9223372036854775808.0f, -9223372036854775808.0f, 2147483648.0f, -2147483648.0f, 1e38f, 1e-40f, 4294967296.0f, 65535.5f, -0.5f, 255.5f, 256.0f, -128.5f, -129.0f}); break;
            case 3: r.v.f = std::ldexp(1.0f, static_cast<int>(s.range(-30, 66))); break;
            case 4: r.v.f = static_cast<float>(fm::gen_int<long long>(s)); break;
            default: r.v.f = std::ldexp(static_cast<float>(s.range(-100000, 100000)), static_cast<int>(s.range(-20, 50))); break;
            }
        break;
    default:
        r.v.k = 2;
        r.v.s = close ? near->v.s : um::gen_text(s, 8);
        if(close && s.boolean())
        {
            if(!r.v.s.empty() && s.boolean())
                r.v.s.pop_back();
            else
                r.v.s += um::gen_small(s);
        }
        break;
    }
    return r;
}

std::string show(const src& x)
{
    if(x.is_bool)
        return x.v.i ? "true" : "false";
    if(x.v.k == 0)
        return std::to_string(x.v.i);
    if(x.v.k == 2)
        return vp::quote(um::enc<char>(x.v.s));
    char b[64];
    std::snprintf(b, sizeof b, "%a", static_cast<double>(x.v.f));
    return b;
}

// the script value made in one of the ways there are
template <typename CharT>
basic_variable<CharT> make(vp::source& s, const src& x, gf::holder<CharT>& h)
{
    using var = basic_variable<CharT>;
    std::uint64_t way = s.draw(6);
    if(x.is_bool)
    {
        if(way == 0)
            return var(std::variant<int, bool>(x.v.i != 0));
        return var(x.v.i != 0);
    }
    if(x.v.k == 0)
    {
        long long i = x.v.i;
        switch(way)
        {
        case 0:
            if(std::in_range<int>(i))
                return var(static_cast<int>(i));
            break;
        case 1:
            if(i >= 0)
                return var(static_cast<unsigned long long>(i));
            break;
        case 2:
            if(std::in_range<signed char>(i))
                return var(static_cast<signed char>(i));
            break;
        case 3:
            if(std::in_range<unsigned short>(i))
                return var(static_cast<unsigned short>(i));
            break;
        case 4: return var(std::variant<std::basic_string<CharT>, long long>(i));
        default: break;
        }
        return var(i);
    }
    if(x.v.k == 1)
    {
        switch(way)
        {
        case 0: return var(static_cast<double>(x.v.f));
        case 1: return var(static_cast<long double>(x.v.f));
        case 2: return var(std::variant<bool, double>(static_cast<double>(x.v.f)));
        default: return var(x.v.f);
        }
    }
    switch(way)
    {
    case 0: return var(h.view(x.v.s));
    case 1: return var(h.string(x.v.s));
    case 2: return var(independent, um::enc<CharT>(x.v.s));
    case 3: return var(utf::basic_string_container<CharT>(independent, h.view(x.v.s)));
    case 4:
        if(x.v.s.size() == 1)
            return var(std::variant<int, utf::codepoint>(utf::codepoint(x.v.s[0])));
        return var(std::variant<int, std::basic_string_view<CharT>>(h.view(x.v.s)));
    default: return var(um::enc<CharT>(x.v.s)); // from a temporary
    }
}

template <typename T>
bool fits(const svalue& v)
{
    if(v.k == 0)
        return std::in_range<T>(v.i);
    long double t = std::trunc(static_cast<long double>(v.f));
    return t >= static_cast<long double>(std::numeric_limits<T>::min()) && t <= static_cast<long double>(std::numeric_limits<T>::max());
}

template <typename T, typename CharT>
void as_int(const basic_variable<CharT>& var, const svalue& v, const char* name)
{
    bool ok = v.k != 2 && fits<T>(v);
    T want{};
    if(ok)
        want = v.k == 0 ? static_cast<T>(v.i) : static_cast<T>(v.f);
    try
    {
        T got = var.template as<T>();
        VP_CHECK(ok, std::string("converted to ") + name + " although it has no such value: " + std::to_string(got));
        VP_CHECK(got == want, std::string("as ") + name + ": " + std::to_string(got) + ", expected " + std::to_string(want));
    }
    catch(const invalid_conversion&)
    {
        VP_CHECK(!ok, std::string("not converted to ") + name);
    }
}

template <typename T, typename CharT>
void as_float(const basic_variable<CharT>& var, const svalue& v, const char* name)
{
    try
    {
        T got = var.template as<T>();
        VP_CHECK(v.k != 2, std::string("text converted to ") + name);
        T want = v.k == 0 ? static_cast<T>(v.i) : static_cast<T>(v.f);
        VP_CHECK(got == want || (got != got && want != want), std::string("as ") + name);
    }
    catch(const invalid_conversion&)
    {
        VP_CHECK(v.k == 2, std::string("not converted to ") + name);
    }
}

// the value held is the one expected
template <typename CharT>
void same(const basic_variable<CharT>& var, const src& x, const std::string& what)
{
    using V = basic_variable<CharT>;
    VP_CHECK(var.holds_bool() == x.is_bool && var.template holds<bool>() == x.is_bool, what + ": holds_bool()");
    VP_CHECK(var.holds_int() == (!x.is_bool && x.v.k == 0), what + ": holds_int()");
    VP_CHECK(var.holds_float() == (x.v.k == 1), what + ": holds_float()");
    VP_CHECK(var.holds_string() == (x.v.k == 2), what + ": holds_string()");
    if(x.is_bool)
        VP_CHECK(var.template get<bool>() == (x.v.i != 0), what + ": get<bool>()");
    else if(x.v.k == 0)
        VP_CHECK(var.template get<typename V::int_type>() == x.v.i, what + ": get<int>()");
    else if(x.v.k == 1)
    {
        float f = var.template get<float>();
        VP_CHECK((f == x.v.f && std::signbit(f) == std::signbit(x.v.f)) || (f != f && x.v.f != x.v.f), what + ": get<float>()");
    }
    else
        VP_CHECK(std::basic_string_view<CharT>(var.template get<utf::basic_string_container<CharT>>()) == um::enc<CharT>(x.v.s), what + ": get<string>()");
}

template <typename CharT>
void conversions(vp::source& s, vp::ctx& c)
{
    src x = gen(s);
    gf::holder<CharT> h;
    auto var = make<CharT>(s, x, h);
    c.note(std::string(um::tname<CharT>()) + " " + show(x));
    c.nontrivial_if(x.v.k != 0 || !std::in_range<signed char>(x.v.i));
    c.tag(x.is_bool ? "boolean" : x.v.k == 0 ? "integer" :
                              x.v.k == 1     ? "number" :
                                               "text");
    same(var, x, "made");
    VP_CHECK(var.template as<bool>() == gf::truth(x.v), "as<bool>()");
    std::uint64_t probe = s.draw(14);
    switch(probe)
    {
    case 0: as_int<signed char>(var, x.v, "signed char"); break;
    case 1: as_int<unsigned char>(var, x.v, "unsigned char"); break;
    case 2: as_int<short>(var, x.v, "short"); break;
    case 3: as_int<unsigned short>(var, x.v, "unsigned short"); break;
    case 4: as_int<int>(var, x.v, "int"); break;
    case 5: as_int<unsigned>(var, x.v, "unsigned"); break;
    case 6: as_int<long long>(var, x.v, "long long"); break;
    case 7: as_int<unsigned long long>(var, x.v, "unsigned long long"); break;
    case 8: as_float<float>(var, x.v, "float"); break;
    case 9: as_float<double>(var, x.v, "double"); break;
    case 10: as_float<long double>(var, x.v, "long double"); break;
    default:
    {
        auto want = um::enc<CharT>(x.v.s);
        auto check = [&](auto tag, const char* name)
        {
            using T = typename decltype(tag)::type;
            try
            {
                T got = var.template as<T>();
                VP_CHECK(x.v.k == 2, std::string("a number converted to ") + name);
                VP_CHECK(std::basic_string_view<CharT>(got) == want, std::string("as ") + name);
            }
            catch(const invalid_conversion&)
            {
                VP_CHECK(x.v.k != 2, std::string("text not converted to ") + name);
            }
        };
        check(std::type_identity<std::basic_string<CharT>>{}, "string");
        check(std::type_identity<std::basic_string_view<CharT>>{}, "string_view");
        check(std::type_identity<utf::basic_string_container<CharT>>{}, "string_container");
        check(std::type_identity<utf::basic_string_ref<CharT>>{}, "string_ref");
        break;
    }
    }
    if(s.chance(1, 4))
    {
        // access as something else
        bool threw = false;
        try
        {
            if(x.v.k == 2)
                (void)var.template get<typename basic_variable<CharT>::int_type>();
            else
                (void)var.template get<utf::basic_string_container<CharT>>();
        }
        catch(const bad_variable_access&)
        {
            threw = true;
        }
        VP_CHECK(threw, "access as another kind was allowed");
        VP_CHECK(!var.template get_if<bool>() == !x.is_bool, "get_if<bool>()");
    }
}

int ord(std::partial_ordering o)
{
    return o == std::partial_ordering::less ? -1 : o == std::partial_ordering::greater ? 1 :
                                               o == std::partial_ordering::equivalent  ? 0 :
                                                                                         2;
}

template <typename CharT>
void comparisons(vp::source& s, vp::ctx& c)
{
    src x = gen(s);
    src y = gen(s, &x);
    src z = gen(s, &y);
    gf::holder<CharT> h;
    auto a = make<CharT>(s, x, h), b = make<CharT>(s, y, h), d = make<CharT>(s, z, h);
    c.note(std::string(um::tname<CharT>()) + " " + show(x) + ", " + show(y) + ", " + show(z));
    c.nontrivial_if(gf::equal(x.v, y.v) || x.v.k != y.v.k || (x.v.k == 2 && !x.v.s.empty() && !y.v.s.empty()));
    c.tag("kinds_" + std::to_string(x.v.k) + std::to_string(y.v.k));
    int o = gf::order(x.v, y.v);
    if(o == 0 && gf::equal(x.v, y.v))
        c.tag("equal");
    VP_CHECK((a == b) == gf::equal(x.v, y.v), "==");
    VP_CHECK((b == a) == gf::equal(x.v, y.v), "== reversed");
    VP_CHECK((a != b) == !gf::equal(x.v, y.v), "!=");
    VP_CHECK(ord(a <=> b) == o, "<=> gives " + std::to_string(ord(a <=> b)) + ", expected " + std::to_string(o));
    VP_CHECK(ord(a.compare(b)) == o, "compare()");
    VP_CHECK(ord(b <=> a) == (o == 2 ? 2 : -o), "<=> reversed");
    VP_CHECK((a < b) == (o == -1) && (a > b) == (o == 1) && (a <= b) == (o == -1 || o == 0) && (a >= b) == (o == 1 || o == 0), "an ordering operator");
    bool nan = x.v.k == 1 && std::isnan(x.v.f);
    VP_CHECK((a == a) == !nan && ord(a <=> a) == (nan ? 2 : 0), "not reflexive");
    if(o == 0)
        VP_CHECK(a == b, "equivalent but not equal");
    // transitivity, for values of one kind
    if(x.v.k == y.v.k && y.v.k == z.v.k && a < b && b < d)
        VP_CHECK(a < d, "< is not transitive");
    // the explicit tolerance
    float eps = s.pick({0.5f, 0.001f, 2.0f, std::numeric_limits<float>::epsilon()});
    bool want = gf::equal(x.v, y.v);
    if((x.v.k == 1 || y.v.k == 1) && x.v.k != 2 && y.v.k != 2)
    {
        float p = x.v.k ? x.v.f : static_cast<float>(x.v.i), q = y.v.k ? y.v.f : static_cast<float>(y.v.i);
        want = p == q || std::abs(p - q) < eps;
    }
    VP_CHECK(a.equal(b, eps) == want && b.equal(a, eps) == want, "equal() with a tolerance");
}

template <typename CharT>
void copies(vp::source& s, vp::ctx& c)
{
    using V = basic_variable<CharT>;
    gf::holder<CharT> h;
    std::vector<src> model;
    std::vector<std::unique_ptr<V>> vars;
    std::size_t n = 2 + s.draw(3);
    std::string note;
    for(std::size_t i = 0; i < n; ++i)
    {
        model.push_back(gen(s));
        vars.push_back(std::make_unique<V>(make<CharT>(s, model.back(), h)));
        note += show(model.back()) + " ";
    }
    std::size_t steps = 1 + s.small_size(10);
    for(std::size_t k = 0; k < steps; ++k)
    {
        std::size_t i = s.draw(n), j = s.draw(n);
        auto is = std::to_string(i), js = std::to_string(j);
        switch(s.draw(6))
        {
        case 0:
            note += "; copy " + js + " to " + is;
            *vars[i] = *vars[j];
            // copies of owned text refer to it: give it back an owner, since the source may go away
            if(model[j].v.k == 2)
                *vars[i] = V(independent, std::basic_string<CharT>(std::basic_string_view<CharT>(vars[j]->template get<utf::basic_string_container<CharT>>())));
            model[i] = model[j];
            break;
        case 1:
            note += "; swap " + is + " " + js;
            std::swap(*vars[i], *vars[j]);
            std::swap(model[i], model[j]);
            break;
        case 2:
        {
            note += "; move " + js + " to a new one and back";
            V t(std::move(*vars[j]));
            same(t, model[j], "moved");
            *vars[j] = std::move(t);
            break;
        }
        case 3:
        {
            note += "; reassign " + is;
            model[i] = gen(s);
            *vars[i] = make<CharT>(s, model[i], h);
            note += " to " + show(model[i]);
            break;
        }
        case 4:
        {
            note += "; a copy of " + js;
            V t(*vars[j]);
            same(t, model[j], "copied");
            same(*vars[j], model[j], "copied from");
            VP_CHECK((t == *vars[j]) == !(model[j].v.k == 1 && std::isnan(model[j].v.f)), "the copy is not equal");
            break;
        }
        default:
            note += "; replace " + is + " by a moved " + js;
            if(i != j)
            {
                *vars[i] = std::move(*vars[j]);
                model[i] = model[j];
                model[j] = gen(s);
                vars[j] = std::make_unique<V>(make<CharT>(s, model[j], h));
                note += ", then " + show(model[j]);
            }
            break;
        }
        c.note(std::string(um::tname<CharT>()) + " " + note);
        for(std::size_t m = 0; m < n; ++m)
            same(*vars[m], model[m], "variable " + std::to_string(m));
    }
    c.note(std::string(um::tname<CharT>()) + " " + note);
    c.nontrivial_if(steps >= 3);
}

// Text converted to a script value from an argument stays valid when the argument goes away.
VP_FACET(ownership, 5000, 50000, "non-empty text")
{
    auto t = um::enc<char>(um::gen_text(s, 40));
    c.note(vp::quote(t));
    c.nontrivial_if(!t.empty());
    std::unique_ptr<variable> v;
    {
        auto a = std::make_unique<format_arg>(independent, t);
        VP_CHECK(a->has_ownership(), "an independent argument has no ownership");
        v = std::make_unique<variable>(std::move(*a).to_variant());
    }
    VP_CHECK(v->has_ownership(), "the script value has no ownership");
    VP_CHECK(v->as<std::string>() == t, "the text is " + vp::quote(v->as<std::string>()));
    std::string mine = t;
    variable w(std::string_view{mine});
    VP_CHECK(!w.has_ownership(), "a view has ownership");
    variable w2(independent, std::string_view{mine});
    VP_CHECK(w2.has_ownership(), "an independent copy has no ownership");
    for(char& ch : mine)
        ch = '#';
    VP_CHECK(w2.as<std::string>() == t, "the independent copy changed");
    VP_CHECK(w.as<std::string>() == mine, "the view did not follow");
}

template <typename CharT>
void one(vp::source& s, vp::ctx& c, int which)
{
    which == 0 ? conversions<CharT>(s, c) : which == 1 ? comparisons<CharT>(s, c) :
                                                         copies<CharT>(s, c);
}
} // namespace

VP_FACET(convert, 80000, 1000000, "not a small integer")
{
    one<char>(s, c, 0);
}

VP_FACET(convert_others, 40000, 400000, "not a small integer")
{
    s.boolean() ? one<wchar_t>(s, c, 0) : one<char16_t>(s, c, 0);
}

VP_FACET(compare, 120000, 1500000, "equal, or of different kinds, or two texts")
{
    one<char>(s, c, 1);
}

VP_FACET(compare_others, 60000, 600000, "equal, or of different kinds, or two texts")
{
    s.boolean() ? one<wchar_t>(s, c, 1) : s.boolean() ? one<char16_t>(s, c, 1) :
                                                        one<char32_t>(s, c, 1);
}

VP_FACET(histories, 30000, 400000, "at least 3 steps")
{
    s.chance(2, 3) ? one<char>(s, c, 2) : one<wchar_t>(s, c, 2);
}

// Unsigned values above the range of script integers.
VP_KNOWN(unsigned_above_int64)
{
    c.note("18446744073709551615 as a script value");
    variable v(std::numeric_limits<unsigned long long>::max());
    VP_CHECK(v > variable(0), "not greater than 0");
}
