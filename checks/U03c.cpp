// U03 - comparison within and across encodings
#include "U03_common.hpp"

namespace
{
template <typename F>
void left_type(std::size_t i, F&& f)
{
    switch(i)
    {
    case 0:
    case 1: return f.template operator()<char8_t>();
    case 2:
    case 3: return f.template operator()<char32_t>();
    default: return f.template operator()<wchar_t>();
    }
}
} // namespace

VP_FACET(compare_wide, 40000, 1000000, "two non-empty texts, at least one mixing encoded lengths")
{
    um::text a = um::gen_text(s, 6), b = related(s, a, 6);
    c.note(vp::quote(std::u32string_view(a)) + " <=> " + vp::quote(std::u32string_view(b)));
    c.nontrivial_if(!a.empty() && !b.empty() && (um::mixed(a) || um::mixed(b)));
    const int m = model_cmp(a, b);
    const std::strong_ordering mo = m <=> 0;
    left_type(s.draw(5), [&]<typename T>()
                  { um::with_char(s.draw(5), [&]<typename U>()
                                  {
        c.tag(std::string(um::tname<T>()) + "/" + um::tname<U>());
        um::exact<T> ea(E<T>(a), true);
        um::exact<U> eb(E<U>(b), true);
        const std::basic_string<U> sb = E<U>(b);
        const std::basic_string<T> sa = E<T>(a);
        using RT = utf::basic_string_ref<T>;
        using RU = utf::basic_string_ref<U>;
        using ST = utf::basic_string_container<T>;
        using SU = utf::basic_string_container<U>;
        RT x(ea.view());
        RU y(eb.view());
        ST cx(ea.view());
        SU cy(independent, sb);
        auto eq = [&](bool g, const char* how)
        {
            if(g != (m == 0))
                vp::fail(std::string("== ") + how + " of " + q(x) + " and " + q(y) + " is " + vp::str(g));
        };
        auto cm = [&](int g, const char* how)
        {
            if(sgn(g) != m)
                vp::fail(std::string("compare ") + how + " of " + q(x) + " and " + q(y) + " is " + vp::str(g));
        };
        auto od = [&](std::strong_ordering g, const char* how)
        {
            if(g != mo)
                vp::fail(std::string("<=> ") + how + " of " + q(x) + " and " + q(y));
        };
        eq(x == y, "ref/ref");
        eq(y == x, "ref/ref reversed");
        eq(!(x != y), "ref/ref !=");
        eq(x == eb.data(), "ref/pointer");
        eq(ea.data() == y, "pointer/ref");
        eq(x == eb.view(), "ref/view");
        eq(ea.view() == y, "view/ref");
        eq(x == sb, "ref/string");
        eq(sa == y, "string/ref");
        eq(cx == cy, "container/container");
        eq(cx == y, "container/ref");
        eq(x == cy, "ref/container");
        eq(cx == eb.data(), "container/pointer");
        eq(ea.data() == cy, "pointer/container");
        eq(cx == eb.view(), "container/view");
        eq(ea.view() == cy, "view/container");
        eq(cx == sb, "container/string");
        eq(sa == cy, "string/container");
        cm(x.compare(y), "ref/ref");
        cm(x.compare(eb.data()), "ref/pointer");
        cm(x.compare(eb.view()), "ref/view");
        cm(x.compare(sb), "ref/string");
        cm(cx.compare(cy), "container/container");
        cm(cx.compare(y), "container/ref");
        cm(cx.compare(eb.data()), "container/pointer");
        cm(cx.compare(eb.view()), "container/view");
        cm(cx.compare(sb), "container/string");
        od(x <=> y, "ref/ref");
        od(x <=> eb.data(), "ref/pointer");
        od(x <=> eb.view(), "ref/view");
        od(x <=> sb, "ref/string");
        od(ea.data() <=> y, "pointer/ref");
        od(ea.view() <=> y, "view/ref");
        od(sa <=> y, "string/ref");
        od(cx <=> cy, "container/container");
        od(ea.data() <=> cy, "pointer/container");
        od(ea.view() <=> cy, "view/container");
        od(sa <=> cy, "string/container");
        VP_CHECK((ea.view() < y) == (m < 0) && (sa > cy) == (m > 0) && (ea.data() <= cy) == (m <= 0) && (sa >= y) == (m >= 0), "relational operators, reversed");
        od(cx <=> eb.data(), "container/pointer");
        od(cx <=> eb.view(), "container/view");
        od(cx <=> sb, "container/string");
        VP_CHECK((x < y) == (m < 0) && (x <= y) == (m <= 0) && (x > y) == (m > 0) && (x >= y) == (m >= 0), "relational operators"); }); });
}
