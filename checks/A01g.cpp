// A01 - the objects that carry a key or an attribute name: they hold exactly what they were made
// from, and the independent ones keep it whatever happens to the source
#include "utfmodel.hpp"
#include <papilio/access.hpp>
#include <papilio/utf/string.hpp>
#include <optional>

using namespace papilio;

namespace
{
template <typename CharT>
void names(vp::source& s, vp::ctx& c)
{
    using name_t = basic_attribute_name<CharT>;
    using value_t = basic_indexing_value<CharT>;
    using str = std::basic_string<CharT>;
    using sv = std::basic_string_view<CharT>;
    auto text = [&]
    { return um::gen_text(s, 6); };
    auto put = [](const um::text& t)
    { str r; for(char32_t x : t) r += um::enc<CharT>(x); return r; };
    auto narrow = [](const um::text& t)
    { std::string r; for(char32_t x : t) r += um::enc<char>(x); return r; };

    um::text ta = text(), tb = s.chance(1, 3) ? ta : text();
    if(s.chance(1, 3) && !tb.empty())
        tb.pop_back();
    const str a = put(ta), b = put(tb);
    const bool eq = ta == tb;
    unsigned how = static_cast<unsigned>(s.draw(8));
    c.note(vp::quote(std::u32string_view(ta)) + " made in way " + vp::str(how) + ", other " + vp::quote(std::u32string_view(tb)));
    c.tag("way " + vp::str(how));
    c.nontrivial_if(ta.size() >= 2 && um::mixed(ta));

    // the source lives on the heap and is overwritten and given back before the object is looked at
    // when the object is independent of it
    auto src = std::make_unique<str>(a);
    std::optional<name_t> n;
    bool own = false;
    switch(how)
    {
    case 0: n.emplace(sv(*src)); break;
    case 1: n.emplace(*src); break;
    case 2: n.emplace(src->c_str()); break;
    case 3: n.emplace(independent, sv(*src)), own = true; break;
    case 4: n.emplace(independent, *src), own = true; break;
    case 5: n.emplace(std::move(*src)), own = true; break;
    case 6: n.emplace(independent, src->c_str()), own = true; break;
    default: n.emplace(std::in_place, independent, sv(*src)), own = true; break;
    }
    // the exception that reports a name never depends on the name it was made from
    std::optional<basic_invalid_attribute<CharT>> ex;
    try
    {
        throw_invalid_attribute(*n);
    }
    catch(const invalid_attribute_base& e)
    {
        ex.emplace(dynamic_cast<const basic_invalid_attribute<CharT>&>(e));
        // (a copy of an owning name refers to the name it was copied from, which is about to end;
        // look at it now)
        VP_CHECK(ex->name() == sv(a) && std::string_view(ex->what()) == "invalid attribute", "reported name");
        ex.reset();
    }
    bool rethrown = false;
    {
        auto tmp = std::make_unique<str>(a);
        auto pn = std::make_unique<name_t>(sv(*tmp));
        try
        {
            try
            {
                throw_invalid_attribute(*pn);
            }
            catch(...)
            {
                pn.reset();
                std::fill(tmp->begin(), tmp->end(), CharT('?'));
                tmp.reset();
                throw;
            }
        }
        catch(const basic_invalid_attribute<CharT>& e)
        {
            rethrown = true;
            VP_CHECK(e.name() == sv(a) && sv(e.name()) == sv(a), "the name reported after the original is gone");
        }
    }
    VP_CHECK(rethrown, "exception type");
    if(own)
    {
        std::fill(src->begin(), src->end(), CharT('?'));
        src.reset();
    }
    auto same = [&](const name_t& x, const char* what)
    {
        name_t o{sv(b)};
        bool r[] = {x == o, o == x, !(x != o), x == b, b == x, x == sv(b), sv(b) == x, !(x != b), !(sv(b) != x)};
        for(bool v : r)
            VP_CHECK(v == eq, std::string(what) + ": comparison with " + vp::quote(std::u32string_view(tb)));
        if(tb.find(U'\0') == um::text::npos)
        {
            std::string nb = narrow(tb);
            VP_CHECK((x == nb.c_str()) == eq && (nb.c_str() == x) == eq, std::string(what) + ": comparison with a char string");
        }
        VP_CHECK(x == a && sv(x) == sv(a) && x.name() == sv(a), std::string(what) + ": content");
        if constexpr(true)
        {
            std::u32string dec;
            for(auto cp : x.name())
                dec += char32_t(cp);
            VP_CHECK(dec == ta, std::string(what) + ": characters");
        }
    };
    same(*n, "name");
    name_t copy(*n);
    same(copy, "copy");
    name_t moved(std::move(copy));
    same(moved, "moved copy");
    name_t moved2(std::move(*n));
    same(moved2, "moved");
    VP_CHECK(!own || moved2.name().has_ownership(), "an independent name owns its text after it was moved");

    // indexing values
    auto src2 = std::make_unique<str>(a);
    unsigned kind = static_cast<unsigned>(s.draw(9));
    ssize_t idx = s.range(-5, 5);
    if(s.chance(1, 4))
        idx = s.pick({std::numeric_limits<ssize_t>::min(), std::numeric_limits<ssize_t>::max(), ssize_t(-1), ssize_t(0)});
    ssize_t e2 = s.range(-5, 5);
    std::optional<value_t> v;
    own = false;
    int type = 2;
    switch(kind)
    {
    case 0: v.emplace(idx), type = 0; break;
    case 1: v.emplace(index_range(idx, e2)), type = 1; break;
    case 2: v.emplace(sv(*src2)); break;
    case 3: v.emplace(*src2); break;
    case 4: v.emplace(std::move(*src2)), own = true; break;
    case 5: v.emplace(independent, sv(*src2)), own = true; break;
    case 6: v.emplace(independent, src2->c_str()), own = true; break;
    case 7: v.emplace(utf::basic_string_container<CharT>(independent, sv(*src2))), own = true; break;
    default: v.emplace(utf::basic_string_container<CharT>(sv(*src2))); break;
    }
    c.tag("value " + vp::str(kind));
    if(own)
    {
        std::fill(src2->begin(), src2->end(), CharT('?'));
        src2.reset();
    }
    auto val = [&](const value_t& x, const char* what)
    {
        VP_CHECK(x.holds_index() == (type == 0) && x.holds_range() == (type == 1) && x.holds_string() == (type == 2), std::string(what) + ": kind");
        VP_CHECK(x.template holds<ssize_t>() == (type == 0) && x.template holds<index_range>() == (type == 1), std::string(what) + ": kind");
        int seen = x.visit([&](const auto& y)
                           {
            using Y = std::remove_cvref_t<decltype(y)>;
            if constexpr(std::is_same_v<Y, ssize_t>)
                return y == idx ? 0 : -1;
            else if constexpr(std::is_same_v<Y, index_range>)
                return y == index_range(idx, e2) ? 1 : -1;
            else
                return y == sv(a) ? 2 : -1; });
        VP_CHECK(seen == type, std::string(what) + ": visited value");
        if(type == 0)
            VP_CHECK(x.as_index() == idx, what);
        else if(type == 1)
            VP_CHECK(x.as_range().first == idx && x.as_range().second == e2, what);
        else
            VP_CHECK(x.as_string() == sv(a) && sv(x.as_string()) == sv(a), what);
    };
    val(*v, "value");
    value_t vc(*v);
    val(vc, "copied value");
    value_t vm(std::move(vc));
    val(vm, "moved copy");
    value_t vm2(std::move(*v));
    val(vm2, "moved value");
}
} // namespace

VP_FACET(key_objects, 30000, 600000, "a text of at least two characters with mixed encoded lengths")
{
    um::with_char(s.draw(5), [&]<typename CharT>()
                  { names<CharT>(s, c); });
}
