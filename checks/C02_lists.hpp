// C02 - histories of argument lists: what is found under a number or a name is what was put there
#ifndef C02_LISTS_HPP
#define C02_LISTS_HPP
#include "genfmt.hpp"
#include <map>
#include <optional>

using namespace papilio;
using gf::text;

namespace
{
template <typename CharT>
using ctx_of = basic_format_context<format_iterator_for<CharT>, CharT>;

template <typename CharT>
struct list_model
{
    std::vector<text> indexed;
    std::map<std::basic_string<CharT>, text> named;
};

template <typename CharT>
text decoded(std::basic_string_view<CharT> str)
{
    text r;
    VP_CHECK(um::dec<CharT>(str, r), "well-formed text");
    return r;
}

template <typename F>
int outcome(F&& f)
{
    try
    {
        f();
    }
    catch(const std::out_of_range&)
    {
        return 1;
    }
    catch(const std::invalid_argument&)
    {
        return 2;
    }
    return 0;
}

// what an argument holds, as text
template <typename CharT, typename Arg>
text show_arg(const Arg& arg)
{
    return arg.visit(
        []<typename V>(const V& v) -> text
        {
            if constexpr(std::is_same_v<V, std::monostate>)
                return U"nothing";
            else if constexpr(std::is_same_v<V, bool>)
                return v ? U"true" : U"false";
            else if constexpr(std::is_same_v<V, utf::codepoint>)
                return U"c" + text(1, static_cast<char32_t>(v));
            else if constexpr(std::is_integral_v<V>)
                return gf::num(static_cast<long long>(v));
            else if constexpr(std::is_floating_point_v<V>)
                return U"f" + gf::num(static_cast<long long>(v));
            else if constexpr(std::is_same_v<V, utf::basic_string_container<CharT>>)
                return U"s" + decoded<CharT>(std::basic_string_view<CharT>(v));
            else
                return U"other";
        }
    );
}

template <typename CharT, typename List>
void inspect(vp::source& s, const List& list, const list_model<CharT>& m, const std::basic_string<CharT>* names, std::size_t n_names)
{
    using iv = basic_indexing_value<CharT>;
    using sv = std::basic_string_view<CharT>;
    VP_CHECK(list.indexed_size() == m.indexed.size() && list.named_size() == m.named.size(), "sizes");
    std::size_t i = s.draw(m.indexed.size() + 2);
    if(s.chance(1, 8))
        i = s.pick({~std::size_t(0), std::size_t(1) << 63, std::size_t(1) << 32});
    const bool there = i < m.indexed.size();
    VP_CHECK(list.contains(i) == there, "contains(number)");
    VP_CHECK(outcome([&]
                     { VP_CHECK((show_arg<CharT>(list.get(i)) == m.indexed.at(i)), "get(number)"); }) == (there ? 0 : 1),
             "get(number) of a missing argument");
    const ssize_t si = s.chance(1, 3) ? -static_cast<ssize_t>(1 + s.draw(3)) : static_cast<ssize_t>(s.draw(m.indexed.size() + 2));
    const bool sthere = si >= 0 && static_cast<std::size_t>(si) < m.indexed.size();
    const iv by_index(si);
    VP_CHECK(list.contains(by_index) == sthere, "contains(indexing value)");
    VP_CHECK(outcome([&]
                     { VP_CHECK((show_arg<CharT>(list.get(by_index)) == m.indexed.at(static_cast<std::size_t>(si))), "get(indexing value)"); }) == (sthere ? 0 : 1),
             "get(indexing value) of a missing argument");
    VP_CHECK(outcome([&]
                     { VP_CHECK((show_arg<CharT>(list[by_index]) == m.indexed.at(static_cast<std::size_t>(si))), "[indexing value]"); }) == (sthere ? 0 : 1),
             "[indexing value] of a missing argument");
    const iv range(index_range(0, 1));
    VP_CHECK(!list.contains(range) && outcome([&]
                                              { (void)list.get(range); }) == 2,
             "a range names no argument");
    const auto& name = names[s.draw(n_names)];
    um::exact<CharT> key(name, true);
    const auto found = m.named.find(name);
    const bool nthere = found != m.named.end();
    const bool has_nul = name.find(CharT()) != name.npos;
    const iv by_name(independent, sv(key.view()));
    VP_CHECK(list.contains(key.view()) == nthere && list.contains(name) == nthere && list.contains(by_name) == nthere, "contains(name)");
    if(!has_nul)
        VP_CHECK(list.contains(key.data()) == nthere, "contains(pointer)");
    auto look = [&](auto&& f, const char* how)
    {
        const int o = outcome([&]
                              { VP_CHECK((show_arg<CharT>(f()) == (nthere ? found->second : text())), std::string("get by ") + how); });
        VP_CHECK(o == (nthere ? 0 : 1), std::string("get of a missing name by ") + how);
    };
    look([&]() -> auto& { return list.get(key.view()); }, "view");
    look([&]() -> auto& { return list.get(name); }, "string");
    look([&]() -> auto& { return list.get(by_name); }, "indexing value");
    look([&]() -> auto& { return list[by_name]; }, "operator[]");
    if(!has_nul)
        look([&]() -> auto& { return list.get(key.data()); }, "pointer");
}

template <typename CharT>
void list_history(vp::source& s, vp::ctx& c)
{
    using list_t = basic_dynamic_format_args<ctx_of<CharT>, CharT>;
    using ref_t = basic_format_args_ref<ctx_of<CharT>, CharT>;
    constexpr std::size_t n_names = 5;
    std::basic_string<CharT> names[n_names];
    for(std::size_t i = 0; i < n_names; ++i)
    {
        um::text t = s.chance(1, 3) ? um::gen_text(s, 4, false) : um::text(1 + s.draw(2), static_cast<char32_t>(U'a' + s.draw(3)));
        if(s.chance(1, 6))
            t += t;
        names[i] = um::enc<CharT>(t);
    }
    std::optional<list_t> list(std::in_place);
    list_model<CharT> m;
    std::vector<std::unique_ptr<std::basic_string<CharT>>> texts; // what the arguments refer to
    std::string note = um::tname<CharT>();
    const std::size_t steps = 1 + s.small_size(24);
    std::size_t puts = 0;
    for(std::size_t step = 0; step < steps; ++step)
    {
        const unsigned op = static_cast<unsigned>(s.draw(14));
        auto put_named = [&](const std::basic_string<CharT>& name, const text& t)
        { m.named.insert_or_assign(name, t); };
        ++puts;
        const long long n = static_cast<long long>(s.draw(2000)) - 1000;
        const auto& name = names[s.draw(n_names)];
        const um::exact<CharT> key(name, true);
        switch(op)
        {
        case 0:
            list->emplace(n);
            m.indexed.push_back(gf::num(n));
            note += " +" + vp::str(n);
            break;
        case 1:
        {
            texts.push_back(std::make_unique<std::basic_string<CharT>>(um::enc<CharT>(um::gen_text(s, 4))));
            list->emplace(*texts.back());
            m.indexed.push_back(U"s" + decoded<CharT>(*texts.back()));
            note += " +text";
            break;
        }
        case 2:
            list->emplace(papilio::arg(std::basic_string_view<CharT>(key.view()), n));
            put_named(name, gf::num(n));
            note += " +" + vp::quote(name) + "=" + vp::str(n);
            break;
        case 3:
        {
            texts.push_back(std::make_unique<std::basic_string<CharT>>(name));
            list->emplace(papilio::arg(std::basic_string_view<CharT>(key.view()), *texts.back()));
            put_named(name, U"s" + decoded<CharT>(name));
            note += " +" + vp::quote(name) + "=itself";
            break;
        }
        case 4:
            list->append(n, papilio::arg(std::basic_string_view<CharT>(key.view()), -n), n + 1);
            m.indexed.push_back(gf::num(n));
            put_named(name, gf::num(-n));
            m.indexed.push_back(gf::num(n + 1));
            note += " append(n,named,n+1)";
            break;
        case 5:
        {
            // the later of two arguments of the same name counts
            const auto& other = names[s.draw(n_names)];
            list->append(papilio::arg(std::basic_string_view<CharT>(key.view()), n), papilio::arg(std::basic_string_view<CharT>(other), 7), true);
            put_named(name, gf::num(n));
            put_named(other, U"7");
            m.indexed.push_back(U"true");
            note += " append(named,named,true)";
            break;
        }
        case 6:
            list->append(false, static_cast<short>(n), 2.0, static_cast<unsigned char>(5));
            m.indexed.insert(m.indexed.end(), {U"false", gf::num(static_cast<short>(n)), U"f2", U"5"});
            note += " append4";
            break;
        case 7:
            if(s.chance(1, 2))
            {
                list->clear();
                m = {};
                note += " clear";
            }
            break;
        case 8:
        {
            list_t moved(std::move(*list));
            note += " move";
            if(s.boolean())
            {
                // the list that was moved from can be used again
                list->clear();
                list->append(1, 2);
                list->emplace(papilio::arg(std::basic_string_view<CharT>(key.view()), 3));
                list_model<CharT> fresh;
                fresh.indexed = {U"1", U"2"};
                fresh.named.emplace(name, U"3");
                inspect<CharT>(s, *list, fresh, names, n_names);
            }
            inspect<CharT>(s, moved, m, names, n_names);
            list.emplace(std::move(moved));
            break;
        }
        case 9:
            list.emplace(n, papilio::arg(std::basic_string_view<CharT>(key.view()), n));
            m = {};
            m.indexed.push_back(gf::num(n));
            put_named(name, gf::num(n));
            note += " new(n,named)";
            break;
        case 10:
        {
            const ref_t ref(*list);
            const ref_t copy(ref);
            inspect<CharT>(s, copy, m, names, n_names);
            note += " ref";
            break;
        }
        case 11:
        {
            // each argument formatted by its number, and the first and last by name
            text fmt, want;
            const auto plain = [](const text& t)
            { return !t.empty() && (t[0] == U's' || t[0] == U'f') && t != U"false" ? t.substr(1) : t; };
            for(std::size_t i = m.indexed.size(); i-- > 0;)
            {
                fmt += U"{" + gf::num(static_cast<long long>(i)) + U"},";
                want += plain(m.indexed[i]) + U",";
            }
            for(auto& [k, v] : m.named)
            {
                text t = decoded<CharT>(k);
                bool ident = !t.empty();
                for(char32_t ch : t)
                    ident = ident && ch >= U'a' && ch <= U'z';
                if(!ident)
                    continue;
                fmt += U"{" + t + U"}";
                want += plain(v);
            }
            const auto f = um::enc<CharT>(fmt);
            try
            {
                fm::expect<CharT>(papilio::vformat(std::basic_string_view<CharT>(f), *list), want, "formatted");
            }
            catch(const std::out_of_range& e)
            {
                vp::fail(vp::quote(f) + " reports " + e.what() + " after" + note);
            }
            note += " format";
            break;
        }
        default:
            --puts;
            inspect<CharT>(s, *list, m, names, n_names);
            note += " look";
        }
        VP_CHECK(list->indexed().size() == m.indexed.size() && list->named().size() == m.named.size(), "indexed() and named() after " + note + " " + vp::str(list->indexed().size()) + "/" + vp::str(m.indexed.size()) + " " + vp::str(list->named().size()) + "/" + vp::str(m.named.size()));
        for(std::size_t i = 0; i < m.indexed.size(); ++i)
            if(auto t = show_arg<CharT>(list->indexed()[i]); t != m.indexed[i])
                vp::fail("argument " + vp::str(i) + " is " + vp::quote(t) + ", expected " + vp::quote(m.indexed[i]) + " after" + note);
        auto it = m.named.begin();
        for(auto& [k, v] : list->named())
        {
            if(k != it->first || show_arg<CharT>(v) != it->second)
                vp::fail("named argument " + vp::quote(k) + " is " + vp::quote(show_arg<CharT>(v)) + " after" + note);
            ++it;
        }
    }
    c.note(note);
    c.nontrivial_if(puts >= 3 && m.indexed.size() + m.named.size() >= 3);
}

// static lists: as many arguments of the same type as the history has, in one list
template <typename CharT>
void static_lists(vp::source& s, vp::ctx& c)
{
    std::basic_string<CharT> names[4];
    for(auto& n : names)
        n = um::enc<CharT>(s.chance(1, 3) ? um::gen_text(s, 4, false) : um::text(1 + s.draw(2), static_cast<char32_t>(U'a' + s.draw(3))));
    const int a = static_cast<int>(s.draw(100)), b = static_cast<int>(s.draw(100)), d = static_cast<int>(s.draw(100));
    const auto txt = um::enc<CharT>(um::gen_text(s, 4));
    auto nm = [&](std::size_t i)
    { return std::basic_string_view<CharT>(names[i]); };
    list_model<CharT> m;
    auto put = [&](std::size_t i, const text& t)
    { m.named.insert_or_assign(names[i], t); };
    c.note(std::string(um::tname<CharT>()) + " " + vp::quote(names[0]) + " " + vp::quote(names[1]) + " " + vp::quote(names[2]));
    c.nontrivial();
    const text st = U"s" + decoded<CharT>(txt);
    auto look = [&](const auto& l)
    {
        inspect<CharT>(s, l, m, names, 4);
        auto copy = l;
        inspect<CharT>(s, copy, m, names, 4);
        auto moved = std::move(copy);
        inspect<CharT>(s, moved, m, names, 4);
        inspect<CharT>(s, basic_format_args_ref<ctx_of<CharT>, CharT>(moved), m, names, 4);
    };
    switch(s.draw(4))
    {
    case 0:
        put(0, gf::num(a));
        put(1, gf::num(b));
        put(2, gf::num(d));
        m.indexed = {st, gf::num(d)};
        look(papilio::make_format_args<ctx_of<CharT>>(papilio::arg(nm(0), a), txt, papilio::arg(nm(1), b), d, papilio::arg(nm(2), d)));
        break;
    case 1:
        m.indexed = {gf::num(a), gf::num(b), gf::num(d), U"true", st};
        look(papilio::make_format_args<ctx_of<CharT>>(a, b, d, true, txt));
        break;
    case 2:
        put(2, gf::num(a));
        put(1, st);
        put(0, gf::num(d));
        put(2, gf::num(b));
        look(papilio::make_format_args<ctx_of<CharT>>(papilio::arg(nm(2), a), papilio::arg(nm(1), txt), papilio::arg(nm(0), d), papilio::arg(nm(2), b)));
        break;
    default:
        look(papilio::make_format_args<ctx_of<CharT>>());
    }
}
} // namespace
#endif
