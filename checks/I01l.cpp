// I01 - argument lists and single arguments whose making fails
#include "I01_common.hpp"

namespace i01
{
// formattable, and its copies may fail
template <bool Large>
struct copied
{
    std::string s;
    long pad[Large ? 9 : 1] = {};

    explicit copied(std::string v)
        : s(std::move(v)) {}

    copied(const copied& o)
        : s(o.s)
    {
        tick();
    }

    copied& operator=(const copied&) = delete;
};

// a string-like value whose conversion may fail
struct converted
{
    std::string s;

    operator std::string_view() const
    {
        tick();
        return s;
    }
};
} // namespace i01

template <bool Large>
struct papilio::formatter<i01::copied<Large>, char>
{
    template <typename ParseContext>
    auto parse(ParseContext& ctx)
    {
        return ctx.begin();
    }

    template <typename Context>
    auto format(const i01::copied<Large>& v, Context& ctx) const
    {
        papilio::format_context_traits<Context>::append(ctx, v.s);
        return ctx.out();
    }
};

namespace
{
using namespace i01;
using context = format_context;
using arg_t = basic_format_arg<context>;
using list_t = basic_dynamic_format_args<context, char>;

std::string show(const list_t& l)
{
    std::string r;
    for(std::size_t i = 0; i < l.indexed_size(); ++i)
        r += vformat("<{" + std::to_string(i) + "}>", l);
    for(auto& [n, v] : l.named())
        r += vformat("<" + n + "={" + n + "}>", l);
    return r;
}

struct model
{
    std::vector<std::string> pos;
    std::map<std::string, std::string> named;

    std::string show() const
    {
        std::string r;
        for(auto& p : pos)
            r += "<" + p + ">";
        for(auto& [n, v] : named)
            r += "<" + n + "=" + v + ">";
        return r;
    }
};

// a history of additions to a list, some of which fail
VP_FACET(list_history, 12000, 240000, "three additions or more failed")
{
    auto l = std::make_unique<list_t>();
    model m;
    zoo::store st;
    long failures = 0;
    std::string note;
    for(std::size_t steps = 1 + s.size(15), i = 0; i < steps; ++i)
    {
        bool alloc = s.boolean();
        long at = s.chance(2, 3) ? s.range(1, 3) : 0;
        int kind = static_cast<int>(s.draw(n_fault_kinds));
        std::size_t what = s.draw(9);
        std::string text = um::enc<char>(um::gen_text(s, 20));
        std::string name = s.pick<std::string>({"a", "b", "name", "a_name_that_is_longer_than_any_buffer_inside", "another_name_that_is_longer_than_any_buffer"});
        std::vector<std::string> added;
        bool named = false;
        bool clears = false;
        std::function<void()> op;
        const copied<false>* small = &st.keep(std::make_unique<copied<false>>(text)).operator*();
        const copied<true>* large = &st.keep(std::make_unique<copied<true>>(text)).operator*();
        const std::string& kept = st.keep(text);
        const char* kept_name = st.keep(name).c_str();
        const converted& conv = st.keep(converted{text});
        std::size_t n = s.size(4);
        switch(what)
        {
        case 0:
            op = [&] { l->emplace(*small); };
            added = {text};
            break;
        case 1:
            op = [&] { l->emplace(arg_t(independent, *small)); };
            added = {text};
            break;
        case 2:
            op = [&] { l->emplace(arg_t(independent, *large)); };
            added = {text};
            break;
        case 3:
            op = [&] { l->emplace(arg_t(utf::string_container(independent, kept))); };
            added = {text};
            break;
        case 4:
            op = [&] { l->emplace(arg(kept_name, *large)); };
            added = {text};
            named = true;
            break;
        case 5:
            op = [&] { l->emplace(arg(kept_name, kept)); };
            added = {text};
            named = true;
            break;
        case 6:
            op = [&] { l->emplace(conv); };
            added = {text};
            break;
        case 7:
            op = [&] { l->append(*small, conv, 5, *large); };
            added = {text, text, "5", text};
            break;
        default:
            clears = true;
            op = [&, n]
            {
                // replaced by one that is made elsewhere; the old one is released only afterwards
                auto fresh = std::make_unique<list_t>();
                for(std::size_t j = 0; j < n; ++j)
                    fresh->emplace(arg_t(independent, *large));
                l = std::move(fresh);
            };
            for(std::size_t j = 0; j < n; ++j)
                added.push_back(text);
            break;
        }
        std::size_t sizes = l->indexed_size();
        long before = vp::alloc_now().live_blocks;
        if(alloc)
        {
            vp::alloc_fail_after(at);
            plan = {};
        }
        else
            plan = {at, 0, kind};
        bool hit = false;
        outcome r;
        try
        {
            op();
        }
        catch(const vp::failure&)
        {
            throw;
        }
        catch(...)
        {
            hit = alloc ? vp::alloc_fail_triggered() : plan.count >= plan.at;
            vp::alloc_fail_after(0);
            r = attempt([] { throw; });
        }
        vp::alloc_fail_after(0);
        plan = {};
        long left = vp::alloc_now().live_blocks - before - (r.what.capacity() > std::string().capacity() ? 1 : 0);
        note += " " + std::to_string(what) + (r.thrown ? "!" : "");
        if(r.thrown)
        {
            ++failures;
            if(!hit)
                vp::fail("unexpected " + r.what);
            outcome want = alloc ? attempt([] { throw std::bad_alloc(); }) : planned(at, kind);
            if(r != want)
                vp::fail(want.what + " became " + r.what);
            // append() keeps what was added before the failure
            std::size_t more = l->indexed_size() - sizes;
            if(what == 7)
            {
                VP_CHECK(more < added.size(), "failed, but everything was added");
                for(std::size_t j = 0; j < more; ++j)
                    m.pos.push_back(added[j]);
            }
            else
                VP_CHECK(more == 0, "failed, but an argument was added");
            // room may have been made for further arguments
            VP_CHECK(left <= (clears ? 0 : 1), "blocks are left after a failure: " + std::to_string(left));
        }
        else if(clears)
        {
            m = {};
            m.pos = added;
        }
        else if(named)
            m.named[name] = added[0];
        else
            for(auto& a : added)
                m.pos.push_back(a);
        std::string got = show(*l);
        if(got != m.show())
            vp::fail("after" + note + " the list is " + vp::quote(got) + " and not " + vp::quote(m.show()));
    }
    c.note(note);
    c.nontrivial_if(failures >= 3);
    // everything is released with the list
    long with = vp::alloc_now().live_blocks;
    l.reset();
    c.tag(with > vp::alloc_now().live_blocks ? "memory was owned" : "no memory was owned");
}

// single arguments, copies and static lists
VP_FACET(single_arguments, 8000, 160000, "the construction was made to fail at least once")
{
    std::string text = um::enc<char>(um::gen_text(s, 30));
    copied<false> small(text);
    copied<true> large(text);
    converted conv{text};
    std::vector<parsed<char>> vec{{text}, {text}};
    keyed<char> key{text, {text}, {1}};
    std::size_t way = s.draw(9);
    std::size_t inner = s.draw(4);
    bool allocations = s.boolean();
    c.tag("way " + std::to_string(way));
    c.note(std::to_string(way) + " " + vp::quote(text));
    call<char> k;
    k.keeps_prefix = false;
    k.run = [&](std::string& out)
    {
        auto put = [&](const std::string& r) { out.assign(r.data(), r.size()); };
        auto put_arg = [&](const arg_t& a)
        {
            list_t l;
            l.emplace(a);
            put(vformat("{}", l));
        };
        switch(way)
        {
        case 0:
        {
            arg_t a(independent, large);
            arg_t b(std::move(a));
            put_arg(b);
            break;
        }
        case 1:
        {
            arg_t a(independent, small);
            arg_t b(7);
            b = a;
            put_arg(b);
            break;
        }
        case 2:
        {
            auto l = make_format_args<context>(conv, large, arg("n", vec));
            put(vformat("{}{}{n}", l));
            break;
        }
        case 3:
        {
            arg_t a(independent, vec);
            arg_t b(5);
            std::swap(a, b);
            put_arg(b);
            break;
        }
        case 4:
        {
            arg_t a(independent, key);
            indexing_value i0(static_cast<papilio::ssize_t>(inner));
            arg_t p = a.index(i0);
            put_arg(p);
            break;
        }
        case 5:
        {
            arg_t a(independent, key);
            arg_t p = a.attribute(attribute_name(independent, std::string("p")));
            put_arg(p);
            break;
        }
        case 6:
        {
            arg_t a(independent, text);
            arg_t b(a);
            arg_t d(std::move(a));
            put_arg(d);
            break;
        }
        case 7:
        {
            indexing_value key1(independent, std::string("k"));
            arg_t a(independent, key);
            put_arg(a.index(key1));
            break;
        }
        default:
        {
            variable v(utf::string_container(independent, text));
            variable w(v);
            variable x(1);
            x = w;
            std::string r(x.as<utf::string_container>().to_string_view());
            put(r);
            break;
        }
        }
    };
    statistics st = explore(s, k, allocations, 40);
    c.nontrivial_if(st.failed > 0);
}
} // namespace
