// I01 - strings whose allocations fail
#include "I01_common.hpp"

namespace
{
using namespace i01;

// A history of changes to a string, some of which fail: it then keeps its text, or (for a
// change made of several steps) some text that can be read, and can be used as before.
template <typename CharT>
void string_history(vp::source& s, vp::ctx& c)
{
    using str = std::basic_string<CharT>;
    using sc = utf::basic_string_container<CharT>;
    zoo::store st;
    text m; // what the string should contain
    sc x;
    long failures = 0;
    std::string note;
    for(std::size_t steps = 1 + s.size(15), i = 0; i < steps; ++i)
    {
        text d = um::gen_text(s, 20);
        const str& t = st.keep(um::enc<CharT>(d));
        char32_t cp = um::gen_scalar(s);
        std::size_t n = s.size(12);
        long at = s.chance(2, 3) ? s.range(1, 3) : 0;
        std::size_t what = s.draw(15);
        std::size_t pos = m.empty() ? 0 : s.draw(m.size());
        bool several = false; // made of several steps
        text want = m;
        std::function<void()> op;
        switch(what)
        {
        case 0:
            op = [&] { x.assign(std::basic_string_view<CharT>(t)); };
            want = d;
            break;
        case 1:
            op = [&] { x.assign(independent, std::basic_string_view<CharT>(t)); };
            want = d;
            break;
        case 2:
            op = [&] { x.push_back(CharT('x')); };
            want += U'x';
            break;
        case 3:
            op = [&] { x.push_back(utf::codepoint(cp)); };
            want += cp;
            several = true;
            break;
        case 4:
            op = [&] { x.assign(n, CharT('y')); };
            want.assign(n, U'y');
            break;
        case 5:
            op = [&] { x.assign(n, utf::codepoint(cp)); };
            want.clear();
            for(std::size_t j = 0; j < n; ++j)
                want += cp;
            several = true;
            break;
        case 6: op = [&] { x.obtain_ownership(); }; break;
        case 7: op = [&] { (void)x.c_str(); }; break;
        case 8:
            op = [&]
            {
                sc y(independent, std::basic_string_view<CharT>(t).data(), t.size());
                x = std::move(y);
            };
            want = d;
            break;
        case 9:
            op = [&]
            {
                sc y(independent, t);
                x = y;
                // y is gone, x has a copy of its own
            };
            want = d;
            break;
        case 10:
            op = [&] { x.assign_range(t); };
            want = d;
            break;
        case 11:
            if(m.empty())
                continue;
            op = [&, pos] { x[pos] = utf::codepoint(cp); };
            want[pos] = cp;
            several = true;
            break;
        case 12:
            op = [&]
            {
                sc y(t.c_str());
                y.push_back(CharT('z'));
                x.swap(y);
            };
            if(d.find(U'\0') != text::npos)
                continue;
            want = d + U'z';
            break;
        case 13:
        {
            const text& cps = st.keep(um::gen_text(s, 10));
            op = [&] { x.assign_range(st.keep(std::vector<utf::codepoint>(cps.begin(), cps.end()))); };
            want = cps;
            // (keeping the vector may fail as well)
            break;
        }
        default:
            op = [&] { x = independent(std::basic_string_view<CharT>(t)); };
            want = d;
            break;
        }
        vp::alloc_fail_after(at);
        bool failed = false;
        try
        {
            op();
        }
        catch(const std::bad_alloc&)
        {
            failed = true;
        }
        bool hit = vp::alloc_fail_triggered();
        vp::alloc_fail_after(0);
        note += " " + std::to_string(what) + (failed ? "!" : "");
        VP_CHECK(!hit || failed, "a failed allocation was not reported, after" + note);
        str got(x.to_string_view());
        if(failed)
        {
            ++failures;
            if(several)
            {
                // whatever it is (half a character may have been added), it can be read
                attempt([&]
                        {
                            std::size_t len = 0;
                            for(char32_t ch : x)
                                len += ch != 0;
                            (void)len; });
                VP_CHECK(x.size() == got.size(), "size() differs from the text, after" + note);
                x.assign(std::basic_string_view<CharT>(t));
                m = d;
                got = str(x.to_string_view());
            }
            VP_CHECK(got == um::enc<CharT>(m), "the text " + vp::quote(um::enc<char>(m)) + " became " + vp::quote(got) + " by failing, after" + note);
        }
        else
        {
            m = want;
            VP_CHECK(got == um::enc<CharT>(m), "the text is " + vp::quote(got) + " and not " + vp::quote(um::enc<char>(m)) + ", after" + note);
        }
    }
    c.note(note);
    c.nontrivial_if(failures >= 2);
}

VP_FACET(strings, 10000, 200000, "two changes or more failed")
{
    switch(s.draw(5))
    {
    case 0: string_history<char8_t>(s, c); break;
    case 1: string_history<wchar_t>(s, c); break;
    case 2: string_history<char16_t>(s, c); break;
    case 3: string_history<char32_t>(s, c); break;
    default: string_history<char>(s, c); break;
    }
}

template <typename From, typename To>
void convert(vp::source& s, vp::ctx& c)
{
    text d = um::gen_text(s, 60);
    std::basic_string<From> t = um::enc<From>(d);
    call<To> k;
    k.keeps_prefix = false;
    bool container = s.boolean();
    k.run = [&](std::basic_string<To>& out)
    {
        std::basic_string<To> r = container ? utf::basic_string_ref<From>(utf::basic_string_container<From>(independent, t)).template to_string<To>() : utf::basic_string_ref<From>(t).template to_string<To>();
        if(r != um::enc<To>(d))
            vp::fail("wrong conversion");
        out.assign(r.data(), r.size());
    };
    c.note(vp::quote(um::enc<char>(d)));
    statistics st = explore(s, k, true, 40);
    c.nontrivial_if(st.failed > 0);
}

template <typename From>
void convert_from(vp::source& s, vp::ctx& c)
{
    switch(s.draw(5))
    {
    case 0: convert<From, char8_t>(s, c); break;
    case 1: convert<From, wchar_t>(s, c); break;
    case 2: convert<From, char16_t>(s, c); break;
    case 3: convert<From, char32_t>(s, c); break;
    default: convert<From, char>(s, c); break;
    }
}

VP_FACET(conversions, 4000, 80000, "an allocation failed")
{
    switch(s.draw(5))
    {
    case 0: convert_from<char8_t>(s, c); break;
    case 1: convert_from<wchar_t>(s, c); break;
    case 2: convert_from<char16_t>(s, c); break;
    case 3: convert_from<char32_t>(s, c); break;
    default: convert_from<char>(s, c); break;
    }
}
} // namespace
