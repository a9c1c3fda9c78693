// I01 - the calls to which the failures happen
#ifndef I01_CALLS_HPP
#define I01_CALLS_HPP
#include "I01_common.hpp"

namespace i01
{
template <typename CharT>
void to_sink(vp::source& s, vp::ctx& c, bool values, bool writes_fail)
{
    prepared<CharT, sink_iterator<CharT>, false> p(s, values);
    c.note(p.note);
    sink<CharT> sk;
    sk.can_fail = writes_fail;
    sk.got.reserve(1 << 16);
    call<CharT> k;
    bool loc = (std::is_same_v<CharT, char> || std::is_same_v<CharT, wchar_t>) && s.boolean();
    bool debug = s.chance(1, 3);
    using context = typename prepared<CharT, sink_iterator<CharT>, false>::context;
    k.run = [&](std::basic_string<CharT>& out)
    {
        sk.got.clear();
        struct copy_out
        {
            std::basic_string<CharT>& from;
            std::basic_string<CharT>& to;

            ~copy_out() { to.assign(from.data(), from.size()); }
        } guard{sk.got, out};
        if(debug)
        {
            basic_format_parse_context<context> pc(p.fmt, p.args);
            context fc(sink_iterator<CharT>{&sk}, p.args);
            basic_interpreter<context, true> intp;
            intp.format(pc, fc);
        }
        else if(loc)
        {
            static std::locale l = std::locale::classic();
            if constexpr(std::is_same_v<CharT, char> || std::is_same_v<CharT, wchar_t>)
                PAPILIO_NS vformat_to(sink_iterator<CharT>{&sk}, l, std::basic_string_view<CharT>(p.fmt), p.args);
        }
        else
            PAPILIO_NS vformat_to(sink_iterator<CharT>{&sk}, std::basic_string_view<CharT>(p.fmt), p.args);
    };
    count(c, explore(s, k, false, 60));
}

template <typename CharT>
void to_string_args(vp::source& s, vp::ctx& c, bool allocations)
{
    using out_t = format_iterator_for<CharT>;
    prepared<CharT, out_t, true> p(s, s.boolean());
    c.note(p.note);
    call<CharT> k;
    std::basic_string<CharT> growing;
    std::size_t way = s.draw(5);
    using str = std::basic_string<CharT>;
    using context = typename prepared<CharT, out_t, true>::context;
    std::basic_string_view<CharT> fmt = p.fmt;
    k.run = [&, way, fmt](str& out)
    {
        auto leave = [&](const str& r)
        {
            // in the memory that is already there
            out.assign(r.data(), r.size());
        };
        switch(way)
        {
        case 0:
        {
            str r = PAPILIO_NS vformat(fmt, p.args);
            leave(r);
            break;
        }
        case 1:
        {
            str r;
            struct guard_t
            {
                str& from;
                str& to;

                ~guard_t() { to.assign(from.data(), from.size()); }
            } guard{r, out};
            PAPILIO_NS vformat_to(std::back_inserter(r), fmt, p.args);
            break;
        }
        case 2:
        {
            str r;
            struct guard_t
            {
                str& from;
                str& to;

                ~guard_t() { to.assign(from.data(), from.size()); }
            } guard{r, out};
            basic_format_parse_context<context> pc(fmt, p.args);
            context fc(std::back_inserter(r), p.args);
            basic_interpreter<context, true> intp;
            intp.format(pc, fc);
            break;
        }
        case 3:
        {
            formatted_range<CharT> fr(fmt, p.args);
            for(CharT ch : fr)
                out.push_back(ch); // has room
            break;
        }
        default:
        {
            basic_format_args_ref<context, CharT> ref(p.args);
            str r = PAPILIO_NS vformat(fmt, ref);
            leave(r);
            break;
        }
        }
    };
    k.keeps_prefix = way != 0 && way != 4;
    c.tag(way == 0 ? "vformat" : way == 1 ? "vformat_to" : way == 2 ? "interpreter" : way == 3 ? "formatted_range" : "vformat of a reference");
    count(c, explore(s, k, allocations, 60));
}

} // namespace i01
#endif
