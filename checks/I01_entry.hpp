// I01 - failures during each of the entry points, with arguments given directly
#ifndef I01_ENTRY_HPP
#define I01_ENTRY_HPP
#include "I01_common.hpp"
#include <cstdio>
#include <memory>

namespace i01
{
// a stream buffer that never allocates
struct reserved_buf : std::streambuf
{
    std::string got;

    int_type overflow(int_type c) override
    {
        if(c != traits_type::eof())
            got.push_back(static_cast<char>(c));
        return 0;
    }

    std::streamsize xsputn(const char* p, std::streamsize n) override
    {
        got.append(p, static_cast<std::size_t>(n));
        return n;
    }
};

// a file in memory
struct memory_file
{
    char* data = nullptr;
    std::size_t size = 0;
    std::FILE* f = open_memstream(&data, &size);

    memory_file() = default;
    memory_file(const memory_file&) = delete;

    ~memory_file()
    {
        std::fclose(f);
        std::free(data);
    }

    void restart()
    {
        std::rewind(f);
        std::fflush(f);
    }

    std::string_view text()
    {
        std::fflush(f);
        // the size is the smaller one of the position and the length
        return {data, static_cast<std::size_t>(std::ftell(f))};
    }
};

template <typename CharT>
void entry(vp::source& s, vp::ctx& c, bool allocations)
{
    using str = std::basic_string<CharT>;
    using view = std::basic_string_view<CharT>;
    constexpr bool narrow = std::is_same_v<CharT, char>;
    keyed<CharT> a0{gen_str<CharT>(s), {gen_str<CharT>(s)}, {7, 8}};
    streamed<CharT> a1{gen_str<CharT>(s)};
    std::vector<parsed<CharT>> a2;
    for(std::size_t n = s.size(3); n > 0; --n)
        a2.push_back({gen_str<CharT>(s)});
    delegating<CharT> a3{gen_str<CharT>(s), static_cast<int>(s.draw(100))};
    text f;
    gf::builder b(s);
    for(std::size_t n = 1 + s.size(4); n > 0; --n)
    {
        b.fmt.clear();
        b.literal(b.gen_literal(5));
        f += b.fmt;
        f += s.pick<text>({U"{0}", U"{0[0]:2}", U"{0[1]}", U"{0[2]}", U"{0[3]:>30}", U"{0.p:1}", U"{0['k']}", U"{0[1:]}", U"{1}", U"{1:>30}", U"{1:.3}", U"{2}", U"{2:n}", U"{2.size}", U"{x}", U"{x:}", U"{$ {2.size} > 1: '{2[0]:2}': '{1}'}", U"{$ {0[1].size}: '{x}'}", U"{4}", U"{4:>40}", U"{9}", U"{0:5}", U"{1.none}"});
    }
    text a4t = um::gen_text(s, 30);
    str a4 = um::enc<CharT>(a4t);
    const str fmt_s = um::enc<CharT>(f);
    view fmt = fmt_s;
    std::size_t way = s.draw(narrow ? 14 : 8);
    std::ptrdiff_t limit = static_cast<std::ptrdiff_t>(s.small_size(40));
    static std::locale classic = std::locale::classic();
    sink<CharT> sk;
    sk.got.reserve(1 << 16);
    sk.can_fail = s.boolean();
    reserved_buf rb;
    rb.got.reserve(1 << 16);
    std::ostream os(&rb);
    if(s.boolean())
        os.exceptions(std::ios_base::badbit | std::ios_base::failbit);
    memory_file mf;
    auto put = [](str& out, view v) { out.assign(v.data(), v.size()); };
    static const CharT x_name[] = {CharT('x'), 0};
    static constexpr const char* names[] = {"format", "format with locale", "format_to a string", "format_to", "format_to with locale", "format_to_n", "format_to_n a string", "formatted_size", "print to a stream", "println to a stream", "print to a file", "println to a file", "formatted_range", "vformat"};
    c.tag(names[way]);
    c.note(std::string(names[way]) + " " + vp::quote(um::enc<char>(f)));
    call<CharT> k;
    k.keeps_prefix = !(way == 0 || way == 1 || way == 7 || way == 13);
    auto perform = [&](str& out, auto&&... args)
    {
        switch(way)
        {
        case 0: put(out, PAPILIO_NS format(fmt, args...)); break;
        case 1: put(out, PAPILIO_NS format(classic, fmt, args...)); break;
        case 2:
        case 6:
        {
            str r;
            struct guard_t
            {
                str& from;
                str& to;

                ~guard_t() { to.assign(from.data(), from.size()); }
            } guard{r, out};
            if(way == 2)
                PAPILIO_NS format_to(std::back_inserter(r), fmt, args...);
            else
                PAPILIO_NS format_to_n(std::back_inserter(r), limit, fmt, args...);
            break;
        }
        case 3:
        case 4:
        case 5:
        {
            sk.got.clear();
            struct guard_t
            {
                str& from;
                str& to;

                ~guard_t() { to.assign(from.data(), from.size()); }
            } guard{sk.got, out};
            if(way == 3)
                PAPILIO_NS format_to(sink_iterator<CharT>{&sk}, fmt, args...);
            else if(way == 4)
                PAPILIO_NS format_to(sink_iterator<CharT>{&sk}, classic, fmt, args...);
            else
                PAPILIO_NS format_to_n(sink_iterator<CharT>{&sk}, limit, fmt, args...);
            break;
        }
        case 7:
        {
            std::size_t n = PAPILIO_NS formatted_size(fmt, args...);
            for(char ch : std::to_string(n))
                out.push_back(static_cast<CharT>(ch));
            break;
        }
        default:
            if constexpr(narrow)
            {
                switch(way)
                {
                case 8:
                case 9:
                {
                    rb.got.clear();
                    os.clear();
                    struct guard_t
                    {
                        str& from;
                        str& to;

                        ~guard_t() { to.assign(from.data(), from.size()); }
                    } guard{rb.got, out};
                    if(way == 8)
                        PAPILIO_NS print(os, fmt, args...);
                    else
                        PAPILIO_NS println(os, fmt, args...);
                    VP_CHECK(os.good(), "the stream failed although the buffer did not");
                    break;
                }
                case 10:
                case 11:
                {
                    mf.restart();
                    struct guard_t
                    {
                        memory_file& from;
                        str& to;

                        ~guard_t()
                        {
                            auto t = from.text();
                            to.assign(t.data(), t.size());
                        }
                    } guard{mf, out};
                    if(way == 10)
                        PAPILIO_NS print(mf.f, fmt, args...);
                    else
                        PAPILIO_NS println(mf.f, fmt, args...);
                    break;
                }
                case 12:
                {
                    auto fa = PAPILIO_NS make_format_args(args...);
                    formatted_range<CharT> fr(fmt, fa);
                    for(CharT ch : fr)
                        out.push_back(ch);
                    break;
                }
                default:
                {
                    auto fa = PAPILIO_NS make_format_args(args...);
                    put(out, PAPILIO_NS vformat(fmt, fa));
                    break;
                }
                }
            }
            break;
        }
    };
    // the named argument comes last for papilio::arg, the others by position
    k.run = [&](str& out)
    {
        perform(out, a0, a1, a2, a3, a4, papilio::arg(x_name, a3));
    };
    count(c, explore(s, k, allocations, 40));
}
} // namespace i01
#endif
