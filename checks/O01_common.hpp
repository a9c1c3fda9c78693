// O01 - all entry points produce the same characters; O02 - bounded output
#ifndef O01_COMMON_HPP
#define O01_COMMON_HPP
#define FM_XCHAR
#include "genfmt.hpp"
#include "mutfmt.hpp"
#include <deque>
#include <list>
#include <locale>
#include <memory>

using gf::builder;
using gf::text;

// A type of the user whose formatter makes nested calls of several kinds
template <typename CharT>
struct box
{
    int i;
    std::basic_string<CharT> t;
};

template <typename CharT>
class papilio::formatter<box<CharT>, CharT>
{
public:
    template <typename ParseContext>
    auto parse(ParseContext& ctx)
    {
        return ctx.begin();
    }

    template <typename Context>
    auto format(const box<CharT>& v, Context& ctx) const
    {
        using context_t = papilio::format_context_traits<Context>;
        static const auto full = um::enc<CharT>(U"<{}|{}>"), mid = um::enc<CharT>(U"{}|{}");
        switch(v.i & 3)
        {
        case 0: // in one call with the context
            context_t::format_to(ctx, std::basic_string_view<CharT>(full), v.i, v.t);
            return ctx.out();
        case 1: // in one call with the iterator
            return papilio::format_to(ctx.out(), std::basic_string_view<CharT>(full), v.i, v.t);
        case 2: // in pieces
            context_t::append(ctx, CharT('<'));
            context_t::advance_to(ctx, papilio::format_to(ctx.out(), std::basic_string_view<CharT>(mid), v.i, v.t));
            context_t::append(ctx, U'>', 1);
            return ctx.out();
        default: // by hand
        {
            auto it = ctx.out();
            auto s = papilio::format(std::basic_string_view<CharT>(full), v.i, v.t);
            for(CharT c : s)
            {
                *it = c;
                ++it;
            }
            return it;
        }
        }
    }
};

// The arguments of every program here, in their own types.
template <typename CharT>
struct pack
{
    int i;
    std::basic_string<CharT> str;
    std::unique_ptr<um::exact<CharT>> mem;
    std::basic_string_view<CharT> view;
    double d;
    bool b;
    papilio::utf::codepoint cp;
    int width;
    std::vector<int> list;
    box<CharT> user;
    std::basic_string<CharT> name_b = um::enc<CharT>(U"box"), name_w = um::enc<CharT>(U"w"), name_s = um::enc<CharT>(U"\u00C4name"), name_l = um::enc<CharT>(U"list");

    // Calls f(args...) with the arguments
    template <typename F>
    decltype(auto) apply(F&& f) const
    {
        return f(i, view, d, b, cp, width, str, papilio::arg(name_w.c_str(), width), papilio::arg(name_s.c_str(), str), papilio::arg(name_l.c_str(), list), papilio::arg(name_b.c_str(), user));
    }
};

template <typename CharT>
pack<CharT> prepare(vp::source& s, builder& b)
{
    pack<CharT> p;
    auto one = [&](unsigned k)
    { return gf::gen_value(s, k, 8); };
    b.pos = {one(gf::k_int), one(gf::k_str), one(gf::k_double), one(gf::k_bool), one(gf::k_cp), one(gf::k_width), one(gf::k_str)};
    gf::value w = b.pos[5];
    b.named = {{U"w", w}, {U"\u00C4name", b.pos[6]}};
    b.fixed = true;
    p.i = static_cast<int>(b.pos[0].i);
    p.mem = std::make_unique<um::exact<CharT>>(um::enc<CharT>(b.pos[1].s));
    p.view = p.mem->view();
    p.d = b.pos[2].f;
    p.b = b.pos[3].i != 0;
    p.cp = papilio::utf::codepoint(b.pos[4].c);
    p.width = static_cast<int>(w.i);
    p.str = um::enc<CharT>(b.pos[6].s);
    p.list.resize(s.small_size(4));
    text l = U"[";
    for(std::size_t i = 0; i < p.list.size(); ++i)
    {
        p.list[i] = static_cast<int>(s.range(-50, 50));
        l += (i ? U", " : U"") + gf::num(p.list[i]);
    }
    l += U"]";
    gf::value bt = gf::gen_value(s, gf::k_str, 5);
    p.user = {static_cast<int>(s.range(-20, 20)), um::enc<CharT>(bt.s)};
    text u = U"<" + gf::num(p.user.i) + U"|" + bt.s + U">";
    b.extra = [l, u](builder& x)
    {
        bool which = x.s.boolean();
        x.fmt += which ? U"{list}" : U"{box}";
        x.put(which ? l : u);
    };
    return p;
}

// An output iterator that counts what it is given and must be used in the usual order: * = ++
template <typename CharT>
struct strict_iterator
{
    using iterator_category = std::output_iterator_tag;
    using value_type = CharT;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;

    std::vector<CharT>* to = nullptr;
    std::size_t at = 0;

    struct slot
    {
        strict_iterator* it;
        void operator=(CharT c) const
        {
            if(it->at != it->to->size())
                vp::fail("written at position " + std::to_string(it->at) + " while " + std::to_string(it->to->size()) + " characters are there");
            it->to->push_back(c);
        }
    };

    slot operator*() { return {this}; }
    strict_iterator& operator++()
    {
        ++at;
        return *this;
    }
    strict_iterator operator++(int)
    {
        strict_iterator r = *this;
        ++at;
        return r;
    }
};

template <typename CharT>
constexpr bool has_locale = std::is_same_v<CharT, char> || std::is_same_v<CharT, wchar_t>;

template <typename CharT>
using base_ctx = papilio::basic_format_context<papilio::format_iterator_for<CharT>, CharT>;
#endif
