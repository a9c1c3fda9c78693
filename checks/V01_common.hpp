// V01 - stream and sequence helpers: every character and element exactly once, in order
#ifndef V01_COMMON_HPP
#define V01_COMMON_HPP
#include "utfmodel.hpp"
#include <papilio/utility.hpp>
#include <deque>
#include <iomanip>
#include <iterator>
#include <list>
#include <map>
#include <set>
#include <optional>
#include <span>
#include <sstream>
#include <vector>

using namespace papilio;

namespace
{
template <typename CharT>
std::basic_string<CharT> wid(const std::string& a) // ASCII
{
    return std::basic_string<CharT>(a.begin(), a.end());
}

// an output iterator that only has what an output iterator must have, and notices positions that
// are written twice or skipped
template <typename CharT>
struct strict_out
{
    struct state
    {
        std::basic_string<CharT> text;
        bool fresh = true; // the current position has not been written
        std::string bad;
    };

    state* st = nullptr;
    using difference_type = std::ptrdiff_t;

    struct ref
    {
        state* st;

        const ref& operator=(CharT c) const
        {
            if(!st->fresh)
                st->bad = "a position was written twice";
            st->fresh = false;
            st->text += c;
            return *this;
        }
    };

    ref operator*() const
    {
        return {st};
    }

    strict_out& operator++()
    {
        if(st->fresh)
            st->bad = "a position was skipped";
        st->fresh = true;
        return *this;
    }

    strict_out operator++(int)
    {
        strict_out t = *this;
        ++*this;
        return t;
    }
};

// one random piece of output, applied to both streams
template <typename CharT>
void one_write(vp::source& s, std::basic_ostream<CharT>& a, std::basic_ostream<CharT>& b, std::string& desc, bool& plain_only)
{
    using str = std::basic_string<CharT>;
    str t = um::enc<CharT>(um::gen_text(s, 6, true));
    switch(s.draw(12))
    {
    case 0:
    case 1:
    {
        int w = s.chance(1, 3) ? int(s.draw(10)) : 0;
        bool left = s.boolean();
        auto f = [&](auto& os)
        { os << std::setw(w) << (left ? std::left : std::right) << std::setfill(CharT('*')) << t; };
        desc += "string ";
        if(w)
            plain_only = false;
        f(a), f(b);
        break;
    }
    case 2:
    {
        desc += "put ";
        CharT ch = t.empty() ? CharT('x') : t[0];
        a.put(ch), b.put(ch);
        break;
    }
    case 3:
        desc += "write ";
        a.write(t.data(), std::streamsize(t.size())), b.write(t.data(), std::streamsize(t.size()));
        break;
    case 4:
    {
        desc += "number ";
        long long v = s.chance(1, 4) ? std::numeric_limits<long long>::min() : s.range(-100000, 100000);
        bool hex = s.boolean();
        plain_only = false;
        auto f = [&](auto& os)
        { os << (hex ? std::hex : std::dec) << v; };
        f(a), f(b);
        break;
    }
    case 5:
        desc += "double ";
        plain_only = false;
        {
            double d = double(s.range(-1000, 1000)) / 8;
            a << d, b << d;
        }
        break;
    case 6:
        desc += "sputn ";
        {
            auto x = a.rdbuf()->sputn(t.data(), std::streamsize(t.size()));
            auto y = b.rdbuf()->sputn(t.data(), std::streamsize(t.size()));
            VP_CHECK(x == y, "sputn: number of characters");
        }
        break;
    case 7:
        desc += "sputc ";
        {
            CharT ch = t.empty() ? CharT('y') : t.back();
            auto x = a.rdbuf()->sputc(ch);
            auto y = b.rdbuf()->sputc(ch);
            VP_CHECK(x == y, "sputc: result");
        }
        break;
    case 8:
        desc += "flush ";
        a.flush(), b.flush();
        break;
    case 9:
        desc += "endl ";
        a << std::endl, b << std::endl;
        break;
    case 10:
        desc += "byte ";
        {
            // every value of the character type except the one that means end of file
            CharT ch = static_cast<CharT>(sizeof(CharT) == 1 ? s.draw(256) : s.pick({std::uint64_t(0), std::uint64_t(0x7F), std::uint64_t(0xFF), std::uint64_t(0x100), std::uint64_t(0xFFFF), std::uint64_t(0x10FFFF)}));
            a << ch, b << ch;
        }
        break;
    default:
        desc += "iterator ";
        std::copy(t.begin(), t.end(), std::ostreambuf_iterator<CharT>(a));
        std::copy(t.begin(), t.end(), std::ostreambuf_iterator<CharT>(b));
        break;
    }
}

template <typename CharT>
void writes(vp::source& s, vp::ctx& c)
{
    using str = std::basic_string<CharT>;
    std::basic_ostringstream<CharT> model;
    std::size_t n = 1 + s.draw(8);
    unsigned target = static_cast<unsigned>(s.draw(5));
    bool plain = true;
    std::string desc = "target " + vp::str(target) + ": ";
    auto run = [&](auto& os, auto content, auto pos)
    {
        for(std::size_t i = 0; i < n; ++i)
        {
            std::string one;
            one_write<CharT>(s, os, model, one, plain);
            desc += one;
            c.note(desc);
            VP_CHECK(bool(os) == bool(model), desc + ": stream state");
            VP_CHECK(content(os) == model.str(), desc + ": text is not what a string stream holds");
            pos(os, model.str().size());
        }
    };
    auto nowhere = [](auto&, std::size_t) {};
    if(target == 0)
    {
        str out = wid<CharT>("<");
        basic_oiterstream<CharT, std::back_insert_iterator<str>> os(std::back_inserter(out));
        model << CharT('<');
        run(os, [&](auto&)
            { return out; }, nowhere);
    }
    else if(target == 1)
    {
        std::vector<CharT> buf(4096);
        basic_oiterstream<CharT, CharT*> os(buf.data());
        run(os, [&](auto& o)
            { return str(buf.data(), o.base()); },
            [&](auto& o, std::size_t k)
            { VP_CHECK(o.base() == buf.data() + k, "base() is not behind the last character"); });
    }
    else if(target == 2)
    {
        std::deque<CharT> d{CharT('e')};
        basic_oiterstream<CharT, std::insert_iterator<std::deque<CharT>>> os(std::inserter(d, d.begin()));
        run(os, [&](auto&)
            { VP_CHECK(d.back() == CharT('e'), "the element behind the insertion point"); return str(d.begin(), d.end() - 1); }, nowhere);
    }
    else if(target == 3)
    {
        typename strict_out<CharT>::state st;
        basic_oiterstream<CharT, strict_out<CharT>> os(strict_out<CharT>{&st});
        run(os, [&](auto&)
            { VP_CHECK(st.bad.empty() && st.fresh, "output iterator protocol: " + st.bad); return st.text; }, nowhere);
    }
    else
    {
        // the buffer on its own, made in place
        std::list<CharT> l;
        basic_iterbuf<CharT, std::back_insert_iterator<std::list<CharT>>> buf(std::in_place, l);
        std::basic_ostream<CharT> os(&buf);
        run(os, [&](auto&)
            { return str(l.begin(), l.end()); }, nowhere);
        auto it = buf.base();
        *it = CharT('!'), ++it;
        VP_CHECK(str(l.begin(), l.end()) == model.str() + CharT('!'), desc + ": writing through base() continues the text");
    }
    c.tag("target " + vp::str(target));
    c.nontrivial_if(n >= 3 && model.str().size() >= 6);
}

// an endless single-pass input: the text again and again; counts how often it was read and advanced
template <typename CharT>
struct endless
{
    struct state
    {
        std::basic_string<CharT> text;
        std::size_t pos = 0, reads = 0;
    };

    state* st = nullptr;
    using value_type = CharT;
    using difference_type = std::ptrdiff_t;

    CharT operator*() const
    {
        ++st->reads;
        return st->text[st->pos % st->text.size()];
    }

    endless& operator++()
    {
        ++st->pos;
        return *this;
    }

    void operator++(int)
    {
        ++*this;
    }
};

template <typename CharT>
void reads(vp::source& s, vp::ctx& c)
{
    using str = std::basic_string<CharT>;
    // words and numbers, always a line end and a letter somewhere so that nothing reads for ever
    str unit;
    std::size_t parts = 1 + s.draw(5);
    for(std::size_t i = 0; i < parts; ++i)
    {
        switch(s.draw(4))
        {
        case 0: unit += wid<CharT>(std::to_string(s.range(-500, 500)) + " "); break;
        case 1: unit += um::enc<CharT>(um::gen_text(s, 5)) + wid<CharT>(" "); break;
        case 2: unit += wid<CharT>("\n\t "); break;
        default: unit += CharT('a' + s.draw(26)); break;
        }
    }
    unit += wid<CharT>("\nz 7 ");
    str all;
    while(all.size() < 4000)
        all += unit;
    std::basic_istringstream<CharT> model(all);
    unsigned source = static_cast<unsigned>(s.draw(3));
    std::string desc = "source " + vp::str(source) + ": ";
    std::size_t n = 1 + s.draw(10);
    std::size_t kinds = 0;
    auto run = [&](std::basic_istream<CharT>& is, auto after)
    {
        for(std::size_t i = 0; i < n && bool(model); ++i)
        {
            switch(s.draw(9))
            {
            case 0:
            {
                desc += "get ";
                auto x = is.get(), y = model.get();
                VP_CHECK(x == y, desc);
                break;
            }
            case 1:
            {
                desc += "peek ";
                auto x = is.peek(), y = model.peek();
                VP_CHECK(x == y, desc);
                VP_CHECK(is.peek() == y, desc + "twice");
                break;
            }
            case 2:
            {
                desc += "word ";
                str x, y;
                is >> x, model >> y;
                VP_CHECK(x == y, desc);
                kinds |= 1;
                break;
            }
            case 3:
            {
                desc += "number ";
                int x = -1, y = -1;
                is >> x, model >> y;
                VP_CHECK(x == y && is.rdstate() == model.rdstate(), desc);
                is.clear(), model.clear();
                kinds |= 2;
                break;
            }
            case 4:
            {
                desc += "line ";
                str x, y;
                std::getline(is, x), std::getline(model, y);
                VP_CHECK(x == y, desc);
                kinds |= 4;
                break;
            }
            case 5:
            {
                std::size_t k = s.draw(20);
                desc += "read " + vp::str(k) + " ";
                str x(k, CharT('?')), y(k, CharT('?'));
                is.read(x.data(), std::streamsize(k)), model.read(y.data(), std::streamsize(k));
                VP_CHECK(x == y && is.gcount() == model.gcount(), desc);
                kinds |= 8;
                break;
            }
            case 6:
            {
                std::size_t k = s.draw(12);
                desc += "ignore " + vp::str(k) + " ";
                is.ignore(std::streamsize(k)), model.ignore(std::streamsize(k));
                break;
            }
            case 7:
            {
                desc += "sgetc, sbumpc, snextc ";
                auto *p = is.rdbuf(), *q = model.rdbuf();
                VP_CHECK(p->sgetc() == q->sgetc(), desc);
                VP_CHECK(p->sbumpc() == q->sbumpc(), desc);
                VP_CHECK(p->snextc() == q->snextc(), desc);
                break;
            }
            default:
            {
                desc += "spaces ";
                is >> std::ws, model >> std::ws;
                break;
            }
            }
            c.note(desc);
            VP_CHECK(bool(is) == bool(model), desc + ": stream state");
            after();
        }
        VP_CHECK(is.peek() == model.peek(), desc + ": next character");
    };
    if(source == 0)
    {
        typename endless<CharT>::state st{unit};
        basic_iterbuf<CharT, endless<CharT>> buf(endless<CharT>{&st});
        std::basic_istream<CharT> is(&buf);
        run(is, [&]
            {
            std::size_t used = std::size_t(model.tellg());
            VP_CHECK(st.reads >= st.pos, desc + ": a position was skipped");
            VP_CHECK(st.pos <= used + 1, desc + ": more was taken from the iterator than was asked for"); });
    }
    else if(source == 1)
    {
        um::exact<CharT> e(all);
        basic_iterbuf<CharT, const CharT*> buf(e.data());
        std::basic_istream<CharT> is(&buf);
        run(is, [&]
            {
            std::size_t used = std::size_t(model.tellg()), at = std::size_t(buf.base() - e.data());
            VP_CHECK(at == used || at == used + 1, desc + ": base() is elsewhere"); });
    }
    else
    {
        std::list<CharT> l(all.begin(), all.end());
        basic_iterbuf<CharT, typename std::list<CharT>::iterator> buf(std::in_place, l.begin());
        std::basic_istream<CharT> is(&buf);
        run(is, [] {});
        VP_CHECK(str(l.begin(), l.end()) == all, desc + ": the text was changed by reading it");
    }
    c.tag("source " + vp::str(source));
    c.nontrivial_if(n >= 3 && (kinds & (kinds - 1)));
}

// streaming a joined range: the elements, in order, with the separator between them
template <typename CharT>
void joins(vp::source& s, vp::ctx& c)
{
    using str = std::basic_string<CharT>;
    using sv = std::basic_string_view<CharT>;
    str sep = um::enc<CharT>(um::gen_text(s, 4));
    unsigned how = static_cast<unsigned>(s.draw(3)), kind = static_cast<unsigned>(s.draw(7));
    std::size_t n = s.small_size(6);
    std::vector<str> words(n);
    std::vector<int> nums(n);
    for(std::size_t i = 0; i < n; ++i)
        words[i] = um::enc<CharT>(um::gen_text(s, 3)), nums[i] = int(s.range(-1000, 1000));
    c.tag("range " + vp::str(kind) + " way " + vp::str(how));
    c.nontrivial_if(n >= 2);
    auto base = s.pick({std::ios_base::dec, std::ios_base::hex, std::ios_base::oct});
    auto run = [&](auto& rng)
    {
        using R = std::remove_reference_t<decltype(rng)>;
        std::basic_ostringstream<CharT> want, got;
        want.setf(base, std::ios_base::basefield), got.setf(base, std::ios_base::basefield);
        const str use = how == 0 ? wid<CharT>(", ") : sep;
        want << CharT('[');
        bool first = true;
        std::size_t count = 0;
        for(auto&& e : rng)
        {
            if(!std::exchange(first, false))
                want << use;
            want << e;
            ++count;
        }
        want << CharT(']');
        str z = sep; // NUL-terminated
        joiner<R, CharT> j = how == 0 ? join<CharT>(rng) : how == 1 ? join(rng, sv(z)) : join(rng, z.c_str());
        got << CharT('[') << j << CharT(']');
        c.note(vp::str(kind) + "/" + vp::str(how) + ": " + vp::str(count) + " elements");
        VP_CHECK(got.str() == want.str(), "the joined range is not its elements with the separator between them");
        VP_CHECK(j.separator() == use, "separator()");
        std::size_t k = 0;
        for(auto it = j.begin(); it != j.end(); ++it)
            ++k;
        VP_CHECK(k == count, "iterating over the joiner");
        auto j2 = j;
        got.str({}), got << j2 << j;
        want.str({}), want << j << j2;
        VP_CHECK(got.str() == want.str(), "a copied joiner");
    };
    switch(kind)
    {
    case 0: run(words); break;
    case 1:
    {
        const std::list<str> l(words.begin(), words.end());
        run(l);
        break;
    }
    case 2: run(nums); break;
    case 3:
    {
        std::multiset<int> m(nums.begin(), nums.end());
        run(m);
        break;
    }
    case 4:
    {
        std::vector<bool> b;
        for(int v : nums)
            b.push_back(v % 2);
        run(b);
        break;
    }
    case 5:
    {
        std::span<const int> sp(nums);
        run(sp);
        break;
    }
    default:
    {
        str chars;
        for(auto& w : words)
            chars += w;
        run(chars);
        break;
    }
    }
}
} // namespace
#endif
