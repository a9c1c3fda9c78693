#include "H01_common.hpp"

using namespace h01;

std::string h01::call_narrow(vp::source& s, std::string* note)
{
    return call<char>(s, note);
}

namespace
{
struct made
{
    tape_t tape;
    std::string want;
};

// a call, made alone
made make_call(vp::source& s, vp::ctx& c)
{
    made m;
    std::string note;
    s.capture(&m.tape);
    try
    {
        m.want = any_call(s, &note);
    }
    catch(...)
    {
        s.capture(nullptr);
        throw;
    }
    s.capture(nullptr);
    c.note(note);
    return m;
}

bool failed(const made& m)
{
    return m.want.starts_with("exception");
}

std::shared_ptr<node> make_node(vp::source& s, vp::ctx& c, int depth, bool may_fail)
{
    auto n = std::make_shared<node>();
    for(std::size_t k = 1 + s.size(3); k > 0; --k)
    {
        piece p;
        p.way = static_cast<unsigned>(s.draw(6));
        switch(s.draw(6))
        {
        case 0:
            for(std::size_t i = s.size(6); i > 0; --i)
                p.lit += static_cast<char>('a' + s.draw(26));
            break;
        case 1:
        {
            p.kind = piece::leaf;
            made m = make_call(s, c);
            p.tape = m.tape;
            p.want = m.want;
            break;
        }
        case 2: p.kind = piece::same; break;
        case 3: p.kind = depth == 0 ? piece::outer : piece::same; break;
        case 4:
            if(depth < 3)
            {
                p.kind = piece::child;
                p.sub = make_node(s, c, depth + 1, may_fail);
            }
            break;
        default:
            if(depth < 3)
            {
                p.kind = piece::guarded;
                p.sub = make_node(s, c, depth + 1, true);
            }
            break;
        }
        n->pieces.push_back(std::move(p));
    }
    n->fails = may_fail && s.chance(1, 3);
    if(s.chance(1, 3))
    {
        made m = make_call(s, c);
        n->first = m.tape;
        n->first_want = m.want;
    }
    return n;
}

std::string shape(const node& n)
{
    std::string r = "(";
    for(auto& p : n.pieces)
    {
        switch(p.kind)
        {
        case piece::literal: r += "'" + p.lit + "'"; break;
        case piece::leaf: r += "call"; break;
        case piece::same: r += "same"; break;
        case piece::outer: r += "outer"; break;
        case piece::child: r += std::to_string(p.way % 3) + shape(*p.sub); break;
        default: r += "try" + shape(*p.sub); break;
        }
        r += " ";
    }
    return r + (n.fails ? "throw)" : ")");
}

template <typename CharT>
std::string nested_call(const node& n, int way)
{
    using ctx_t = basic_format_context<format_iterator_for<CharT>, CharT>;
    std::basic_string<CharT> f, r;
    for(char ch : std::string("{0}[{1}]{0:>4}"))
        f += static_cast<CharT>(ch);
    try
    {
        auto args = PAPILIO_NS make_format_args<ctx_t>(42, n);
        if(way == 0)
            r = PAPILIO_NS vformat(f, args);
        else
            PAPILIO_NS vformat_to(std::back_inserter(r), f, args);
        return std::string(r.begin(), r.end());
    }
    catch(const child_failed& e)
    {
        return std::string("failed: ") + e.what();
    }
}
} // namespace

VP_FACET(history, 10000, 200000, "a call that fails comes before one that gives text")
{
    std::vector<made> calls;
    for(std::size_t n = 2 + s.size(4); n > 0; --n)
        calls.push_back(make_call(s, c));
    bool was = false, nt = false;
    for(std::size_t n = 2 + s.size(10); n > 0; --n)
    {
        std::size_t i = s.size(calls.size() - 1);
        std::string got = call_again(calls[i].tape);
        VP_CHECK(got == calls[i].want, "call " + std::to_string(i) + " gives " + got + ", before it gave " + calls[i].want);
        nt = nt || (was && !failed(calls[i]));
        was = was || failed(calls[i]);
    }
    c.nontrivial_if(nt);
}

VP_FACET(nesting, 12000, 250000, "a formatter makes a call whose formatter makes a call")
{
    bool fails = s.chance(1, 3);
    auto n = make_node(s, c, 0, fails);
    c.note(shape(*n));
    std::string want;
    try
    {
        model(*n, want);
        want = "42[" + want + "]  42";
    }
    catch(const child_failed& e)
    {
        want = std::string("failed: ") + e.what();
    }
    for(int i = 0; i < 2; ++i)
    {
        mismatch().clear();
        int way = static_cast<int>(s.draw(2));
        std::string got = s.boolean() ? nested_call<char>(*n, way) : nested_call<wchar_t>(*n, way);
        VP_CHECK(mismatch().empty(), mismatch());
        VP_CHECK(got == want, "the call gives " + vp::quote(got) + ", expected " + vp::quote(want));
    }
    bool deep = false;
    for(auto& p : n->pieces)
        if(p.sub)
            for(auto& q : p.sub->pieces)
                deep = deep || q.kind != piece::literal;
    c.nontrivial_if(deep);
}

VP_FACET(threads, 5000, 60000, "several threads make calls with arguments at the same time")
{
    std::vector<made> calls;
    for(std::size_t n = 2 + s.size(4); n > 0; --n)
        calls.push_back(make_call(s, c));
    auto n = make_node(s, c, 1, false);
    std::string nested_want;
    model(*n, nested_want);
    nested_want = "42[" + nested_want + "]  42";
    std::size_t count = 2 + s.size(2);
    struct job
    {
        std::vector<std::size_t> plan; // calls, or the nested one
        std::vector<std::string> got;
        std::string mis;
    };
    std::vector<job> jobs(count);
    for(auto& j : jobs)
        for(std::size_t k = 2 + s.size(4); k > 0; --k)
            j.plan.push_back(s.size(calls.size()));
    std::vector<std::function<void()>> fs;
    for(auto& j : jobs)
        fs.push_back([&]
                     {
            for(std::size_t i : j.plan)
                j.got.push_back(i < calls.size() ? call_again(calls[i].tape) : nested_call<char>(*n, 0));
            j.mis = mismatch(); });
    together(fs);
    for(auto& j : jobs)
    {
        VP_CHECK(j.mis.empty(), j.mis);
        for(std::size_t k = 0; k < j.plan.size(); ++k)
        {
            const std::string& want = j.plan[k] < calls.size() ? calls[j.plan[k]].want : nested_want;
            VP_CHECK(j.got[k] == want, "in a thread a call gives " + j.got[k] + ", alone it is " + want);
        }
    }
    c.nontrivial();
}

VP_FACET(shared_narrow, 6000, 100000, "several threads read the same arguments at the same time")
{
    shared<char>(s, c);
}
