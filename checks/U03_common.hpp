// U03_common.hpp - shared by the U03 harness files
#ifndef U03_COMMON_HPP
#define U03_COMMON_HPP
#include "utfmodel.hpp"
#include <papilio/utf/string.hpp>
#include <sstream>

using namespace papilio;
using utf::codepoint;
using utf::substr_behavior;

namespace
{
template <typename C>
std::basic_string<C> E(std::u32string_view t)
{
    return um::enc<C>(t);
}

template <typename S>
std::string q(const S& x)
{
    using C = typename S::char_type;
    return vp::quote(std::basic_string_view<C>(x.to_string_view()));
}

template <typename F>
bool throws_oor(F&& f)
{
    try
    {
        f();
    }
    catch(const std::out_of_range&)
    {
        return true;
    }
    return false;
}

int sgn(int x)
{
    return x < 0 ? -1 : x > 0 ? 1 : 0;
}

int model_cmp(const um::text& a, const um::text& b)
{
    for(std::size_t i = 0; i < a.size() && i < b.size(); ++i)
        if(a[i] != b[i])
            return std::uint32_t(a[i]) < std::uint32_t(b[i]) ? -1 : 1;
    return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}

um::text related(vp::source& s, const um::text& t, std::size_t max)
{
    um::text r;
    switch(s.draw(6))
    {
    case 0: r = um::gen_text(s, max); break;
    case 1: r = t; break;
    case 2: r = t.substr(0, s.size(t.size())); break;
    case 3:
    {
        std::size_t i = s.size(t.size());
        r = t.substr(i, s.size(t.size() - i));
        break;
    }
    case 4:
        r = t;
        r.push_back(um::gen_scalar(s));
        break;
    default:
        r = t;
        if(!r.empty())
            r[s.draw(r.size())] = um::gen_scalar(s);
        break;
    }
    return r;
}
} // namespace

#endif
