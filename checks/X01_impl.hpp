#ifndef X01_IMPL_HPP
#define X01_IMPL_HPP
#include "X01_common.hpp"
#include "zoo.hpp"

template <typename CharT, typename F>
outcome decoded(F&& f)
{
    outcome r;
    try
    {
        std::basic_string<CharT> t = f();
        if(!um::dec(t, r.out))
            vp::fail(std::string(um::tname<CharT>()) + ": the result is no valid text: " + vp::quote(t));
    }
    catch(const vp::failure&)
    {
        throw;
    }
    catch(const std::exception& e)
    {
        r.failed = true;
        r.why = std::string(typeid(e).name()) + ": " + e.what();
    }
    return r;
}

template <typename CharT>
outcome with_zoo(vp::source& s, std::size_t n_args, const text& fmt, std::string* kinds)
{
    using ctx_t = papilio::basic_format_context<papilio::format_iterator_for<CharT>, CharT>;
    zoo::store st;
    papilio::basic_dynamic_format_args<ctx_t, CharT> args;
    for(std::size_t i = 0; i < n_args; ++i)
    {
        auto k = zoo::with<CharT>(s, st, false, [&](const auto& x)
                                  { args.emplace(x); });
        if(kinds)
            *kinds += std::string(k) + ", ";
    }
    um::exact<CharT> mem(um::enc<CharT>(fmt));
    return decoded<CharT>([&]
                          { return papilio::vformat(mem.view(), args); });
}

template <typename CharT>
outcome with_program(const builder& b)
{
    return decoded<CharT>([&]
                          { return gf::run<CharT>(b); });
}

#define X01_DEFINE(T)                                                                    \
    template outcome with_zoo<T>(vp::source&, std::size_t, const text&, std::string*);   \
    template outcome with_program<T>(const builder&);
#endif
