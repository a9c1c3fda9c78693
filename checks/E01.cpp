#include "E01_common.hpp"
#include <sstream>

VP_FACET(mistakes_narrow, 60000, 1500000, RULE_MISTAKES)
{
    mistakes<char>(s, c);
}

VP_FACET(mistakes_wide, 30000, 600000, RULE_MISTAKES)
{
    mistakes<wchar_t>(s, c);
}

// one field, any value, any characters as specification
VP_FACET(specifications, 40000, 1000000, "the specification is refused, or accepted with at least three options")
{
    builder b(s);
    b.pos.push_back(gf::gen_value(s, gf::k_ints | gf::k_str | gf::k_bool | gf::k_double | gf::k_float | gf::k_cp, 6));
    b.pos.push_back(gf::gen_value(s, gf::k_width));
    b.pos.push_back(gf::gen_value(s, gf::k_ints | gf::k_str | gf::k_bool | gf::k_double | gf::k_cp, 6));
    if(gf::is_int(b.pos[2]) && b.pos[2].i > 3000)
        b.pos[2].i %= 3000;
    std::vector<int> l;
    static const std::vector<text> parts = {U"<", U">", U"^", U"*<", U"+", U"-", U" ", U"#", U"0", U"1", U"5", U"12", U"{1}", U"{2}", U".", U".3", U".0", U".{1}", U".{2}", U"L", U"d", U"x", U"X", U"b", U"B", U"o", U"c", U"s", U"?", U"f", U"F", U"e", U"E", U"g", U"G", U"a", U"A", U"p", U"P", U"m", U"n", U"{", U"\u4E00"};
    std::size_t at = 3 + s.draw(2); // possibly the pointer
    text t;
    std::size_t n = s.small_size(6);
    if(s.boolean()) // in order
    {
        std::size_t i = 0;
        for(std::size_t k = 0; k < n && i < parts.size(); ++k)
        {
            i += s.draw(12);
            if(i < parts.size())
                t += parts[i++];
        }
    }
    else
        for(std::size_t k = 0; k < n; ++k)
            t += parts[s.draw(parts.size())];
    b.fmt = (at == 4 ? U"{4:" : U"{0:") + t + U"}";
    judge<char>(c, b, &l);
    if(n >= 3)
        c.nontrivial();
}

// any value as a width or a precision
VP_FACET(amounts, 30000, 600000, "the value is refused")
{
    builder b(s);
    gf::value w = gf::gen_value(s, s.boolean() ? gf::k_ints : gf::k_ints | gf::k_str | gf::k_bool | gf::k_double | gf::k_float | gf::k_cp, 3);
    if(gf::is_int(w))
    {
        if(w.i > 3000)
            w.i %= s.boolean() ? 3000 : 3;
    }
    b.pos.push_back(gf::gen_value(s, gf::k_ints | gf::k_str | gf::k_double | gf::k_bool | gf::k_cp, 6));
    b.pos.push_back(w);
    b.named.emplace_back(U"w", w);
    static const std::vector<text> fmts = {U"{0:{1}}", U"{0:.{1}}", U"{0:{w}}", U"{0:.{w}}", U"{:{}}", U"{:.{}}", U"{0:{1}.{1}}", U"{0:*^{1}.3}", U"{0:{2}}", U"{0:.{3}}", U"{0:{list}}", U"{0:{list[0]}}", U"{0:.{list[0]}}", U"{0:{list[-1]}.{list.size}}", U"{0:{list.size}}", U"{0:.{list.size}}", U"{0:{list[9]}}", U"{0:{4}}", U"{0:{x}}", U"{0:{1.length}}", U"{0:{1[0]}}", U"{$ 0 ? {0:{1}}}", U"{$ 0 ? {0:.{1}} : {0}}"};
    b.fmt = fmts[s.draw(fmts.size())];
    std::vector<int> l = gen_list(s);
    judge<char>(c, b, &l);
}

// the error objects themselves
VP_FACET(error_objects, 300, 3000, "a documented code")
{
    int i = static_cast<int>(s.range(-3, 20));
    auto ec = static_cast<script_error_code>(i);
    static const char* const texts[] = {"no error", "end of string", "invalid field name", "invalid condition", "invalid index", "invalid attribute", "invalid operator", "invalid string", "unenclosed brace"};
    std::string want = i >= 0 && i < 9 ? texts[i] : "unknown error";
    c.note(std::to_string(i) + " " + want);
    c.nontrivial_if(i >= -1 && i < 9);
    VP_CHECK(to_string(ec) == want, "to_string: " + to_string(ec));
    VP_CHECK(to_wstring(ec) == std::wstring(want.begin(), want.end()), "to_wstring");
    auto e = script_base::make_error(ec);
    VP_CHECK(e.error_code() == ec && std::string(e.what()) == want, "make_error");
    std::ostringstream os;
    os << ec;
    std::wostringstream wos;
    wos << ec;
    VP_CHECK(os.str() == want && wos.str() == std::wstring(want.begin(), want.end()), "operator<<");
    auto copy = e;
    VP_CHECK(copy.error_code() == ec && std::string(copy.what()) == want, "copy of an error");
}
