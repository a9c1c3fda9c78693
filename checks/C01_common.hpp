#define FM_XCHAR
#include "genfmt.hpp"

using namespace papilio;
using gf::builder;

template <typename CharT>
void literal_only(vp::source& s, vp::ctx& c)
{
    builder b(s);
    b.literal(b.gen_literal(s.chance(1, 8) ? 200 : 16));
    c.note(std::string(um::tname<CharT>()) + " " + vp::quote(um::enc<char>(b.fmt)));
    c.nontrivial_if(b.n_braces && um::mixed(b.out));
    fm::expect<CharT>(gf::run<CharT>(b), b.out, "literal text");
}

template <typename CharT>
void surrounded(vp::source& s, vp::ctx& c)
{
    builder b(s);
    b.program(8, 3, 2, 1);
    c.note(std::string(um::tname<CharT>()) + " " + b.note());
    c.nontrivial_if(b.n_braces && b.n_fields + b.n_scripts > 0 && b.n_literals > 0);
    if(b.n_scripts)
        c.tag("with_script");
    fm::expect<CharT>(gf::run<CharT>(b), b.out, "text with fields");
}

// a brace that belongs to nothing
template <typename CharT>
void lone(vp::source& s, vp::ctx& c)
{
    builder b(s);
    b.program(3, 3, 1, 1);
    um::text tail;
    bool closed = false;
    switch(s.draw(5))
    {
    case 0: // a single closing brace
        b.fmt += U'}';
        c.tag("closing");
        tail = b.gen_literal(6);
        if(!tail.empty() && tail[0] == U'}')
            tail.insert(tail.begin(), U'x');
        break;
    case 1: // an opening brace at the very end
        b.fmt += U'{';
        c.tag("opening_at_end");
        closed = true;
        break;
    case 2: // an opening brace followed by something that starts no field
    {
        static const um::text bad = U" !\"#%&'()*+,-/;<=>?@\\]^`|~\n\t";
        b.fmt += U'{';
        b.fmt += bad[s.draw(bad.size())];
        c.tag("opening");
        tail = b.gen_literal(6);
        break;
    }
    default: // a field or script cut short
    {
        builder one(s);
        one.pos = b.pos;
        one.named = b.named;
        one.manual = b.manual;
        one.next = b.next;
        bool scr = s.boolean();
        if(scr)
            one.script();
        else
            one.field();
        b.pos = one.pos;
        b.named = one.named;
        b.fmt += one.fmt.substr(0, one.fmt.size() - 1);
        // a cut field name or number may be another one: cut before the closing brace only
        c.tag(scr ? "script_cut" : "field_cut");
        closed = true;
        break;
    }
    }
    if(!closed)
    {
        for(char32_t ch : tail)
        {
            b.fmt += ch;
            if(ch == U'{' || ch == U'}')
                b.fmt += ch;
        }
    }
    c.note(std::string(um::tname<CharT>()) + " " + b.note());
    c.nontrivial();
    try
    {
        auto r = gf::run<CharT>(b);
        vp::fail("no error; the result is " + vp::quote(r));
    }
    catch(const format_error&)
    {
    }
}

#define RULE_L "braces and mixed characters"
#define RULE_S "doubled braces next to fields"
