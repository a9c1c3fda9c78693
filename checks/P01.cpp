// P01 - printing emits exactly the formatted bytes, style and newline
#include "mutfmt.hpp"
#include <papilio/papilio.hpp>
#include <papilio/print.hpp>
#include <cstdio>
#include <fcntl.h>
#include <memory>
#include <sstream>
#include <streambuf>
#include <stdlib.h>
#include <termios.h>
#include <unistd.h>

using namespace papilio;
using gf::builder;
using gf::text;

namespace
{
// ----------------------------------------------------------------- styles
struct look
{
    int fgc = 0, bgc = 0;
    unsigned bits = 0;

    bool any() const { return fgc || bits; }

    std::string start() const
    {
        std::string r;
        for(int i = 0; i < 4; ++i)
            if(bits & (1u << i))
                r += "\033[" + std::to_string(i + 1) + "m";
        if(fgc)
            r += "\033[" + std::to_string(fgc) + (bgc ? ";" + std::to_string(bgc + 10) : "") + "m";
        return r;
    }

    std::string end() const { return any() ? "\033[0m" : ""; }

    std::string note() const { return "fg=" + std::to_string(fgc) + " bg=" + std::to_string(bgc) + " bits=" + std::to_string(bits); }
};

color pick_color(vp::source& s)
{
    return static_cast<color>(30 + s.draw(8));
}

// an expression of fg, bg, styles and |; a background only together with a foreground
text_style gen_style(vp::source& s, look& l)
{
    text_style r;
    bool first = true;
    bool want_bg = s.chance(1, 3);
    auto add = [&](auto part)
    {
        if(first && s.boolean())
            r = text_style(part);
        else if(s.boolean())
            r |= part;
        else if(s.boolean())
            r = r | part;
        else
            r = text_style(part) | r;
        first = false;
    };
    std::vector<int> parts; // 0 colours, 1.. style bits
    if(s.chance(2, 3))
        parts.push_back(0);
    for(std::size_t n = s.small_size(4); n > 0; --n)
        parts.push_back(static_cast<int>(1 + s.draw(4)));
    for(std::size_t i = parts.size(); i > 1; --i)
        std::swap(parts[i - 1], parts[s.draw(i)]);
    for(int p : parts)
    {
        if(p == 0)
        {
            color f = pick_color(s);
            l.fgc = static_cast<int>(f);
            if(want_bg)
            {
                color b = pick_color(s);
                l.bgc = static_cast<int>(b);
                switch(s.draw(3))
                {
                case 0: add(fg(f) | bg(b)); break;
                case 1: add(bg(b) | fg(f)); break;
                default:
                    add(fg(f));
                    add(bg(b));
                    break;
                }
            }
            else
                add(fg(f));
        }
        else
        {
            style st = static_cast<style>(1u << (p - 1));
            l.bits |= 1u << (p - 1);
            add(st);
        }
    }
    return r;
}

// ----------------------------------------------------------------- arguments
struct pack
{
    int i;
    std::string str;
    double d;
    bool b;

    explicit pack(vp::source& s, builder& bd)
    {
        auto one = [&](unsigned k)
        { return gf::gen_value(s, k, 8); };
        bd.pos = {one(gf::k_int), one(gf::k_str), one(gf::k_double), one(gf::k_bool)};
        gf::value w;
        w.k = gf::k_width;
        w.i = 1 + s.range(0, 20);
        bd.pos.push_back(w);
        bd.named = {{U"w", w}};
        bd.fixed = true;
        i = static_cast<int>(bd.pos[0].i);
        str = um::enc<char>(bd.pos[1].s);
        d = bd.pos[2].f;
        b = bd.pos[3].i != 0;
        width = static_cast<int>(w.i);
    }

    int width = 1;

    template <typename F>
    decltype(auto) apply(F&& f) const
    {
        return f(i, str, d, b, width, papilio::arg("w", width));
    }
};

// ----------------------------------------------------------------- files
// A file that records what reaches it and fails after a number of bytes
struct sink
{
    std::string got;
    std::size_t room = static_cast<std::size_t>(-1);
    unsigned refused = 0;
    std::FILE* file = nullptr;
    std::unique_ptr<char[]> buffer;

    static ssize_t write(void* self, const char* p, size_t n)
    {
        auto& k = *static_cast<sink*>(self);
        std::size_t m = std::min(n, k.room);
        k.got.append(p, m);
        if(k.room != static_cast<std::size_t>(-1))
            k.room -= m;
        if(m < n)
        {
            ++k.refused;
            errno = ENOSPC;
            return 0; // an error, for the C library
        }
        return static_cast<ssize_t>(m);
    }

    explicit sink(vp::source& s)
    {
        cookie_io_functions_t io{};
        io.write = &write;
        file = fopencookie(this, "w", io);
        if(!file)
            throw vp::discard{"no file"};
        switch(s.draw(4))
        {
        case 0: std::setvbuf(file, nullptr, _IONBF, 0); break;
        case 1: std::setvbuf(file, nullptr, _IOLBF, 256); break;
        case 2:
        {
            std::size_t n = 16 + s.draw(100);
            buffer.reset(new char[n]);
            std::setvbuf(file, buffer.get(), _IOFBF, n);
            break;
        }
        default: break;
        }
    }

    ~sink()
    {
        if(file)
            std::fclose(file);
    }

    sink(const sink&) = delete;
    sink& operator=(const sink&) = delete;
};

// what stands for the standard output during a call
struct as_stdout
{
    std::FILE* old = stdout;
    explicit as_stdout(std::FILE* f) { stdout = f; }
    ~as_stdout() { stdout = old; }
    as_stdout(const as_stdout&) = delete;
    as_stdout& operator=(const as_stdout&) = delete;
};

// one call of print or println; adds what is expected
void one_call(vp::source& s, std::FILE* f, std::string_view fmt, const pack& p, const std::string& out, std::string& want, std::string& log)
{
    switch(s.draw(8))
    {
    case 0:
        log += "print(file) ";
        want += out;
        p.apply([&](auto&&... a)
                { print(f, fmt, a...); });
        break;
    case 1:
        log += "println(file) ";
        want += out + "\n";
        p.apply([&](auto&&... a)
                { println(f, fmt, a...); });
        break;
    case 2:
        log += "newline(file) ";
        want += "\n";
        println(f);
        break;
    case 3:
    {
        log += "print ";
        want += out;
        as_stdout o(f);
        p.apply([&](auto&&... a)
                { print(fmt, a...); });
        break;
    }
    case 4:
    {
        log += "println ";
        want += out + "\n";
        as_stdout o(f);
        p.apply([&](auto&&... a)
                { println(fmt, a...); });
        break;
    }
    case 5:
    {
        log += "newline ";
        want += "\n";
        as_stdout o(f);
        println();
        break;
    }
    default:
    {
        look l;
        text_style st = gen_style(s, l);
        bool line = s.boolean();
        log += (line ? "println(" : "print(") + l.note() + ") ";
        want += l.start() + out + l.end() + (line ? "\n" : "");
        as_stdout o(f);
        if(line)
            p.apply([&](auto&&... a)
                    { println(st, fmt, a...); });
        else
            p.apply([&](auto&&... a)
                    { print(st, fmt, a...); });
        break;
    }
    }
}

// ----------------------------------------------------------------- streams
struct stream_sink : std::streambuf
{
    std::string got;
    std::size_t room = static_cast<std::size_t>(-1);
    bool throws = false;

    int_type overflow(int_type c) override
    {
        if(got.size() >= room)
        {
            if(throws)
                throw std::runtime_error("full");
            return traits_type::eof();
        }
        got.push_back(static_cast<char>(c));
        return c;
    }
};

// ----------------------------------------------------------------- styled values
template <typename T>
text plain_text(const fm::spec& sp, const T& v)
{
    if constexpr(std::is_same_v<T, bool>)
        return fm::pad(sp, v ? U"true" : U"false", false);
    else if constexpr(std::is_integral_v<T>)
        return fm::integer(sp, v);
    else
    {
        text t;
        um::dec(std::string(v), t);
        return fm::pad(sp, t, false);
    }
}
} // namespace

VP_FACET(files, 40000, 800000, "several calls of which at least one writes text of arguments")
{
    builder b(s);
    pack p(s, b);
    b.program(5, 2, 2, 2);
    um::exact<char> mem(um::enc<char>(b.fmt));
    const std::string out = um::enc<char>(b.out);
    sink k(s);
    std::string want, log;
    for(std::size_t n = 1 + s.draw(4); n > 0; --n)
    {
        if(s.chance(1, 8))
        {
            std::fputs("<own>", k.file);
            want += "<own>";
            log += "fputs ";
        }
        one_call(s, k.file, mem.view(), p, out, want, log);
        c.note(log + b.note());
        std::fflush(k.file);
        if(k.got != want)
            vp::fail("the file has " + vp::quote(k.got) + ", expected " + vp::quote(want));
    }
    c.nontrivial_if(log.find(' ') != log.rfind(' ') && b.n_fields > 0 && !out.empty());
}

// A call returns only after the bytes have reached the file; a file that does not take them makes
// it throw. What the file has is the beginning of the text in both cases.
VP_FACET(failing_files, 40000, 800000, "the file fails within the text")
{
    builder b(s);
    pack p(s, b);
    b.program(4, 3, 2, 1);
    if(s.chance(1, 6)) // longer than the buffers
    {
        text more(s.size(9000), U'm');
        b.fmt += more;
        b.out += more;
    }
    um::exact<char> mem(um::enc<char>(b.fmt));
    const std::string out = um::enc<char>(b.out);
    sink k(s);
    std::size_t room = s.boolean() ? s.size(out.size() + 20) : s.small_size(40);
    k.room = room;
    std::string want, log = "room " + std::to_string(room) + " ";
    bool threw = false;
    std::string what;
    try
    {
        one_call(s, k.file, mem.view(), p, out, want, log);
    }
    catch(const std::system_error& e)
    {
        threw = true;
        what = e.what();
    }
    c.note(log + b.note());
    if(!threw)
    {
        VP_CHECK(k.got == want, "no error, but the file has " + std::to_string(k.got.size()) + " of " + std::to_string(want.size()) + " bytes");
        c.tag("enough room");
    }
    else
    {
        c.tag("failed");
        c.nontrivial_if(room > 0);
        VP_CHECK(k.refused > 0, "an error although the file took everything");
    }
    VP_CHECK(want.starts_with(k.got), "the file has " + vp::quote(k.got) + ", which is not the beginning of " + vp::quote(want));
    k.room = static_cast<std::size_t>(-1);
    // (what the C library still keeps in its buffer is of no interest)
}

VP_FACET(streams, 30000, 600000, "a field and text")
{
    builder b(s);
    pack p(s, b);
    b.program(5, 2, 2, 2);
    um::exact<char> mem(um::enc<char>(b.fmt));
    const std::string out = um::enc<char>(b.out);
    std::string want, log;
    stream_sink k;
    std::ostream os(&k);
    if(s.boolean()) // flags of the stream have nothing to do with it
    {
        os << std::hex << std::showbase << std::uppercase << std::boolalpha;
        os.precision(2);
        os.fill('#');
    }
    for(std::size_t n = 1 + s.draw(3); n > 0; --n)
        switch(s.draw(4))
        {
        case 0:
            log += "newline ";
            println(os);
            want += "\n";
            break;
        case 1:
            log += "println ";
            p.apply([&](auto&&... a)
                    { println(os, mem.view(), a...); });
            want += out + "\n";
            break;
        default:
            log += "print ";
            p.apply([&](auto&&... a)
                    { print(os, mem.view(), a...); });
            want += out;
            break;
        }
    c.note(log + b.note());
    c.nontrivial_if(b.n_fields > 0 && !out.empty());
    VP_CHECK(k.got == want, "the stream has " + vp::quote(k.got) + ", expected " + vp::quote(want));
    VP_CHECK(os.good(), "the state of the stream changed");
}

VP_FACET(failing_streams, 20000, 400000, "the stream fails within the text")
{
    builder b(s);
    pack p(s, b);
    b.program(4, 3, 2, 1);
    um::exact<char> mem(um::enc<char>(b.fmt));
    const std::string out = um::enc<char>(b.out);
    bool line = s.boolean(), asks = s.boolean();
    std::string want = out + (line ? "\n" : "");
    stream_sink k;
    k.room = s.size(want.size() + 1);
    k.throws = s.chance(1, 3);
    std::ostream os(&k);
    if(asks)
        os.exceptions(std::ios::badbit | std::ios::failbit);
    bool fails = k.room < want.size();
    c.note("room " + std::to_string(k.room) + " " + b.note());
    c.nontrivial_if(fails && k.room > 0);
    bool threw = false;
    try
    {
        p.apply([&](auto&&... a)
                { line ? println(os, mem.view(), a...) : print(os, mem.view(), a...); });
    }
    catch(const std::exception&)
    {
        threw = true;
    }
    VP_CHECK(os.fail() == fails, fails ? "the failure is not visible in the stream" : "the stream failed without cause");
    VP_CHECK(threw == (fails && asks), threw ? "an exception nobody asked for" : "the requested exception is missing");
    VP_CHECK(k.got == want.substr(0, k.room), "the stream has " + vp::quote(k.got) + ", expected the beginning of " + vp::quote(want));
}

// A refused format writes nothing to a file, not even an escape sequence, and no newline to a stream
VP_FACET(refused, 20000, 400000, "the format is refused")
{
    builder b(s);
    pack p(s, b);
    b.program(4, 1, 2, 1);
    for(std::size_t n = 1 + s.small_size(2); n > 0; --n)
        mf::edit(s, b.fmt);
    mf::tame(b.fmt);
    if(p.i > 1000 || p.i < -1000)
        p.i = 7;
    um::exact<char> mem(um::enc<char>(b.fmt));
    c.note(b.note());
    std::string out;
    bool refused = false;
    try
    {
        p.apply([&](auto&&... a)
                { papilio::format_to(std::back_inserter(out), mem.view(), a...); });
    }
    catch(const std::exception&)
    {
        refused = true;
    }
    c.nontrivial_if(refused);
    bool threw = false;
    std::string want, log;
    if(s.chance(2, 3))
    {
        sink k(s);
        try
        {
            one_call(s, k.file, mem.view(), p, out, want, log);
        }
        catch(const std::exception&)
        {
            threw = true;
        }
        c.note(log + b.note());
        std::fflush(k.file);
        if(log.find("newline") == std::string::npos)
            VP_CHECK(threw == refused, threw ? "refused only when printed" : "accepted when printed");
        VP_CHECK(k.got == (threw ? "" : want), "the file has " + vp::quote(k.got) + ", expected " + vp::quote(threw ? "" : want));
    }
    else
    {
        stream_sink k;
        std::ostream os(&k);
        bool line = s.boolean();
        try
        {
            p.apply([&](auto&&... a)
                    { line ? println(os, mem.view(), a...) : print(os, mem.view(), a...); });
        }
        catch(const std::exception&)
        {
            threw = true;
        }
        VP_CHECK(threw == refused, threw ? "refused only when printed" : "accepted when printed");
        std::string w = out + (line && !threw ? "\n" : "");
        VP_CHECK(k.got == w, "the stream has " + vp::quote(k.got) + ", expected " + vp::quote(w));
    }
}

VP_FACET(styles, 20000, 400000, "a style of several parts")
{
    look l;
    text_style st = gen_style(s, l);
    text_style copy = st;
    c.note(l.note());
    c.nontrivial_if((l.fgc != 0) + (l.bgc != 0) + std::popcount(l.bits) > 1);
    VP_CHECK(st.has_foreground() == (l.fgc != 0), "has_foreground");
    VP_CHECK(st.has_background() == (l.bgc != 0), "has_background");
    VP_CHECK(st.has_style() == (l.bits != 0), "has_style");
    for(unsigned i = 0; i < 4; ++i)
        VP_CHECK(st.has_style(static_cast<style>(1u << i)) == ((l.bits >> i & 1) != 0), "has_style of " + std::to_string(i));
    std::string a, b;
    st.set(std::back_inserter(a));
    VP_CHECK(a == l.start(), "set writes " + vp::quote(a) + ", expected " + vp::quote(l.start()));
    copy.reset(std::back_inserter(b));
    VP_CHECK(b == l.end(), "reset writes " + vp::quote(b) + ", expected " + vp::quote(l.end()));
    // through a pointer: the returned iterator is past what was written
    std::string buf(a.size() + b.size() + 1, '.');
    auto it = st.reset(st.set(buf.data()));
    VP_CHECK(it == buf.data() + a.size() + b.size(), "the returned iterator");
    VP_CHECK(buf == a + b + ".", "written " + vp::quote(buf));
}

// Styled values in a format string
VP_FACET(styled_values, 30000, 600000, "a style, and a value with padding")
{
    std::string want;
    text fmt;
    using ctx_t = basic_format_context<format_iterator_for<char>, char>;
    basic_dynamic_format_args<ctx_t, char> args;
    std::vector<std::shared_ptr<void>> kept;
    std::string log;
    bool padded = false, any = false;
    for(std::size_t n = 1 + s.draw(3); n > 0; --n)
    {
        look l;
        text_style st = gen_style(s, l);
        any |= l.any();
        log += "(" + l.note() + ") ";
        auto add = [&](auto v, unsigned feats, std::u32string_view types)
        {
            fm::spec sp = fm::gen(s, feats, types, 20);
            sp.manual = false;
            sp.wmode = sp.pmode = 0;
            fmt += fm::field(sp) + U"|";
            auto q = std::make_shared<decltype(v)>(v);
            kept.push_back(q);
            auto body = plain_text(sp, *q);
            padded |= sp.width > 0;
            want += l.start() + um::enc<char>(body) + l.end() + "|";
            auto a = std::make_shared<decltype(styled(st, *q))>(styled(st, *q));
            kept.push_back(a);
            args.emplace(*a);
            log += um::enc<char>(body) + " ";
        };
        switch(s.draw(5))
        {
        case 0: add(fm::gen_int<int>(s), fm::f_sign | fm::f_alt | fm::f_zero | fm::f_width, U"dxXbB"); break;
        case 1: add(fm::gen_int<unsigned long long>(s), fm::f_sign | fm::f_zero | fm::f_width, U"dx"); break;
        case 2: add(s.boolean(), fm::f_width, U"s"); break;
        case 3: add(um::enc<char>(um::gen_text(s, 8)), fm::f_width, U"s"); break;
        default:
        {
            auto t = um::enc<char>(um::gen_text(s, 8));
            auto q = std::make_shared<std::string>(t);
            kept.push_back(q);
            add(std::string_view(*q), fm::f_width, U"s");
            break;
        }
        }
    }
    um::exact<char> mem(um::enc<char>(fmt));
    c.note(vp::quote(um::enc<char>(fmt)) + " with " + log);
    c.nontrivial_if(any && padded);
    std::string got;
    if(s.boolean())
        got = papilio::vformat(mem.view(), args);
    else
    {
        // cut at any place (a sequence is never emitted twice)
        papilio::vformat_to(std::back_inserter(got), mem.view(), args);
    }
    VP_CHECK(got == want, "got " + vp::quote(got) + ", expected " + vp::quote(want));
}

// The way of a terminal
VP_FACET(terminals, 3000, 40000, "a field and text")
{
    static int master = -1;
    static std::FILE* tty = nullptr;
    if(!tty)
    {
        master = posix_openpt(O_RDWR | O_NOCTTY);
        if(master < 0 || grantpt(master) != 0 || unlockpt(master) != 0)
            throw vp::discard{"no pseudo terminal"};
        char name[128];
        if(ptsname_r(master, name, sizeof name) != 0)
            throw vp::discard{"no pseudo terminal"};
        int slave = open(name, O_RDWR | O_NOCTTY | O_CLOEXEC);
        if(slave < 0)
            throw vp::discard{"no pseudo terminal"};
        termios t{};
        tcgetattr(slave, &t);
        cfmakeraw(&t);
        tcsetattr(slave, TCSANOW, &t);
        fcntl(master, F_SETFL, O_NONBLOCK);
        tty = fdopen(slave, "w");
    }
    VP_CHECK(os::is_terminal(tty), "the terminal is not recognised");
    builder b(s);
    pack p(s, b);
    b.program(4, 2, 2, 1);
    um::exact<char> mem(um::enc<char>(b.fmt));
    const std::string out = um::enc<char>(b.out);
    if(out.size() > 1000)
        throw vp::discard{"longer than the terminal keeps"};
    std::string want, log;
    one_call(s, tty, mem.view(), p, out, want, log);
    c.note(log + b.note());
    c.nontrivial_if(b.n_fields > 0 && !out.empty());
    std::string got;
    char buf[4096];
    for(int tries = 0; tries < 2000 && got.size() < want.size(); ++tries)
    {
        ssize_t n = read(master, buf, sizeof buf);
        if(n > 0)
            got.append(buf, static_cast<std::size_t>(n));
        else
            usleep(100);
    }
    ssize_t n = read(master, buf, sizeof buf);
    if(n > 0)
        got.append(buf, static_cast<std::size_t>(n));
    VP_CHECK(got == want, "the terminal got " + vp::quote(got) + ", expected " + vp::quote(want));
}
