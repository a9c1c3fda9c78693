// vpbt.hpp - a small property-based-testing engine.
//
// A case is a finite sequence of choices (64-bit draws, each reduced modulo the
// range asked for).  In generation mode the choices come from a PRNG that is a pure
// function of (VERIF_SEED, facet name, case index); in replay mode they come from
// a list.  Cases run in forked workers, so that a crash, a sanitizer report, a
// std::terminate or a runaway loop in the code under test is observed as the outcome
// of that one case.  A failing case is shrunk by editing its choice list.
#ifndef VPBT_HPP
#define VPBT_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <map>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace vp
{
// ---------------------------------------------------------------- failures
// Deliberately not derived from std::exception: library code or harness code
// that catches std::exception must never swallow an oracle failure.
struct failure
{
    std::string msg;
};

// Thrown when a generated case falls outside the property's domain.
struct discard
{
    const char* why;
};

[[noreturn]] void fail(std::string msg);

// ---------------------------------------------------------------- choices
class source
{
public:
    explicit source(std::uint64_t seed)
        : m_state(seed) {}

    explicit source(std::vector<std::uint64_t> rep)
        : m_replay(std::move(rep)), m_is_replay(true) {}

    // uniform in [0, n); n == 0 means full 64-bit range
    std::uint64_t draw(std::uint64_t n)
    {
        std::uint64_t v = 0;
        if(m_is_replay)
            v = m_pos < m_replay.size() ? m_replay[m_pos] : 0;
        else
            v = next();
        ++m_pos;
        if(n)
            v %= n;
        if(m_capture)
            m_capture->push_back(v);
        if(m_ext)
        {
            if(*m_ext_n < m_ext_cap)
            {
                m_ext[*m_ext_n] = v;
                ++*m_ext_n;
            }
        }
        else
            m_log.push_back(v);
        return v;
    }

    // inclusive
    std::int64_t range(std::int64_t lo, std::int64_t hi)
    {
        return static_cast<std::int64_t>(
            static_cast<std::uint64_t>(lo) + draw(static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo) + 1)
        );
    }

    std::size_t size(std::size_t n) // [0, n]
    {
        return static_cast<std::size_t>(draw(n + 1));
    }

    // small sizes more likely than large ones, in [0, n]
    std::size_t small_size(std::size_t n)
    {
        switch(draw(4))
        {
        case 0: return static_cast<std::size_t>(draw(n < 2 ? n + 1 : 3));
        case 1: return static_cast<std::size_t>(draw(n < 6 ? n + 1 : 7));
        default: return static_cast<std::size_t>(draw(n + 1));
        }
    }

    bool boolean() { return draw(2) == 1; }

    // true with probability num/den; shrinks to false
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }

    template <typename T>
    const T& pick(const std::vector<T>& v)
    {
        return v[static_cast<std::size_t>(draw(v.size()))];
    }

    template <typename T>
    T pick(std::initializer_list<T> il)
    {
        return *(il.begin() + static_cast<std::ptrdiff_t>(draw(il.size())));
    }

    const std::vector<std::uint64_t>& log() const { return m_log; }

    // also write the choices to a list (until called with nullptr), to be drawn again from it
    void capture(std::vector<std::uint64_t>* to) { m_capture = to; }

    // log straight into shared memory, so that the log survives a crash
    void set_external_log(std::uint64_t* p, std::size_t* n, std::size_t cap)
    {
        m_ext = p;
        m_ext_n = n;
        m_ext_cap = cap;
    }

private:
    std::uint64_t next()
    {
        std::uint64_t z = (m_state += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

    std::uint64_t m_state = 0;
    std::vector<std::uint64_t> m_replay;
    std::vector<std::uint64_t> m_log;
    std::size_t m_pos = 0;
    std::vector<std::uint64_t>* m_capture = nullptr;
    std::uint64_t* m_ext = nullptr;
    std::size_t* m_ext_n = nullptr;
    std::size_t m_ext_cap = 0;
    bool m_is_replay = false;
};

// ---------------------------------------------------------------- case context
class ctx
{
public:
    // Describe the case in a form a person can read; kept for samples and replays.
    void note(std::string_view s)
    {
        if(m_note.size() < 4000)
        {
            if(!m_note.empty())
                m_note += " | ";
            m_note += s;
            if(m_ext)
            {
                std::size_t n = m_note.size() < m_cap - 1 ? m_note.size() : m_cap - 1;
                std::memcpy(m_ext, m_note.data(), n);
                m_ext[n] = 0;
            }
        }
    }

    void set_external_note(char* p, std::size_t cap)
    {
        m_ext = p;
        m_cap = cap;
    }

    // Count the case in a class.
    void tag(std::string_view t) { m_tags.emplace_back(t); }

    // Mark the case as non-trivial by the rule of its facet.
    void nontrivial() { m_nontrivial = true; }

    void nontrivial_if(bool b)
    {
        if(b)
            m_nontrivial = true;
    }

    const std::string& notes() const { return m_note; }

    const std::vector<std::string>& tags() const { return m_tags; }

    bool is_nontrivial() const { return m_nontrivial; }

private:
    std::string m_note;
    std::vector<std::string> m_tags;
    bool m_nontrivial = false;
    char* m_ext = nullptr;
    std::size_t m_cap = 0;
};

// ---------------------------------------------------------------- facets
using case_fn = void (*)(source&, ctx&);

struct facet
{
    std::string name;
    case_fn fn;
    double quick;    // cases, quick tier
    double thorough; // cases, thorough tier
    std::string rule;
};

struct registrar
{
    registrar(const char* name, case_fn fn, double quick, double thorough, const char* rule);
};

// A known finding: a fixed demonstration that is run on every check run.
// Returns true if the finding still reproduces.
struct known_registrar
{
    known_registrar(const char* id, case_fn fn);
};

#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b)  VP_CAT2(a, b)

// VP_FACET(name, quick_cases, thorough_cases, "non-trivial rule") { body using s and c }
#define VP_FACET(NAME, Q, T, RULE)                                                \
    static void VP_CAT(vp_case_, NAME)(::vp::source & s, ::vp::ctx & c);          \
    static ::vp::registrar VP_CAT(vp_reg_, NAME)(                                 \
        #NAME, &VP_CAT(vp_case_, NAME), Q, T, RULE                                \
    );                                                                            \
    static void VP_CAT(vp_case_, NAME)([[maybe_unused]] ::vp::source & s, [[maybe_unused]] ::vp::ctx & c)

// A demonstration of one listed known finding; fails (vp::fail or crash) while the defect exists.
#define VP_KNOWN(NAME)                                                            \
    static void VP_CAT(vp_known_, NAME)(::vp::source & s, ::vp::ctx & c);         \
    static ::vp::known_registrar VP_CAT(vp_kreg_, NAME)(#NAME, &VP_CAT(vp_known_, NAME)); \
    static void VP_CAT(vp_known_, NAME)([[maybe_unused]] ::vp::source & s, [[maybe_unused]] ::vp::ctx & c)

#define VP_CHECK(COND, MSG)                                                       \
    do                                                                            \
    {                                                                             \
        if(!(COND))                                                               \
            ::vp::fail(std::string(#COND " is false: ") + (MSG));                 \
    } while(0)

// ---------------------------------------------------------------- helpers
std::uint64_t hash_bytes(std::string_view s, std::uint64_t h = 0xcbf29ce484222325ull);
// printable rendering of arbitrary bytes
std::string quote(std::string_view s);
std::string quote(std::wstring_view s);
std::string quote(std::u8string_view s);
std::string quote(std::u16string_view s);
std::string quote(std::u32string_view s);

inline std::string str(std::string_view s) { return std::string(s); }
template <typename T>
requires(std::is_arithmetic_v<T>)
std::string str(T v)
{
    if constexpr(std::is_same_v<T, bool>)
        return v ? "true" : "false";
    else
        return std::to_string(v);
}

// ---------------------------------------------------------------- allocation accounting
// Global operator new/delete are replaced by the engine.
struct alloc_stats
{
    long live_blocks = 0;
    long total_allocs = 0;
};
alloc_stats alloc_now() noexcept;
// make the n-th allocation from now (1-based) throw std::bad_alloc; 0 disarms
void alloc_fail_after(long n) noexcept;
bool alloc_fail_triggered() noexcept;
} // namespace vp

#endif
