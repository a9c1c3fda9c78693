#include "vpbt.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <ctime>
#include <new>
#include <fcntl.h>
#include <fstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

// ---------------------------------------------------------------- allocation accounting
// Cases with threads are tried this often before a failure counts as not reproduced: what
// the ThreadSanitizer sees depends on the schedule.
#if defined(__SANITIZE_THREAD__)
static constexpr int schedule_tries = 30;
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
static constexpr int schedule_tries = 30;
#else
static constexpr int schedule_tries = 1;
#endif
#else
static constexpr int schedule_tries = 1;
#endif

namespace
{
std::atomic<long> g_live{0};
std::atomic<long> g_total{0};
thread_local long t_fail_after = 0;
thread_local bool t_fail_hit = false;

void* vp_alloc(std::size_t n)
{
    if(t_fail_after > 0)
    {
        if(--t_fail_after == 0)
        {
            t_fail_hit = true;
            throw std::bad_alloc();
        }
    }
    void* p = std::malloc(n ? n : 1);
    if(!p)
        throw std::bad_alloc();
    g_live.fetch_add(1, std::memory_order_relaxed);
    g_total.fetch_add(1, std::memory_order_relaxed);
    return p;
}

void* vp_alloc_al(std::size_t n, std::size_t al)
{
    void* p = nullptr;
    if(posix_memalign(&p, al < sizeof(void*) ? sizeof(void*) : al, n ? n : 1) != 0)
        throw std::bad_alloc();
    g_live.fetch_add(1, std::memory_order_relaxed);
    g_total.fetch_add(1, std::memory_order_relaxed);
    return p;
}

void vp_free(void* p) noexcept
{
    if(!p)
        return;
    g_live.fetch_sub(1, std::memory_order_relaxed);
    std::free(p);
}
} // namespace

void* operator new(std::size_t n) { return vp_alloc(n); }
void* operator new[](std::size_t n) { return vp_alloc(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    try { return vp_alloc(n); }
    catch(...) { return nullptr; }
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept
{
    try { return vp_alloc(n); }
    catch(...) { return nullptr; }
}
void* operator new(std::size_t n, std::align_val_t a) { return vp_alloc_al(n, (std::size_t)a); }
void* operator new[](std::size_t n, std::align_val_t a) { return vp_alloc_al(n, (std::size_t)a); }
void operator delete(void* p) noexcept { vp_free(p); }
void operator delete[](void* p) noexcept { vp_free(p); }
void operator delete(void* p, std::size_t) noexcept { vp_free(p); }
void operator delete[](void* p, std::size_t) noexcept { vp_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vp_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { vp_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { vp_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { vp_free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { vp_free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { vp_free(p); }

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=0:"
           "detect_stack_use_after_return=1:hard_rss_limit_mb=3000:max_allocation_size_mb=1024:"
           "handle_abort=0:print_summary=1:malloc_context_size=8:fast_unwind_on_malloc=1:check_initialization_order=0";
}
extern "C" const char* __ubsan_default_options()
{
    return "halt_on_error=1:exitcode=66:print_stacktrace=0";
}
extern "C" const char* __tsan_default_options()
{
    return "halt_on_error=1:exitcode=66:report_signal_unsafe=0";
}

namespace vp
{
alloc_stats alloc_now() noexcept
{
    return {g_live.load(std::memory_order_relaxed), g_total.load(std::memory_order_relaxed)};
}

void alloc_fail_after(long n) noexcept
{
    t_fail_after = n;
    t_fail_hit = false;
}

bool alloc_fail_triggered() noexcept { return t_fail_hit; }

void fail(std::string msg)
{
    alloc_fail_after(0);
    throw failure{std::move(msg)};
}

std::uint64_t hash_bytes(std::string_view s, std::uint64_t h)
{
    for(unsigned char ch : s)
    {
        h ^= ch;
        h *= 0x100000001b3ull;
    }
    return h ^ (h >> 29);
}

static void put_code(std::string& out, unsigned long v, const char* fmt)
{
    char b[32];
    std::snprintf(b, sizeof b, fmt, v);
    out += b;
}

template <typename S>
static std::string quote_any(const S& s, const char* pre)
{
    std::string r = pre;
    r += '"';
    for(auto ch : s)
    {
        unsigned long v = static_cast<unsigned long>(ch);
        if constexpr(sizeof(ch) == 1)
            v &= 0xff;
        if(v == '"' || v == '\\')
        {
            r += '\\';
            r += static_cast<char>(v);
        }
        else if(v == '\n')
            r += "\\n";
        else if(v >= 0x20 && v < 0x7f)
            r += static_cast<char>(v);
        else
            put_code(r, v, "\\x{%lx}");
    }
    r += '"';
    return r;
}

std::string quote(std::string_view s) { return quote_any(s, ""); }
std::string quote(std::wstring_view s) { return quote_any(s, "L"); }
std::string quote(std::u8string_view s) { return quote_any(s, "u8"); }
std::string quote(std::u16string_view s) { return quote_any(s, "u"); }
std::string quote(std::u32string_view s) { return quote_any(s, "U"); }

namespace
{
std::vector<facet>& facets()
{
    static std::vector<facet> v;
    return v;
}

struct known
{
    std::string id;
    case_fn fn;
};

std::vector<known>& knowns()
{
    static std::vector<known> v;
    return v;
}

std::string json_str(std::string_view s)
{
    std::string r = "\"";
    for(unsigned char ch : s)
    {
        if(ch == '"' || ch == '\\')
        {
            r += '\\';
            r += (char)ch;
        }
        else if(ch < 0x20 || ch >= 0x7f)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", ch);
            r += b;
        }
        else
            r += (char)ch;
    }
    return r + "\"";
}

enum outcome_kind : int
{
    oc_ok = 0,
    oc_discard = 1,
    oc_fail = 2,
    oc_crash = 3,
    oc_hang = 4
};

constexpr std::size_t log_cap = 1u << 18;
constexpr std::size_t text_cap = 8192;

struct shm_slot
{
    int facet_idx;
    std::uint64_t case_idx;
    int has_msg;
    char msg[text_cap];
    char note[text_cap];
    std::size_t nlog;
    std::uint64_t log[log_cap];
};

template <typename T>
T* shm_new(std::size_t n = 1)
{
    void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(p == MAP_FAILED)
    {
        std::perror("mmap");
        std::exit(3);
    }
    return static_cast<T*>(p);
}

void copy_text(char* dst, std::string_view s)
{
    std::size_t n = std::min(s.size(), text_cap - 1);
    std::memcpy(dst, s.data(), n);
    dst[n] = 0;
}

std::uint64_t mix(std::uint64_t a, std::uint64_t b)
{
    std::uint64_t z = a + 0x9E3779B97F4A7C15ull * (b + 1);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

std::uint64_t case_seed(std::uint64_t seed, const facet& f, std::uint64_t idx)
{
    return mix(mix(hash_bytes(f.name), seed), idx);
}

double now_s()
{
    timespec ts{};
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}

double g_cpu_limit = 20.0;

void arm_cpu(double secs)
{
    itimerval tv{};
    tv.it_value.tv_sec = (time_t)secs;
    tv.it_value.tv_usec = (suseconds_t)((secs - std::floor(secs)) * 1e6);
    setitimer(ITIMER_PROF, &tv, nullptr);
}

void redirect_stderr(const std::string& path)
{
    int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if(fd >= 0)
    {
        dup2(fd, 2);
        close(fd);
    }
}

// run one case body in this process
outcome_kind run_body(case_fn fn, source& s, ctx& c, std::string& msg)
{
    try
    {
        fn(s, c);
        alloc_fail_after(0);
        return oc_ok;
    }
    catch(const failure& f)
    {
        alloc_fail_after(0);
        msg = f.msg;
        return oc_fail;
    }
    catch(const discard&)
    {
        alloc_fail_after(0);
        return oc_discard;
    }
    catch(const std::exception& e)
    {
        alloc_fail_after(0);
        msg = std::string("unexpected exception escaped to the caller: ") + e.what();
        return oc_fail;
    }
    catch(...)
    {
        alloc_fail_after(0);
        msg = "unexpected exception of unknown type escaped to the caller";
        return oc_fail;
    }
}

struct outcome
{
    outcome_kind kind = oc_ok;
    std::string msg;
    std::string note;
    std::vector<std::uint64_t> log;
};

std::string g_tmp;
shm_slot* g_probe = nullptr;

std::string read_file_head(const std::string& p, std::size_t n)
{
    std::ifstream is(p, std::ios::binary);
    std::string r(n, '\0');
    is.read(r.data(), (std::streamsize)n);
    r.resize((std::size_t)is.gcount());
    return r;
}

std::string crash_summary(const std::string& err, int status)
{
    std::string r;
    if(WIFSIGNALED(status))
        r = "killed by signal " + std::to_string(WTERMSIG(status)) + "; ";
    else
        r = "exit status " + std::to_string(WEXITSTATUS(status)) + "; ";
    std::size_t pos = 0;
    int kept = 0;
    while(pos < err.size() && kept < 14)
    {
        std::size_t e = err.find('\n', pos);
        if(e == std::string::npos)
            e = err.size();
        std::string line = err.substr(pos, e - pos);
        pos = e + 1;
        if(line.find("ERROR: ") != std::string::npos || line.find("runtime error") != std::string::npos ||
           line.find("terminate") != std::string::npos || line.find("what()") != std::string::npos ||
           line.find("Assertion") != std::string::npos || line.find("WARNING: ThreadSanitizer") != std::string::npos ||
           (line.find("    #") == 0 && line.find("papilio") != std::string::npos))
        {
            r += line + "\n";
            ++kept;
        }
    }
    return r;
}

// Run a case body in a forked child; the probe slot carries its log and notes.
outcome run_forked(case_fn fn, source src, double cpu)
{
    outcome o;
    g_probe->nlog = 0;
    g_probe->has_msg = 0;
    g_probe->note[0] = 0;
    const std::string err = g_tmp + "/probe.err";
    pid_t pid = fork();
    if(pid == 0)
    {
        redirect_stderr(err);
        rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        arm_cpu(cpu);
        src.set_external_log(g_probe->log, &g_probe->nlog, log_cap);
        ctx c;
        c.set_external_note(g_probe->note, text_cap);
        std::string msg;
        outcome_kind k = run_body(fn, src, c, msg);
        copy_text(g_probe->msg, msg);
        g_probe->has_msg = 1;
        _exit(k == oc_ok ? 0 : k == oc_discard ? 70 : 77);
    }
    int status = 0;
    while(waitpid(pid, &status, 0) < 0 && errno == EINTR)
    {
    }
    o.log.assign(g_probe->log, g_probe->log + std::min(g_probe->nlog, log_cap));
    o.note = g_probe->note;
    if(WIFEXITED(status) && WEXITSTATUS(status) == 0)
        o.kind = oc_ok;
    else if(WIFEXITED(status) && WEXITSTATUS(status) == 70)
        o.kind = oc_discard;
    else if(WIFEXITED(status) && WEXITSTATUS(status) == 77)
    {
        o.kind = oc_fail;
        o.msg = g_probe->msg;
    }
    else if(WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF)
    {
        o.kind = oc_hang;
        o.msg = "did not finish within " + std::to_string(cpu) + " s of CPU time";
    }
    else
    {
        o.kind = oc_crash;
        o.msg = crash_summary(read_file_head(err, 1u << 16), status);
    }
    return o;
}

bool bad(outcome_kind k) { return k == oc_fail || k == oc_crash || k == oc_hang; }

std::vector<std::uint64_t> shrink(case_fn fn, std::vector<std::uint64_t> cur, outcome_kind kind, std::size_t& attempts)
{
    const double t0 = now_s();
    auto alive = [&] { return attempts < 4000 && now_s() - t0 < 45.0; };
    auto still = [&](const std::vector<std::uint64_t>& cand, std::vector<std::uint64_t>& used) {
        ++attempts;
        outcome o = run_forked(fn, source(cand), 5.0);
        if(o.kind != kind)
            return false;
        used = o.log;
        return true;
    };
    std::vector<std::uint64_t> used;
    auto trim = [](std::vector<std::uint64_t> v) {
        while(!v.empty() && v.back() == 0)
            v.pop_back();
        return v;
    };
    auto better = [](const std::vector<std::uint64_t>& a, const std::vector<std::uint64_t>& b) {
        if(a.size() != b.size())
            return a.size() < b.size();
        return a < b;
    };
    cur = trim(cur);
    bool progress = true;
    while(progress && alive())
    {
        progress = false;
        // delete blocks
        for(std::size_t blk = std::max<std::size_t>(1, cur.size() / 2); blk >= 1 && alive(); blk /= 2)
        {
            for(std::size_t i = 0; i + blk <= cur.size() && alive();)
            {
                auto cand = cur;
                cand.erase(cand.begin() + (std::ptrdiff_t)i, cand.begin() + (std::ptrdiff_t)(i + blk));
                if(still(cand, used))
                {
                    cur = trim(better(used, cand) ? used : cand);
                    progress = true;
                }
                else
                    i += blk;
            }
        }
        // delete a block while decrementing an earlier length-like choice
        for(std::size_t i = 0; i < cur.size() && alive(); ++i)
        {
            if(cur[i] == 0 || cur[i] > 64)
                continue;
            for(std::size_t blk = 1; blk <= 8 && alive(); ++blk)
                for(std::size_t j = i + 1; j + blk <= cur.size() && j < i + 24 && alive(); ++j)
                {
                    auto cand = cur;
                    --cand[i];
                    cand.erase(cand.begin() + (std::ptrdiff_t)j, cand.begin() + (std::ptrdiff_t)(j + blk));
                    if(still(cand, used))
                    {
                        cur = trim(cand);
                        progress = true;
                        goto next_i;
                    }
                }
        next_i:;
        }
        // lower values
        for(std::size_t i = 0; i < cur.size() && alive(); ++i)
        {
            std::uint64_t hi = cur[i];
            if(hi == 0)
                continue;
            for(std::uint64_t cand_v : {std::uint64_t(0), hi / 2, hi - 1})
            {
                if(cand_v >= cur[i])
                    continue;
                auto cand = cur;
                cand[i] = cand_v;
                if(still(cand, used))
                {
                    cur[i] = cand_v;
                    progress = true;
                    if(cand_v == 0)
                        break;
                }
            }
        }
        cur = trim(cur);
    }
    return cur;
}

// The cases a worker runs, in order: a pure function of (counts, worker, workers).
constexpr int rounds = 16;

template <typename Fn>
void for_each_case(const std::vector<std::uint64_t>& counts, int w, int workers, Fn&& fn)
{
    for(int r = 0; r < rounds; ++r)
        for(std::size_t fi = 0; fi < counts.size(); ++fi)
        {
            const std::uint64_t lo = counts[fi] * (std::uint64_t)r / rounds;
            const std::uint64_t hi = counts[fi] * (std::uint64_t)(r + 1) / rounds;
            for(std::uint64_t ci = lo; ci < hi; ++ci)
                if(ci % (std::uint64_t)workers == (std::uint64_t)w)
                    if(!fn(r, fi, ci))
                        return;
        }
}

struct seq_state
{
    std::vector<std::pair<std::size_t, std::uint64_t>> cases;
    std::uint64_t seed = 0;
} g_seq;

void seq_body(source&, ctx& c)
{
    for(auto& [fi, ci] : g_seq.cases)
    {
        arm_cpu(g_cpu_limit);
        source s(case_seed(g_seq.seed, facets()[fi], ci));
        ctx inner;
        std::string msg;
        if(run_body(facets()[fi].fn, s, inner, msg) == oc_fail)
        {
            c.note("facet " + facets()[fi].name + " case " + std::to_string(ci) + " after the cases before it: " + inner.notes());
            vp::fail(msg);
        }
    }
}

struct totals
{
    std::uint64_t runs = 0, nontrivial = 0, discards = 0;
    double secs = 0;
    std::map<std::string, std::uint64_t> tags;
    std::vector<std::string> samples;
};
} // namespace

registrar::registrar(const char* name, case_fn fn, double quick, double thorough, const char* rule)
{
    facets().push_back({name, fn, quick, thorough, rule});
}

known_registrar::known_registrar(const char* id, case_fn fn)
{
    knowns().push_back({id, fn});
}
} // namespace vp

using namespace vp;

int main(int argc, char** argv)
{
    std::string property = "?", tier = "quick", out, replay_dir = ".", only, replay_file;
    std::uint64_t seed = 1;
    double scale = 1.0, cap = 240.0;
    int workers = 8;
    bool list = false;
    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if(a == "--property") property = val();
        else if(a == "--tier") tier = val();
        else if(a == "--out") out = val();
        else if(a == "--replay-dir") replay_dir = val();
        else if(a == "--facet") only = val();
        else if(a == "--seed") seed = std::strtoull(val().c_str(), nullptr, 10);
        else if(a == "--scale") scale = std::strtod(val().c_str(), nullptr);
        else if(a == "--cap") cap = std::strtod(val().c_str(), nullptr);
        else if(a == "--workers") workers = std::atoi(val().c_str());
        else if(a == "--tmp") g_tmp = val();
        else if(a == "--replay") replay_file = val();
        else if(a == "--list") list = true;
    }
    if(g_tmp.empty())
        g_tmp = "/tmp";
    std::setvbuf(stdout, nullptr, _IOLBF, 1 << 12);
    g_probe = shm_new<shm_slot>();
    auto& fs = facets();
    std::sort(fs.begin(), fs.end(), [](auto& a, auto& b) { return a.name < b.name; });
    std::sort(knowns().begin(), knowns().end(), [](auto& a, auto& b) { return a.id < b.id; });
    if(list)
    {
        for(auto& f : fs)
            std::printf("%s quick=%g thorough=%g\n", f.name.c_str(), f.quick, f.thorough);
        return 0;
    }
    if(!replay_file.empty())
    {
        std::ifstream is(replay_file);
        std::string line, fname, kname;
        std::vector<std::uint64_t> ch;
        while(std::getline(is, line))
        {
            if(line.rfind("facet ", 0) == 0)
                fname = line.substr(6);
            if(line.rfind("demonstration ", 0) == 0)
                kname = line.substr(14);
            if(line.rfind("sequence ", 0) == 0)
            {
                std::size_t pos = 9;
                g_seq.seed = std::strtoull(line.c_str() + pos, nullptr, 10);
                while((pos = line.find(' ', pos)) != std::string::npos)
                {
                    ++pos;
                    std::size_t col = line.find(':', pos);
                    if(col == std::string::npos)
                        break;
                    std::string fnm = line.substr(pos, col - pos);
                    for(std::size_t i = 0; i < fs.size(); ++i)
                        if(fs[i].name == fnm)
                            g_seq.cases.emplace_back(i, std::strtoull(line.c_str() + col + 1, nullptr, 10));
                }
            }
            if(line.rfind("choices", 0) == 0)
            {
                const char* p = line.c_str() + 7;
                char* e = nullptr;
                for(;;)
                {
                    std::uint64_t v = std::strtoull(p, &e, 10);
                    if(e == p)
                        break;
                    ch.push_back(v);
                    p = e;
                }
            }
        }
        case_fn fn = nullptr;
        for(auto& f : fs)
            if(f.name == fname)
                fn = f.fn;
        for(auto& k : knowns())
            if(k.id == kname)
                fn = k.fn;
        if(!g_seq.cases.empty())
            fn = &seq_body;
        if(!fn)
        {
            std::fprintf(stderr, "replay: unknown facet\n");
            return 3;
        }
        outcome o = run_forked(fn, source(ch), g_cpu_limit);
        for(int k = 1; k < schedule_tries && !bad(o.kind); ++k)
            o = run_forked(fn, source(ch), g_cpu_limit);
        std::printf("replay outcome: %s\nnote: %s\nmessage: %s\n", o.kind == oc_ok ? "ok" : o.kind == oc_discard ? "discard" : o.kind == oc_fail ? "FAIL" : o.kind == oc_crash ? "CRASH" : "HANG", o.note.c_str(), o.msg.c_str());
        return bad(o.kind) ? 1 : 0;
    }

    const double t_start = now_s();
    // ---- listed demonstrations
    std::vector<std::pair<std::string, outcome>> demos;
    if(only.empty())
        for(auto& k : knowns())
            demos.emplace_back(k.id, run_forked(k.fn, source(std::vector<std::uint64_t>{}), g_cpu_limit));

    // ---- generated cases
    std::vector<std::uint64_t> counts;
    for(auto& f : fs)
    {
        double n = (tier == "thorough" ? f.thorough : f.quick) * scale;
        counts.push_back(only.empty() || only == f.name ? (std::uint64_t)std::max(1.0, n) : 0);
    }
    auto* slots = shm_new<shm_slot>((std::size_t)workers);
    auto* stop = shm_new<std::atomic<int>>();
    std::vector<pid_t> pids;
    std::fflush(stdout);
    for(int w = 0; w < workers; ++w)
    {
        pid_t pid = fork();
        if(pid == 0)
        {
            redirect_stderr(g_tmp + "/worker" + std::to_string(w) + ".err");
            rlimit rl{0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            shm_slot& slot = slots[w];
            std::vector<totals> tt(fs.size());
            std::unordered_set<std::uint64_t> seen;
            bool timed_out = false;
            std::string msg;
            for_each_case(counts, w, workers, [&](int r, std::size_t fi, std::uint64_t ci) {
                        if((ci / (std::uint64_t)workers) % 32 == 0)
                        {
                            if(stop->load(std::memory_order_relaxed))
                                _exit(0);
                            if(now_s() - t_start > cap)
                            {
                                timed_out = true;
                                return false;
                            }
                        }
                        slot.facet_idx = (int)fi;
                        slot.case_idx = ci;
                        arm_cpu(g_cpu_limit);
                        source s(case_seed(seed, fs[fi], ci));
                        ctx c;
                        const double t_case = now_s();
                        outcome_kind k = run_body(fs[fi].fn, s, c, msg);
                        tt[fi].secs += now_s() - t_case;
                        ++tt[fi].runs;
                        if(k == oc_discard)
                            ++tt[fi].discards;
                        if(k == oc_fail)
                        {
                            copy_text(slot.msg, msg);
                            slot.has_msg = 1;
                            _exit(77);
                        }
                        if(k == oc_ok && c.is_nontrivial())
                        {
                            std::uint64_t h = hash_bytes(fs[fi].name);
                            if(!c.notes().empty())
                                h = hash_bytes(c.notes(), h);
                            else
                                h = hash_bytes(std::string_view((const char*)s.log().data(), s.log().size() * 8), h);
                            ++tt[fi].nontrivial;
                            seen.insert(h);
                        }
                        if(k == oc_ok)
                            for(auto& t : c.tags())
                                ++tt[fi].tags[t];
                        if(w == 0 && k == oc_ok && c.is_nontrivial() && tt[fi].samples.size() < 3 && !c.notes().empty() &&
                           (tt[fi].samples.empty() || r >= (int)tt[fi].samples.size() * 4))
                            tt[fi].samples.push_back(c.notes().substr(0, 600));
                        return true;
            });
            arm_cpu(0);
            std::ofstream os(g_tmp + "/worker" + std::to_string(w) + ".res", std::ios::binary);
            os << (timed_out ? 1 : 0) << "\n";
            for(auto& t : tt)
            {
                os << t.runs << " " << t.nontrivial << " " << t.discards << " " << t.tags.size() << " " << t.samples.size() << " " << t.secs << "\n";
                for(auto& [k2, v] : t.tags)
                    os << v << " " << k2 << "\n";
                for(auto& sm : t.samples)
                {
                    std::string one = sm;
                    std::replace(one.begin(), one.end(), '\n', ' ');
                    os << one << "\n";
                }
            }
            os << seen.size() << "\n";
            os.write("", 0);
            for(auto h : seen)
                os.write((const char*)&h, 8);
            os.close();
            std::fflush(stdout);
            _exit(0);
        }
        pids.push_back(pid);
    }
    int bad_worker = -1;
    int bad_status = 0;
    for(int left = workers; left > 0;)
    {
        int status = 0;
        pid_t p = wait(&status);
        if(p < 0)
        {
            if(errno == EINTR)
                continue;
            break;
        }
        auto it = std::find(pids.begin(), pids.end(), p);
        if(it == pids.end())
            continue;
        --left;
        if(!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
        {
            int w = (int)(it - pids.begin());
            // prefer the lowest case index among the failures seen, for repeatability
            if(bad_worker < 0 || slots[w].case_idx < slots[bad_worker].case_idx)
            {
                bad_worker = w;
                bad_status = status;
            }
            stop->store(1);
        }
    }
    (void)bad_status;

    totals sum;
    std::vector<totals> per(fs.size());
    std::unordered_set<std::uint64_t> seen;
    bool timed_out = false;
    if(bad_worker < 0)
    {
        for(int w = 0; w < workers; ++w)
        {
            std::ifstream is(g_tmp + "/worker" + std::to_string(w) + ".res", std::ios::binary);
            int to = 0;
            is >> to;
            timed_out = timed_out || to;
            for(auto& t : per)
            {
                std::uint64_t r = 0, n = 0, d = 0, nt = 0, ns = 0;
                double sec = 0;
                is >> r >> n >> d >> nt >> ns >> sec;
                t.secs += sec;
                t.runs += r;
                t.nontrivial += n;
                t.discards += d;
                for(std::uint64_t k = 0; k < nt; ++k)
                {
                    std::uint64_t v = 0;
                    std::string tag;
                    is >> v;
                    is.get();
                    std::getline(is, tag);
                    t.tags[tag] += v;
                }
                if(nt == 0 && ns)
                    is.get();
                for(std::uint64_t k = 0; k < ns; ++k)
                {
                    std::string sm;
                    std::getline(is, sm);
                    t.samples.push_back(sm);
                }
            }
            std::uint64_t m = 0;
            is >> m;
            is.get();
            for(std::uint64_t k = 0; k < m; ++k)
            {
                std::uint64_t h = 0;
                is.read((char*)&h, 8);
                seen.insert(h);
            }
        }
    }

    // ---- a failure: reproduce, shrink, replay three times
    std::string violation_file, violation_msg, violation_note, inconclusive;
    auto write_replay = [&](const std::string& stem, const std::string& kind_line, const std::string& msg, const std::string& note, const std::vector<std::uint64_t>& ch) {
        std::string path = replay_dir + "/" + property + "-" + stem + ".replay";
        std::ofstream os(path);
        os << "property " << property << "\n"
           << kind_line << "\n"
           << "choices";
        for(auto v : ch)
            os << " " << v;
        auto flat = [](std::string t) {
            std::replace(t.begin(), t.end(), '\n', ' ');
            return t;
        };
        os << "\nnote " << flat(note) << "\nmessage " << flat(msg) << "\n";
        return path;
    };
    std::vector<std::string> demo_lines;
    for(auto& [id, o] : demos)
        if(bad(o.kind))
        {
            std::string path = write_replay("demo-" + id, "demonstration " + id, o.msg, o.note, {});
            demo_lines.push_back(id + "\t" + path + "\t" + o.msg);
        }
    if(bad_worker >= 0)
    {
        shm_slot& slot = slots[bad_worker];
        const facet& f = fs[(std::size_t)slot.facet_idx];
        // With threads a failure depends on the schedule, so that one run need not show it again.
        auto again = [&](const std::function<outcome()>& run) {
            outcome r = run();
            for(int k = 1; k < schedule_tries && !bad(r.kind); ++k)
                r = run();
            return r;
        };
        outcome o = again([&] { return run_forked(f.fn, source(case_seed(seed, f, slot.case_idx)), g_cpu_limit); });
        if(!bad(o.kind))
        {
            // It needs the cases before it: hidden state shared between calls.  Find how
            // much history is needed and make that history the reproduction.
            std::vector<std::pair<std::size_t, std::uint64_t>> all;
            for_each_case(counts, bad_worker, workers, [&](int, std::size_t fi, std::uint64_t ci) {
                all.emplace_back(fi, ci);
                return !((int)fi == slot.facet_idx && ci == slot.case_idx);
            });
            g_seq.seed = seed;
            for(std::size_t n = 2; violation_file.empty(); n *= 4)
            {
                n = std::min(n, all.size());
                g_seq.cases.assign(all.end() - (std::ptrdiff_t)n, all.end());
                int rep = 0;
                outcome q;
                for(int k = 0; k < 3; ++k)
                {
                    q = run_forked(&seq_body, source(std::vector<std::uint64_t>{}), g_cpu_limit);
                    if(!bad(q.kind))
                        break;
                    ++rep;
                }
                if(rep == 3)
                {
                    std::string spec = "sequence " + std::to_string(seed);
                    for(auto& [fi, ci] : g_seq.cases)
                        spec += " " + fs[fi].name + ":" + std::to_string(ci);
                    violation_file = write_replay(f.name, spec, q.msg, q.note, {});
                    violation_msg = q.msg;
                    violation_note = q.note;
                    std::printf("facet %s case %llu fails only after %zu earlier cases\ncase: %s\n%s\n", f.name.c_str(), (unsigned long long)slot.case_idx, n - 1, q.note.c_str(), q.msg.c_str());
                }
                if(n >= all.size() || n > 100000)
                    break;
            }
            if(violation_file.empty())
            inconclusive = "facet " + f.name + " case " + std::to_string(slot.case_idx) + " failed in a worker but not alone: " +
                           (slot.has_msg ? std::string(slot.msg) : crash_summary(read_file_head(g_tmp + "/worker" + std::to_string(bad_worker) + ".err", 1u << 16), bad_status));
        }
        else
        {
            std::size_t attempts = 0;
            std::vector<std::uint64_t> ch = o.log;
            if(o.kind != oc_hang && o.log.size() < log_cap)
                ch = shrink(f.fn, ch, o.kind, attempts);
            int rep = 0;
            outcome last = o;
            for(int k = 0; k < 3; ++k)
            {
                outcome q = run_forked(f.fn, source(ch), g_cpu_limit);
                if(bad(q.kind))
                {
                    ++rep;
                    last = q;
                }
            }
            if(rep < 3 && schedule_tries > 1)
            {
                ch = o.log;
                rep = 0;
                for(int k = 0; k < schedule_tries && rep < 3; ++k)
                {
                    outcome q = run_forked(f.fn, source(ch), g_cpu_limit);
                    if(bad(q.kind))
                    {
                        // a data race that was observed twice needs no third time
                        rep += q.msg.find("data race") != std::string::npos ? 3 : 1;
                        last = q;
                    }
                }
            }
            if(rep >= 3)
            {
                violation_file = write_replay(f.name, "facet " + f.name, last.msg, last.note, ch);
                violation_msg = last.msg;
                violation_note = last.note;
                std::printf("facet %s case %llu, %zu shrink attempts\ncase: %s\n%s\n", f.name.c_str(), (unsigned long long)slot.case_idx, attempts, last.note.c_str(), last.msg.c_str());
            }
            else
                inconclusive = "facet " + f.name + ": reproduced only " + std::to_string(rep) + " of 3 times: " + o.msg;
        }
    }

    if(!out.empty())
    {
        std::ofstream os(out);
        os << "{\n\"wall_s\": " << now_s() - t_start << ",\n\"timed_out\": " << (timed_out ? "true" : "false") << ",\n";
        os << "\"violation_file\": " << json_str(violation_file) << ",\n\"violation_msg\": " << json_str(violation_msg) << ",\n\"violation_note\": " << json_str(violation_note) << ",\n";
        os << "\"inconclusive\": " << json_str(inconclusive) << ",\n\"demos_run\": " << demos.size() << ",\n\"demos\": [";
        for(std::size_t i = 0; i < demo_lines.size(); ++i)
            os << (i ? "," : "") << json_str(demo_lines[i]);
        os << "],\n\"facets\": [";
        for(std::size_t i = 0; i < fs.size(); ++i)
        {
            if(!only.empty() && only != fs[i].name)
                continue;
            if(i && only.empty())
                os << ",";
            os << "\n {\"name\": " << json_str(fs[i].name) << ", \"rule\": " << json_str(fs[i].rule) << ", \"cases\": " << per[i].runs << ", \"nontrivial\": " << per[i].nontrivial << ", \"discarded\": " << per[i].discards << ", \"cpu_s\": " << std::round(per[i].secs * 100) / 100 << ", \"classes\": {";
            bool first = true;
            for(auto& [k, v] : per[i].tags)
            {
                os << (first ? "" : ", ") << json_str(k) << ": " << v;
                first = false;
            }
            os << "}, \"samples\": [";
            for(std::size_t k = 0; k < per[i].samples.size(); ++k)
                os << (k ? ", " : "") << json_str(per[i].samples[k]);
            os << "]}";
        }
        os << "\n],\n\"distinct_nontrivial\": " << seen.size() << "\n}\n";
    }
    if(!inconclusive.empty())
        std::printf("INCONCLUSIVE %s\n", inconclusive.c_str());
    return !violation_file.empty() ? 1 : !inconclusive.empty() ? 2 : 0;
}
