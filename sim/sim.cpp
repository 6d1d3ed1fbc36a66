// Simulator core: decision tape, allocation seam, fault injection, supervisor, minimiser, replay.
#include "sim.hpp"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <map>
#include <new>
#include <sstream>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define NO_ASAN __attribute__((no_sanitize("address")))
#define POISON(p, n) __asan_poison_memory_region((p), (n))
#define UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=78:allocator_may_return_null=1:detect_stack_use_after_return=0:"
           "quarantine_size_mb=16:max_allocation_size_mb=2048:handle_segv=1:handle_abort=0:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=12";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=79"; }
#else
#define NO_ASAN
#define POISON(p, n) (void)0
#define UNPOISON(p, n) (void)0
#endif

// hooks of the concurrency runtime (absent elsewhere)
extern "C" __attribute__((weak)) void sim_on_alloc(void* p, size_t n);
extern "C" __attribute__((weak)) bool sim_on_free(void* p, size_t n); // true: keep the memory (quarantine)
extern "C" __attribute__((weak)) bool sim_alloc_fault();              // true: this allocation fails

extern "C" void __gcov_dump(void) __attribute__((weak));
namespace sim {

// ================================================================ shared page
constexpr size_t kMaxLog = 1u << 20;
constexpr size_t kMaxMarks = 1u << 16;
constexpr size_t kMaxCounters = 256;
constexpr size_t kStateBits = 1u << 22; // linear counting bitmap, bits

struct Shared {
    // current run
    uint64_t seed;
    uint64_t hash;
    uint32_t nlog, nmarks, notes;
    uint32_t nontrivial;
    uint32_t failed;
    char sig[256];
    char msg[4096];
    uint32_t log[kMaxLog];
    uint32_t marks[kMaxMarks];
    // accumulated
    uint64_t runs, nontrivial_runs, steps, choices;
    struct { char name[64]; uint64_t n; } counters[kMaxCounters];
    uint8_t states[kStateBits / 8];
    uint8_t hashes[kStateBits / 8]; // distinct execution hashes of non-trivial runs
    uint64_t hash_checks;
};
static Shared* S = nullptr;
static bool g_trace = false;
static int g_tracefd = 2;

static uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x632be59bd9b4e019ull + (a << 6) + (a >> 2));
    return splitmix(x);
}

// ================================================================ decisions
static bool g_replay = false;
static const std::vector<uint32_t>* g_tape = nullptr;
static size_t g_tpos = 0;
static uint64_t g_rng[4];

static uint64_t rng()
{
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    uint64_t r = rotl(g_rng[1] * 5, 7) * 9, t = g_rng[1] << 17;
    g_rng[2] ^= g_rng[0]; g_rng[3] ^= g_rng[1]; g_rng[1] ^= g_rng[2]; g_rng[0] ^= g_rng[3];
    g_rng[2] ^= t; g_rng[3] = rotl(g_rng[3], 45);
    return r;
}
static uint32_t record(uint32_t v)
{
    if (S->nlog >= kMaxLog)
        fail("harness:tape-overflow", "decision tape overflow");
    S->log[S->nlog++] = v;
    S->hash = mix(S->hash, v);
    ++S->choices;
    return v;
}
static bool replay_next(uint32_t n, uint32_t& v)
{
    if (!g_replay)
        return false;
    v = g_tpos < g_tape->size() ? (*g_tape)[g_tpos++] : 0;
    v %= n;
    return true;
}
uint32_t choose(uint32_t n)
{
    if (n <= 1)
        return 0;
    uint32_t v;
    if (!replay_next(n, v))
        v = (uint32_t)(rng() % n);
    return record(v);
}
uint32_t choose_small(uint32_t n)
{
    if (n <= 1)
        return 0;
    uint32_t v;
    if (!replay_next(n, v))
    {
        uint32_t m = 1;
        uint64_t r = rng();
        while (m < n && (r & 3)) { m *= 2; r >>= 2; }
        v = (uint32_t)(rng() % std::min(m, n));
    }
    return record(v);
}
bool chance(uint32_t num, uint32_t den)
{
    uint32_t v;
    if (!replay_next(2, v))
        v = (rng() % den) < num;
    return record(v);
}
int64_t range(int64_t lo, int64_t hi) { return lo + choose((uint32_t)(hi - lo + 1)); }
void step()
{
    if (S->nmarks < kMaxMarks)
        S->marks[S->nmarks++] = S->nlog;
    ++S->steps;
}
bool more(uint32_t expected)
{
    step();
    return chance(expected, expected + 1);
}
uint32_t weighted(std::initializer_list<uint32_t> w)
{
    uint32_t n = (uint32_t)w.size(), v;
    if (!replay_next(n, v))
    {
        uint64_t sum = 0;
        for (auto x : w) sum += x;
        uint64_t r = rng() % sum;
        v = 0;
        for (auto x : w)
        {
            if (r < x) break;
            r -= x;
            ++v;
        }
    }
    return record(v);
}

// ================================================================ observation
bool tracing() { return g_trace; }
static int g_insut = 0;
void note(const char* fmt, ...)
{
    int saved = g_insut;
    g_insut = 0;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
    va_end(ap);
    n = std::min<int>(n, sizeof buf - 2);
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < n; ++i)
        h = (h ^ (unsigned char)buf[i]) * 1099511628211ull;
    S->hash = mix(S->hash, h);
    ++S->notes;
    if (g_trace)
    {
        buf[n] = '\n';
        if (write(g_tracefd, buf, n + 1) < 0) {}
    }
    g_insut = saved;
}
void trace_raw(const char* fmt, ...)
{
    if (!g_trace)
        return;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
    va_end(ap);
    n = std::min<int>(n, sizeof buf - 2);
    buf[n] = '\n';
    if (write(g_tracefd, buf, n + 1) < 0) {}
}
void fail(const char* sig, const char* fmt, ...)
{
    g_insut = 0;
    if (!S->failed)
    {
        S->failed = 1;
        snprintf(S->sig, sizeof S->sig, "%s", sig);
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(S->msg, sizeof S->msg, fmt, ap);
        va_end(ap);
    }
    _exit(77);
}
static std::map<const char*, int>* g_counter_idx;
void count(const char* name, uint64_t n)
{
    int saved = g_insut;
    g_insut = 0;
    static const char* last = nullptr;
    static int last_i = 0;
    int i;
    if (last == name)
        i = last_i;
    else
    {
        if (!g_counter_idx)
            g_counter_idx = new std::map<const char*, int>();
        auto it = g_counter_idx->find(name);
        if (it != g_counter_idx->end())
            i = it->second;
        else
        {
            for (i = 0; i < (int)kMaxCounters - 1; ++i)
            {
                if (!S->counters[i].name[0])
                {
                    snprintf(S->counters[i].name, sizeof S->counters[i].name, "%s", name);
                    break;
                }
                if (!strcmp(S->counters[i].name, name))
                    break;
            }
            (*g_counter_idx)[name] = i;
        }
        last = name;
        last_i = i;
    }
    S->counters[i].n += n;
    g_insut = saved;
}
void state(uint64_t h)
{
    h = mix(h, 7) % kStateBits;
    S->states[h >> 3] |= 1u << (h & 7);
}
void nontrivial() { S->nontrivial = 1; }

// ================================================================ memory seam
struct Header {
    uint32_t magic;
    uint32_t run;   // run that allocated it while in Sut (0: harness, kForever: inside a static's initialiser)
    uint64_t size;
    Header *prev, *next; // library allocations still alive, this run's and those kept since earlier runs
};
constexpr uint32_t kForever = ~0u;
static uintptr_t g_list = 0; // head of that list, complemented: the leak check must not take it for a root
constexpr uint32_t kAlive = 0x51A11CE0u, kFreed = 0xDEADF4EEu;
static uint32_t g_run = 0;
static int g_static_guard = 0;
static FaultPlan g_plan;
static bool g_fired = false;
static uint64_t g_allocs = 0, g_users = 0;
static uint64_t g_live = 0, g_live_bytes = 0;
static size_t g_cap = 64u << 20;
constexpr uint64_t kRunBytes = 512ull << 20;
static uint64_t g_peak = 0;
uint64_t peak_request() { return g_peak; }

bool fault_fired() { return g_fired; }
uint64_t last_allocs() { return g_allocs; }
uint64_t live_allocs() { return g_live; }
uint64_t live_bytes() { return g_live_bytes; }
void set_alloc_cap(size_t b) { g_cap = b ? b : 64u << 20; }

NO_ASAN static void* sim_alloc(size_t n, size_t align, bool nothrow)
{
    bool track = g_insut > 0 && g_static_guard == 0;
    if (track)
    {
        ++g_allocs;
        bool hit = g_plan.alloc_at && (g_allocs == g_plan.alloc_at || (g_plan.alloc_sticky && g_allocs > g_plan.alloc_at));
        if (sim_alloc_fault && sim_alloc_fault())
            hit = true;
        g_peak = std::max<uint64_t>(g_peak, g_live_bytes + n);
        bool big = n > g_cap || g_live_bytes + n > kRunBytes;
        if (hit || big)
        {
            if (hit)
                g_fired = true;
            count(hit ? "fault.alloc_failure" : "fault.alloc_limit");
            if (nothrow)
                return nullptr;
            throw std::bad_alloc();
        }
    }
    size_t pre = std::max<size_t>(sizeof(Header), align);
    char* base;
    if (align <= 16)
        base = (char*)malloc(n + pre);
    else
        base = (char*)aligned_alloc(align, ((n + pre) + align - 1) / align * align);
    if (!base)
    {
        if (nothrow)
            return nullptr;
        throw std::bad_alloc();
    }
    Header* h = (Header*)(base + pre - sizeof(Header));
    h->magic = kAlive;
    h->run = track ? g_run : g_insut > 0 ? kForever : 0;
    h->size = n;
    if (h->run)
    {
        h->prev = nullptr;
        h->next = g_list ? (Header*)~g_list : nullptr;
        if (h->next)
            h->next->prev = h;
        g_list = ~(uintptr_t)h;
    }
    POISON(h, sizeof(Header));
    if (track)
    {
        ++g_live;
        g_live_bytes += n;
    }
    char* p = base + pre;
    if (track)
        memset(p, 0xA5, n); // uninitialised reads are deterministic garbage
    if (sim_on_alloc)
        sim_on_alloc(p, n);
    return p;
}
NO_ASAN static void sim_free(void* p, size_t align)
{
    if (!p)
        return;
    size_t pre = std::max<size_t>(sizeof(Header), align);
    char* base = (char*)p - pre;
    Header* h = (Header*)((char*)p - sizeof(Header));
    if (h->magic != kAlive)
    {
        if (S)
            fail(h->magic == kFreed ? "memory:double-free" : "memory:bad-free", "%s",
                 h->magic == kFreed ? "memory freed twice" : "free of a pointer that was never allocated, or its header was overwritten");
        abort();
    }
    h->magic = kFreed;
    if (h->run && h->run == g_run)
    {
        --g_live;
        g_live_bytes -= h->size;
    }
    if (h->run)
    {
        if (h->prev)
            h->prev->next = h->next;
        else
            g_list = h->next ? ~(uintptr_t)h->next : 0;
        if (h->next)
            h->next->prev = h->prev;
    }
    if (sim_on_free && sim_on_free(p, h->size))
        return;
    UNPOISON(h, sizeof(Header));
    free(base);
}

// Memory the library keeps on purpose, in a table or cache it fills on first use, is reachable from
// static storage; a leak is not. Called only when something is left at the end of a run.
struct Block { uintptr_t lo, hi; Header* h; bool seen; };
NO_ASAN static void scan(uintptr_t lo, uintptr_t hi, std::vector<Block>& bl, std::vector<size_t>& todo)
{
    for (uintptr_t a = (lo + 7) & ~(uintptr_t)7; a + 8 <= hi; a += 8)
    {
        uintptr_t v = *(const volatile uintptr_t*)a;
        if (v < bl.front().lo || v > bl.back().hi)
            continue;
        size_t b = 0, e = bl.size();
        while (e - b > 1)
        {
            size_t m = (b + e) / 2;
            (bl[m].lo <= v ? b : e) = m;
        }
        if (bl[b].lo <= v && v < bl[b].hi && !bl[b].seen)
        {
            bl[b].seen = true;
            todo.push_back(b);
        }
    }
}
struct Scan { std::vector<Block>* bl; std::vector<size_t>* todo; };
static int scan_module(struct dl_phdr_info* i, size_t, void* arg)
{
    Scan& s = *(Scan*)arg;
    for (int k = 0; k < i->dlpi_phnum; ++k)
    {
        const auto& ph = i->dlpi_phdr[k];
        if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W))
            scan(i->dlpi_addr + ph.p_vaddr, i->dlpi_addr + ph.p_vaddr + ph.p_memsz, *s.bl, *s.todo);
        if (ph.p_type == PT_TLS && i->dlpi_tls_data)
            scan((uintptr_t)i->dlpi_tls_data, (uintptr_t)i->dlpi_tls_data + ph.p_memsz, *s.bl, *s.todo);
    }
    return 1; // the program itself comes first; nothing else holds the library's statics
}
NO_ASAN static void settle_leaks()
{
    std::vector<Block> bl;
    for (Header* h = g_list ? (Header*)~g_list : nullptr; h; h = h->next)
    {
        uint64_t n = h->size;
        bl.push_back({(uintptr_t)(h + 1), (uintptr_t)(h + 1) + (n ? n : 1), h, false});
    }
    std::sort(bl.begin(), bl.end(), [](const Block& a, const Block& b) { return a.lo < b.lo; });
    std::vector<size_t> todo;
    Scan s{&bl, &todo};
    dl_iterate_phdr(scan_module, &s);
    while (!todo.empty())
    {
        size_t i = todo.back();
        todo.pop_back();
        scan(bl[i].lo, bl[i].hi, bl, todo);
    }
    for (auto& b : bl)
        if (b.seen && b.h->run == g_run)
        {
            b.h->run = kForever;
            --g_live;
            g_live_bytes -= b.h->size;
        }
}

Sut::Sut() : Sut(FaultPlan{}) {}
Sut::Sut(const FaultPlan& p)
{
    g_plan = p;
    g_fired = false;
    g_allocs = g_users = 0;
    g_peak = g_live_bytes;
    g_insut = 1;
}
Sut::~Sut()
{
    g_insut = 0;
    g_plan = FaultPlan{};
}
bool Sut::fired() const { return g_fired; }
Pause::Pause() : saved(g_insut) { g_insut = 0; }
Pause::~Pause() { g_insut = saved; }

void user_point(const char* what)
{
    if (g_insut <= 0)
        return;
    ++g_users;
    if (g_plan.user_at && g_users == g_plan.user_at)
    {
        g_fired = true;
        count("fault.user_callback_throws");
        throw Injected{what};
    }
}
FaultPlan choose_faults(uint32_t num, uint32_t den, bool alloc, bool user, uint32_t horizon)
{
    FaultPlan p;
    if ((!alloc && !user) || !chance(num, den))
        return p;
    bool use_user = user && (!alloc || chance(1, 2));
    uint64_t at = 1 + choose_small(horizon);
    if (use_user)
        p.user_at = at;
    else
    {
        p.alloc_at = at;
        p.alloc_sticky = chance(1, 3);
    }
    count("fault.armed");
    return p;
}
TokStats tok;
bool cmp_faults = true;

static void (*g_reset_hook)() = nullptr;
void reset_run_hooks(void (*fn)()) { g_reset_hook = fn; }

// ================================================================ one run
static void seed_rng(uint64_t seed, const char* id)
{
    uint64_t x = seed;
    for (const char* p = id; *p; ++p)
        x = mix(x, (unsigned char)*p);
    for (auto& r : g_rng)
        r = splitmix(x);
}
static void arm_watchdog(int sec)
{
    struct itimerval tv = {};
    tv.it_value.tv_sec = sec;
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}
static void on_vtalrm(int)
{
    if (!S->failed)
    {
        S->failed = 1;
        strcpy(S->sig, "hang");
        strcpy(S->msg, "the code under test did not return within 20 s of CPU time (a run normally takes milliseconds)");
    }
    _exit(77);
}
static void begin_run(uint64_t seed)
{
    S->seed = seed;
    S->hash = 0;
    S->nlog = S->nmarks = S->notes = 0;
    S->nontrivial = 0;
    S->failed = 0;
    S->sig[0] = S->msg[0] = 0;
    ++g_run;
    g_live = g_live_bytes = 0;
    g_insut = 0;
    g_cap = 64u << 20;
    tok.live = 0;
    cmp_faults = true;
    g_plan = FaultPlan{};
    if (g_reset_hook)
        g_reset_hook();
}
static void exec_run(const Prop& p)
{
    try
    {
        p.run();
    }
    catch (const std::exception& e)
    {
        fail("exception", "an operation that should have succeeded threw: %s", e.what());
    }
    catch (const Injected& e)
    {
        fail("exception:injected", "a failure of a value operation surfaced where none was due: %s", e.what);
    }
    g_insut = 0;
    if (g_live)
        settle_leaks();
    if (g_live)
        fail("leak", "%llu allocations (%llu bytes) made by the code under test were never freed after every container was destroyed",
             (unsigned long long)g_live, (unsigned long long)g_live_bytes);
    if (tok.live)
        fail("leak:values", "%lld stored values are still alive after every container was destroyed (negative: destroyed twice)", (long long)tok.live);
}
static void run_seed(const Prop& p, uint64_t seed)
{
    g_replay = false;
    seed_rng(seed, p.id);
    begin_run(seed);
    exec_run(p);
}
#ifdef SIM_CONCURRENT
// Every run gets a process of its own: function-local statics and other first-use state start afresh.
static void run_seed_isolated(const Prop& p, uint64_t seed)
{
    pid_t pid = fork();
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        arm_watchdog(20);
        run_seed(p, seed);
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(status))
    {
        signal(WTERMSIG(status), SIG_DFL);
        raise(WTERMSIG(status));
    }
    if (WEXITSTATUS(status))
        _exit(WEXITSTATUS(status));
}
#else
static void run_seed_isolated(const Prop& p, uint64_t seed) { run_seed(p, seed); }
#endif
static void run_tape(const Prop& p, const std::vector<uint32_t>& tape)
{
    g_replay = true;
    g_tape = &tape;
    g_tpos = 0;
    begin_run(0);
    exec_run(p);
}

// ================================================================ child execution
struct Outcome {
    bool failed = false;
    std::string sig, msg, err;
    std::vector<uint32_t> log, marks;
    uint64_t hash = 0;
};
static std::string slurp(const std::string& path)
{
    std::ifstream f(path, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}
// Turns the way a child died into a short, stable signature.
static void classify(int status, const std::string& err, Outcome& o)
{
    auto line_with = [&](const char* what) -> std::string {
        size_t p = err.find(what);
        if (p == std::string::npos)
            return "";
        size_t b = err.rfind('\n', p);
        b = b == std::string::npos ? 0 : b + 1;
        size_t e = err.find('\n', p);
        return err.substr(b, e == std::string::npos ? std::string::npos : e - b);
    };
    std::string l;
    if (!(l = line_with("ERROR: AddressSanitizer")).empty())
    {
        size_t p = l.find("AddressSanitizer: ") + 18;
        size_t e = l.find_first_of(" \n", p);
        o.sig = "asan:" + l.substr(p, e - p);
        o.msg = l;
        // first frame inside the library
        size_t q = 0;
        while ((q = err.find("    #", q)) != std::string::npos)
        {
            size_t e2 = err.find('\n', q);
            std::string fr = err.substr(q, e2 - q);
            if (fr.find("include/mdds/") != std::string::npos)
            {
                o.msg += " | in" + fr.substr(fr.find(" in ") == std::string::npos ? 0 : fr.find(" in ") + 3);
                break;
            }
            q = e2;
        }
    }
    else if (!(l = line_with("runtime error:")).empty())
        o.sig = "ubsan:" + l.substr(l.find("runtime error:") + 15, 60), o.msg = l;
    else if (!(l = line_with("Assertion")).empty())
    {
        size_t a = l.find("Assertion");
        o.sig = "assert:" + l.substr(a + 10, 80);
        o.msg = l;
    }
    else if (!(l = line_with("terminate called")).empty())
        o.sig = "terminate", o.msg = l + " " + line_with("what():");
    else if (WIFSIGNALED(status))
        o.sig = std::string("signal:") + strsignal(WTERMSIG(status)), o.msg = o.sig;
    else
        o.sig = "exit:" + std::to_string(WEXITSTATUS(status)), o.msg = err.substr(0, 300);
    for (auto& c : o.sig)
        if (c == '\n' || c == '"')
            c = ' ';
}
static std::string g_tmp;
static void child_setup(const std::string& errpath)
{
    int fd = open(errpath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
    close(fd);
    signal(SIGVTALRM, on_vtalrm);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}
static Outcome run_child(const std::function<void()>& body)
{
    std::string errpath = g_tmp + "/err.solo";
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        child_setup(errpath);
        arm_watchdog(20);
        body();
        _exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    Outcome o;
    o.log.assign(S->log, S->log + S->nlog);
    o.marks.assign(S->marks, S->marks + S->nmarks);
    o.hash = S->hash;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
        return o;
    o.failed = true;
    o.err = slurp(errpath);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 77)
    {
        o.sig = S->sig;
        o.msg = S->msg;
    }
    else
        classify(status, o.err, o);
    return o;
}

// ================================================================ minimiser
static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static std::vector<uint32_t> minimise(const Prop& p, Outcome first, double budget, uint64_t& attempts)
{
    std::vector<uint32_t> best = first.log, marks = first.marks;
    const std::string sig = first.sig;
    double t_end = now() + budget;
    auto attempt = [&](const std::vector<uint32_t>& t) {
        if (now() > t_end)
            return false;
        ++attempts;
        Outcome o = run_child([&] { run_tape(p, t); });
        if (!o.failed || o.sig != sig)
            return false;
        if (o.log.size() < best.size() || (o.log.size() == best.size() && o.log < best))
        {
            best = o.log;
            marks = o.marks;
            return true;
        }
        return false;
    };
    bool improved = true;
    while (improved && now() < t_end)
    {
        improved = false;
        // whole steps
        for (size_t chunk = std::max<size_t>(1, marks.size() / 2); chunk >= 1; chunk /= 2)
        {
            for (size_t i = 0; i + 1 < marks.size() + 1 && i < marks.size();)
            {
                if (now() > t_end)
                    break;
                size_t a = marks[i], b = i + chunk < marks.size() ? marks[i + chunk] : best.size();
                if (a >= b || b > best.size())
                {
                    i += chunk;
                    continue;
                }
                std::vector<uint32_t> t(best.begin(), best.begin() + a);
                t.insert(t.end(), best.begin() + b, best.end());
                if (attempt(t))
                    improved = true;
                else
                    i += chunk;
            }
            if (chunk == 1)
                break;
        }
        // small spans
        for (size_t len : {8u, 4u, 2u, 1u})
            for (size_t i = 0; i + len <= best.size();)
            {
                if (now() > t_end)
                    break;
                std::vector<uint32_t> t(best.begin(), best.begin() + i);
                t.insert(t.end(), best.begin() + i + len, best.end());
                if (attempt(t))
                    improved = true;
                else
                    ++i;
            }
        // values
        for (size_t i = 0; i < best.size(); ++i)
        {
            if (now() > t_end)
                break;
            for (uint32_t v : {0u, 1u, best[i] / 2, best[i] ? best[i] - 1 : 0u})
                if (i < best.size() && v < best[i])
                {
                    auto t = best;
                    t[i] = v;
                    if (attempt(t))
                        improved = true;
                }
        }
    }
    return best;
}

// ================================================================ replay files
static std::string json_esc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
            o += '\\', o += (char)c;
        else if (c < 0x20)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += (char)c;
    }
    return o;
}
static void write_replay(const std::string& path, const std::string& harness, const Prop& p, uint64_t seed, const Outcome& o,
                         const std::vector<uint32_t>& tape, const std::string& trace)
{
    std::ofstream f(path);
    f << "mdds-sim-replay 1\nharness " << harness << "\nproperty " << p.id << "\nseed " << seed << "\nsignature " << o.sig
      << "\nmessage ";
    for (char c : o.msg)
        f << (c == '\n' ? ' ' : c);
    f << "\nhash " << o.hash << "\ntape " << tape.size();
    for (auto v : tape)
        f << ' ' << v;
    f << "\n---- trace of the replayed execution (not read back)\n" << trace;
}
struct Replay {
    std::string property, sig;
    uint64_t hash = 0;
    std::vector<uint32_t> tape;
    bool ok = false;
};
static Replay read_replay(const std::string& path)
{
    Replay r;
    std::ifstream f(path);
    std::string line;
    while (std::getline(f, line))
    {
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "property")
            is >> r.property;
        else if (k == "signature")
            r.sig = line.size() > 10 ? line.substr(10) : "";
        else if (k == "hash")
            is >> r.hash;
        else if (k == "tape")
        {
            size_t n;
            is >> n;
            r.tape.resize(n);
            for (auto& v : r.tape)
                is >> v;
            r.ok = true;
        }
        else if (k == "----")
            break;
    }
    return r;
}

// ================================================================ supervisor
struct Known {
    std::string property, sig, what;
};
struct Options {
    std::string property, tier = "quick", replay, evidence, replay_dir = ".", harness, known;
    uint64_t seed = 1, runs = 0;
    double max_s = 0;
    int workers = 8;
    bool verbose = false, no_min = false, list = false;
    int64_t solo = -1;
};

static std::vector<Known> read_known(const std::string& path)
{
    std::vector<Known> v;
    std::ifstream f(path);
    std::string line;
    while (std::getline(f, line))
    {
        if (line.rfind("known:", 0) != 0)
            continue;
        Known k;
        size_t a = line.find("property=");
        size_t b = line.find(" signature=[");
        size_t c = line.find("] ", b == std::string::npos ? 0 : b);
        if (a == std::string::npos || b == std::string::npos || c == std::string::npos)
            continue;
        k.property = line.substr(a + 9, b - a - 9);
        k.sig = line.substr(b + 12, c - b - 12);
        k.what = line.substr(c + 2);
        v.push_back(k);
    }
    return v;
}

static Shared* map_shared()
{
    void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED)
    {
        perror("mmap");
        exit(2);
    }
    return (Shared*)m;
}
static double linear_count(const std::vector<uint8_t>& bits)
{
    size_t zero = 0;
    for (uint8_t b : bits)
        zero += 8 - __builtin_popcount(b);
    if (zero == 0)
        zero = 1;
    double m = (double)bits.size() * 8;
    return -m * __builtin_log((double)zero / m);
}

static int do_replay(const Options& o, const std::vector<Prop>& props)
{
    Replay r = read_replay(o.replay);
    if (!r.ok)
    {
        fprintf(stderr, "cannot read replay file %s\n", o.replay.c_str());
        return 2;
    }
    for (const Prop& p : props)
        if (r.property == p.id)
        {
            int fd = dup(1);
            Outcome out = run_child([&] {
                g_trace = o.verbose;
                g_tracefd = fd;
                run_tape(p, r.tape);
            });
            if (!out.failed)
            {
                printf("REPLAY property=%s passed: the recorded execution no longer violates the property\n", p.id);
                return 0;
            }
            printf("%s\n", out.msg.c_str());
            if (o.verbose)
                fprintf(stderr, "%s\n", out.err.c_str());
            printf("REPLAY property=%s signature=[%s] hash=%llu %s\n", p.id, out.sig.c_str(), (unsigned long long)out.hash,
                   out.sig == r.sig ? (out.hash == r.hash ? "(identical to the recorded execution)" : "(same violation, different execution)") : "(different violation)");
            printf("VIOLATION property=%s replay=%s\n", p.id, o.replay.c_str());
            return 1;
        }
    fprintf(stderr, "unknown property in replay file\n");
    return 2;
}

static int supervise(const Options& o, const Prop& p)
{
    uint64_t runs = o.runs ? o.runs : (o.tier == "thorough" ? p.thorough_runs : p.quick_runs);
    double max_s = o.max_s > 0 ? o.max_s : (o.tier == "thorough" ? 800 : 240);
    auto known = read_known(o.known);
    std::map<std::string, uint64_t> known_hits;
    int W = o.workers;
    std::vector<Shared*> pages(W);
    std::vector<pid_t> pids(W, -1);
    std::vector<uint64_t> next(W);
    for (int w = 0; w < W; ++w)
    {
        pages[w] = map_shared();
        next[w] = w;
    }
    Shared* solo = map_shared();
    double t0 = now();
    uint64_t base = mix(o.seed, 0x5eed);
    auto seed_of = [&](uint64_t i) { return mix(base, i); };

    auto spawn = [&](int w) {
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0)
        {
            S = pages[w];
            child_setup(g_tmp + "/err." + std::to_string(w));
            for (uint64_t i = next[w]; i < runs; i += W)
            {
                arm_watchdog(20);
                uint64_t keep = i;
                // publish progress so that the parent can resume after a crash
                ((volatile Shared*)S)->seed = keep;
                run_seed_isolated(p, seed_of(i));
                S->seed = i;
                ++S->runs;
                if (S->nontrivial)
                {
                    ++S->nontrivial_runs;
                    uint64_t h = mix(S->hash, 11) % kStateBits;
                    S->hashes[h >> 3] |= 1u << (h & 7);
                }
                if (i % 211 == (uint64_t)(w % 211))
                {
                    // determinism: the same seed must give the same execution
                    uint64_t h = S->hash;
                    bool nt = S->nontrivial;
                    run_seed_isolated(p, seed_of(i));
                    if (S->hash != h)
                        fail("harness:nondeterminism", "seed %llu: two executions of one seed differ", (unsigned long long)seed_of(i));
                    (void)nt;
                    ++S->hash_checks;
                }
                S->seed = i;
            }
            if (__gcov_dump)
                __gcov_dump();   // when built for a coverage report
            _exit(0);
        }
        pids[w] = pid;
    };
    // In begin_run() the seed field is overwritten with the real seed; the index is recovered by search.
    auto index_of = [&](int w, uint64_t seed) {
        for (uint64_t i = next[w]; i < runs; i += W)
            if (seed_of(i) == seed || seed == i)
                return i;
        return (uint64_t)runs;
    };
    for (int w = 0; w < W; ++w)
        spawn(w);
    int active = W;
    bool violated = false, nondet = false;
    int unrepeatable = 0;
    int kept_state = 0;
    Outcome vio;
    uint64_t vseed = 0, min_attempts = 0;
    std::vector<uint32_t> vtape;
    bool timed_out = false;
    auto kill_all = [&] {
        for (int w = 0; w < W; ++w)
            if (pids[w] > 0)
            {
                kill(pids[w], SIGKILL);
                waitpid(pids[w], nullptr, 0);
                pids[w] = -1;
            }
        active = 0;
    };
    while (active > 0)
    {
        int status;
        pid_t pid = waitpid(-1, &status, WNOHANG);
        if (pid == 0)
        {
            usleep(2000);
            if (now() - t0 > max_s)
            {
                timed_out = true;
                kill_all();
            }
            continue;
        }
        if (pid < 0)
            break;
        int w = -1;
        for (int i = 0; i < W; ++i)
            if (pids[i] == pid)
                w = i;
        if (w < 0)
            continue;
        pids[w] = -1;
        --active;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
            continue;
        // candidate violation: re-execute the seed alone
        uint64_t idx = index_of(w, pages[w]->seed);
        if (idx >= runs)
        {
            fprintf(stderr, "internal: worker died outside a run (status %d)\n%s\n", status, slurp(g_tmp + "/err." + std::to_string(w)).c_str());
            kill_all();
            return 2;
        }
        S = solo;
        uint64_t seed = seed_of(idx);
        Outcome a = run_child([&] { run_seed(p, seed); });
        Outcome b = run_child([&] { run_seed(p, seed); });
        if (a.failed && !b.failed)
            b = run_child([&] { run_seed(p, seed); });
        if (!a.failed || !b.failed || a.sig != b.sig)
        {
            // Two runs of one seed differed in a process that had run others, but in processes of their
            // own they agree: something kept since the first run (a table filled on first use) shifted
            // the count of allocations.  Every run is still repeatable from its seed.
            if (!strcmp(pages[w]->sig, "harness:nondeterminism") && !a.failed && !b.failed && a.hash == b.hash && ++kept_state <= 200)
            {
                next[w] = idx + W;
                ++active;
                spawn(w);
                continue;
            }
            // Not repeatable alone, so not reported; the search goes on with the next seed.
            if (++unrepeatable <= 25)
            {
                next[w] = idx + W;
                ++active;
                spawn(w);
                if (unrepeatable > 3)
                    continue;
            }
            std::string werr = slurp(g_tmp + "/err." + std::to_string(w));
            fprintf(stderr, "candidate at seed %llu did not reproduce alone (worker sig=%s msg=%s; solo %d/%d %s %s)\n%s\n", (unsigned long long)seed,
                    pages[w]->sig, pages[w]->msg, a.failed, b.failed, a.sig.c_str(), b.sig.c_str(), werr.substr(0, 3000).c_str());
            nondet = true;
            if (unrepeatable > 25)
            {
                kill_all();
                break;
            }
            continue;
        }
        if (a.sig.rfind("harness:", 0) == 0)
        {
            fprintf(stderr, "harness error at seed %llu: %s\n", (unsigned long long)seed, a.msg.c_str());
            nondet = true;
            kill_all();
            break;
        }
        bool is_known = false;
        for (auto& k : known)
            if (k.property == p.id && k.sig == a.sig)
            {
                is_known = true;
                ++known_hits[k.sig];
            }
        if (is_known)
        {
            next[w] = idx + W;
            ++active;
            spawn(w);
            continue;
        }
        violated = true;
        vio = a;
        vseed = seed;
        kill_all();
    }
    int rc = 0;
    std::string rpath;
    if (violated)
    {
        S = solo;
        vtape = minimise(p, vio, o.no_min ? 0 : o.tier == "thorough" ? 90 : 40, min_attempts);
        std::string tpath = g_tmp + "/trace";
        Outcome fin = run_child([&] {
            g_trace = true;
            g_tracefd = open(tpath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            run_tape(p, vtape);
        });
        Outcome again = run_child([&] { run_tape(p, vtape); });
        if (!fin.failed || fin.sig != vio.sig || again.sig != fin.sig)
        {
            // fall back to the whole tape
            vtape = vio.log;
            fin = run_child([&] {
                g_trace = true;
                g_tracefd = open(tpath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                run_tape(p, vtape);
            });
            if (!fin.failed)
                fin = vio;
        }
        rpath = o.replay_dir + "/" + p.id + ".replay";
        std::string report = slurp(tpath);
        if (fin.sig.rfind("asan:", 0) == 0 || fin.sig.rfind("ubsan:", 0) == 0)
            report += "\n---- report\n" + fin.err.substr(0, 6000);
        write_replay(rpath, o.harness, p, vseed, fin, vtape, report);
        printf("violation of %s at seed %llu: [%s] %s\n", p.id, (unsigned long long)vseed, fin.sig.c_str(), fin.msg.c_str());
        printf("minimised from %zu to %zu decisions in %llu executions; trace:\n%s\n", vio.log.size(), vtape.size(), (unsigned long long)min_attempts,
               slurp(tpath).substr(0, 4000).c_str());
        printf("VIOLATION property=%s replay=%s\n", p.id, rpath.c_str());
        rc = 1;
    }
    else if (nondet)
        rc = 2;
    for (auto& k : known)
        if (k.property == p.id)
            printf("KNOWN-FINDING: property=%s %s (signature [%s], met %llu times in this run)\n", p.id, k.what.c_str(), k.sig.c_str(),
                   (unsigned long long)known_hits[k.sig]);
    // ---------------- evidence
    double wall = now() - t0;
    uint64_t nruns = 0, nt = 0, steps = 0, choices = 0, hc = 0;
    std::map<std::string, uint64_t> counters;
    std::vector<uint8_t> st(kStateBits / 8), hs(kStateBits / 8);
    for (int w = 0; w < W; ++w)
    {
        Shared* s = pages[w];
        nruns += s->runs;
        nt += s->nontrivial_runs;
        steps += s->steps;
        choices += s->choices;
        hc += s->hash_checks;
        for (auto& c : s->counters)
            if (c.name[0])
                counters[c.name] += c.n;
        for (size_t i = 0; i < st.size(); ++i)
        {
            st[i] |= s->states[i];
            hs[i] |= s->hashes[i];
        }
    }
    uint64_t distinct = std::min<uint64_t>((uint64_t)(linear_count(hs) + 0.5), nt);
    uint64_t states = (uint64_t)(linear_count(st) + 0.5);
    if (!o.evidence.empty())
    {
        std::ostringstream e;
        e << "{\"property\":\"" << p.id << "\",\"tier\":\"" << o.tier << "\",\"seed\":" << o.seed
          << ",\"coverage\":{\"evaluations\":" << nruns << ",\"distinct_nontrivial\":" << distinct << ",\"rule\":\"" << json_esc(p.rule)
          << "\",\"planned_runs\":" << runs << ",\"stopped_by_time_limit\":" << (timed_out ? "true" : "false")
          << ",\"nontrivial_runs\":" << nt << ",\"simulated_steps\":" << steps << ",\"decisions\":" << choices
          << ",\"distinct_states_estimate\":" << states << ",\"runs_per_hour\":" << (uint64_t)(nruns / std::max(wall, 0.001) * 3600)
          << ",\"determinism_rechecks\":" << hc << ",\"counters\":{";
        bool first = true;
        for (auto& [k, v] : counters)
        {
            e << (first ? "" : ",") << "\"" << json_esc(k) << "\":" << v;
            first = false;
        }
        e << "},\"known_finding_hits\":{";
        first = true;
        for (auto& [k, v] : known_hits)
        {
            e << (first ? "" : ",") << "\"" << json_esc(k) << "\":" << v;
            first = false;
        }
        e << "},\"samples\":[";
        // samples: trace of the first seeds
        S = solo;
        for (int i = 0; i < 2; ++i)
        {
            std::string tp = g_tmp + "/sample";
            Outcome so = run_child([&] {
                g_trace = true;
                g_tracefd = open(tp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                run_seed(p, seed_of(i));
            });
            e << (i ? "," : "") << "{\"seed\":" << seed_of(i) << ",\"decisions\":" << so.log.size() << ",\"hash\":\"" << so.hash << "\",\"trace\":\""
              << json_esc(slurp(tp).substr(0, 1500)) << "\"}";
        }
        e << "]},\"wall_s\":" << wall << ",\"violation_list\":[";
        if (violated)
            e << "{\"signature\":\"" << json_esc(vio.sig) << "\",\"replay\":\"" << json_esc(rpath) << "\",\"seed\":" << vseed << "}";
        e << "]}";
        std::ofstream(o.evidence) << e.str() << "\n";
    }
    if (rc == 0)
        printf("%s: %llu runs, %llu non-trivial, %llu steps, ~%llu distinct states, %.1f s%s\n", p.id, (unsigned long long)nruns, (unsigned long long)nt,
               (unsigned long long)steps, (unsigned long long)states, wall, timed_out ? " (time limit)" : "");
    if (rc == 0 && nruns == 0)
        rc = 2;
    return rc;
}

} // namespace sim

// ================================================================ seams: allocator, static initialisation
void* operator new(size_t n) { return sim::sim_alloc(n, 16, false); }
void* operator new[](size_t n) { return sim::sim_alloc(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::sim_alloc(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::sim_alloc(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return sim::sim_alloc(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return sim::sim_alloc(n, (size_t)a, false); }
void operator delete(void* p) noexcept { sim::sim_free(p, 16); }
void operator delete[](void* p) noexcept { sim::sim_free(p, 16); }
void operator delete(void* p, size_t) noexcept { sim::sim_free(p, 16); }
void operator delete[](void* p, size_t) noexcept { sim::sim_free(p, 16); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::sim_free(p, 16); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::sim_free(p, 16); }
void operator delete(void* p, std::align_val_t a) noexcept { sim::sim_free(p, (size_t)a); }
void operator delete[](void* p, std::align_val_t a) noexcept { sim::sim_free(p, (size_t)a); }
void operator delete(void* p, size_t, std::align_val_t a) noexcept { sim::sim_free(p, (size_t)a); }
void operator delete[](void* p, size_t, std::align_val_t a) noexcept { sim::sim_free(p, (size_t)a); }

#ifndef SIM_CONCURRENT
// Function-local statics of the library live as long as the process: their allocations are neither
// leaks nor fault targets.
extern "C" int __cxa_guard_acquire(uint64_t* g)
{
    if (*(char*)g)
        return 0;
    ++sim::g_static_guard;
    return 1;
}
extern "C" void __cxa_guard_release(uint64_t* g)
{
    *(char*)g = 1;
    --sim::g_static_guard;
}
extern "C" void __cxa_guard_abort(uint64_t*) { --sim::g_static_guard; }
#else
namespace sim {
int& static_guard_flag() { return g_static_guard; }
int& insut_flag() { return g_insut; }
}
#endif

int main(int argc, char** argv)
{
    using namespace sim;
    Options o;
    o.harness = argv[0];
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--property") o.property = val();
        else if (a == "--tier") o.tier = val();
        else if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--runs") o.runs = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--max-s") o.max_s = atof(val().c_str());
        else if (a == "--workers") o.workers = atoi(val().c_str());
        else if (a == "--replay") o.replay = val();
        else if (a == "--replay-dir") o.replay_dir = val();
        else if (a == "--evidence") o.evidence = val();
        else if (a == "--known") o.known = val();
        else if (a == "--harness") o.harness = val();
        else if (a == "--solo") o.solo = atoll(val().c_str());
        else if (a == "--no-min") o.no_min = true;
        else if (a == "-v") o.verbose = true;
        else if (a == "--list") o.list = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    char tmpl[] = "/tmp/mdds-sim-XXXXXX";
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    g_tmp = tmpl;
    S = map_shared();
    int rc = 2;
    const auto& props = properties();
    if (o.list)
    {
        for (auto& p : props) printf("%s\n", p.id);
        rc = 0;
    }
    else if (!o.replay.empty())
        rc = do_replay(o, props);
    else
    {
        for (auto& p : props)
            if (o.property == p.id)
            {
                if (o.solo >= 0)
                {
                    int fd = dup(1);
                    uint64_t base = mix(o.seed, 0x5eed);
                    Outcome out = run_child([&] { g_trace = true; g_tracefd = fd; run_seed(p, mix(base, o.solo)); });
                    printf("%s %s\n%s\n", out.sig.c_str(), out.msg.c_str(), out.err.c_str());
                    rc = out.failed;
                }
                else
                    rc = supervise(o, p);
            }
    }
    for (const char* f : {"/err.solo", "/trace", "/sample"})
        unlink((g_tmp + f).c_str());
    for (int w = 0; w < 64; ++w)
        unlink((g_tmp + "/err." + std::to_string(w)).c_str());
    rmdir(g_tmp.c_str());
    return rc;
}
