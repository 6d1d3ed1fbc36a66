// Runtime for simulated threads: scheduler, happens-before race detector, seams for locks, guards
// and thread-local storage.  Compiled without instrumentation.
#include "conc.hpp"

#include <cstdlib>
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <time.h>
#include <unistd.h>

namespace sim {
int& insut_flag();
int& static_guard_flag();
}

namespace conc {

constexpr int NT = kMaxThreads + 1;
constexpr size_t kStack = 512 << 10;

struct VC {
    uint32_t c[NT] = {};
    void join(const VC& o) { for (int i = 0; i < NT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

// ---------------------------------------------------------------- threads
struct Fiber {
    void* sp = nullptr;
    char* stack = nullptr;
    const std::function<void()>* body = nullptr;
    bool done = false;
    const void* blocked = nullptr;
    VC vc, rel_fence, acq_pending;
    // per-thread process state
    void* eh[2] = {};
    int insut = 0, guard = 0;
    std::vector<char> tls;
    std::vector<std::pair<void (*)(void*), void*>> tls_dtors;
    uint64_t fail_at = 0, allocs = 0;
    bool fired = false;
};
static Fiber F[NT];
static int cur = 0;
static bool g_overlap = false;
static bool g_on = false;        // inside run()
static int g_quiet = 0;          // harness bookkeeping or runtime code
static int g_n = 0;
static int64_t g_quantum = 0;
static uint32_t g_qmax = 1;
static uint64_t g_clock = 0;
static void* main_sp;
static std::exception_ptr* g_collect = nullptr;

struct Runtime { Runtime() { ++g_quiet; } ~Runtime() { --g_quiet; } };

extern "C" void conc_switch(void** save, void* to);
asm(R"(
.text
.globl conc_switch
.type conc_switch,@function
conc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size conc_switch,.-conc_switch
)");

// thread-local storage of the executable
static char* g_tls = nullptr;
static size_t g_tls_size = 0;
static std::vector<char> g_tls_init;
static uintptr_t g_tls_lo = 0, g_tls_hi = 0;
static uintptr_t g_base = 0, g_ro_lo = 0, g_ro_hi = 0;
static int find_tls(struct dl_phdr_info* i, size_t, void*)
{
    g_base = i->dlpi_addr;
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_phdr[k].p_memsz)
        {
            auto& p = i->dlpi_phdr[k];
            size_t a = p.p_align ? p.p_align : 1;
            uintptr_t fs = (uintptr_t)__builtin_thread_pointer();
            g_tls_size = p.p_memsz;
            g_tls = (char*)(fs - (p.p_memsz + a - 1) / a * a);
            g_tls_init.assign(p.p_memsz, 0);
            memcpy(g_tls_init.data(), (char*)i->dlpi_addr + p.p_vaddr, p.p_filesz);
        }
    return 1; // the executable comes first
}
static void init()
{
    static bool done = false;
    if (done)
        return;
    done = true;
    dl_iterate_phdr(find_tls, nullptr);
    uintptr_t fs = (uintptr_t)__builtin_thread_pointer();
    g_tls_lo = fs - 16384;
    g_tls_hi = fs + 4096;
    for (int i = 1; i < NT; ++i)
        F[i].stack = (char*)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK, -1, 0);
}

static void swap_in(Fiber& f)
{
    void** g = (void**)abi::__cxa_get_globals();
    g[0] = f.eh[0];
    ((unsigned*)(g + 1))[0] = (unsigned)(uintptr_t)f.eh[1];
    sim::insut_flag() = f.insut;
    sim::static_guard_flag() = f.guard;
    if (g_tls_size)
        memcpy(g_tls, f.tls.data(), g_tls_size);
}
static void swap_out(Fiber& f)
{
    void** g = (void**)abi::__cxa_get_globals();
    f.eh[0] = g[0];
    f.eh[1] = (void*)(uintptr_t)((unsigned*)(g + 1))[0];
    f.insut = sim::insut_flag();
    f.guard = sim::static_guard_flag();
    if (g_tls_size)
        memcpy(f.tls.data(), g_tls, g_tls_size);
}
// Back to the scheduler.  Called with g_quiet held once by the caller's Runtime guard.
static void leave()
{
    conc_switch(&F[cur].sp, main_sp);
}
static void entry()
{
    Fiber& f = F[cur];
    --g_quiet;
    try
    {
        (*f.body)();
        for (int i = (int)f.tls_dtors.size() - 1; i >= 0; --i)
            f.tls_dtors[i].first(f.tls_dtors[i].second);
    }
    catch (const std::exception& e)
    {
        if (!g_collect)
            sim::fail("exception", "thread %d ended by an exception: %s", cur, e.what());
        Runtime r;
        if (!*g_collect)
            *g_collect = std::current_exception();
    }
    catch (...)
    {
        if (!g_collect)
            sim::fail("exception", "thread %d ended by an exception", cur);
        Runtime r;
        if (!*g_collect)
            *g_collect = std::current_exception();
    }
    ++g_quiet;
    f.done = true;
    leave();
    __builtin_trap();
}

static void acquire_from(const VC& v) { F[cur].vc.join(v); }

void run(const std::vector<std::function<void()>>& bodies, std::exception_ptr* collect)
{
    if (g_on)
    {
        // nested: the caller's thread does the work itself
        for (auto& b : bodies)
            b();
        return;
    }
    Runtime rt;
    sim::Pause pause;
    init();
    __libc_single_threaded = 0;
    g_n = (int)bodies.size();
    if (g_n >= NT)
        sim::fail("harness:threads", "too many simulated threads");
    g_collect = collect;
    Fiber& m = F[0];
    m.tls.resize(g_tls_size);
    swap_out(m);
    ++m.vc.c[0];
    switch (sim::choose(4))
    {
        case 0: g_qmax = 3; break;
        case 1: g_qmax = 16; break;
        case 2: g_qmax = 150; break;
        default: g_qmax = 3000;
    }
    for (int i = 1; i <= g_n; ++i)
    {
        Fiber& f = F[i];
        char* st = f.stack;
        uint32_t own = f.vc.c[i];
        f.done = false;
        f.blocked = nullptr;
        f.body = &bodies[i - 1];
        f.vc = m.vc;
        f.vc.c[i] = own + 1;
        f.rel_fence = f.acq_pending = VC();
        f.eh[0] = f.eh[1] = nullptr;
        f.insut = 1;
        f.guard = 0;
        f.tls = g_tls_init;
        f.tls_dtors.clear();
        f.fail_at = f.allocs = 0;
        f.fired = false;
        void** sp = (void**)(st + kStack - 64);
        *--sp = nullptr;          // alignment: entry sees rsp % 16 == 8
        *--sp = (void*)&entry;
        for (int k = 0; k < 6; ++k)
            *--sp = nullptr;
        f.sp = sp;
    }
    ++m.vc.c[0];
    g_on = true;
    uint64_t switches = 0;
    int last = 0;
    for (;;)
    {
        int r[NT], nr = 0, left = 0;
        for (int i = 1; i <= g_n; ++i)
        {
            left += !F[i].done;
            if (!F[i].done && !F[i].blocked)
                r[nr++] = i;
        }
        if (!left)
            break;
        if (!nr)
            sim::fail("deadlock", "every thread that has not finished waits for a lock or an initialisation");
        int t = r[sim::choose(nr)];
        g_quantum = nr > 1 ? 1 + sim::choose(g_qmax) : 1 << 30;
        if (nr == 1 && left > 1)
            g_quantum = 1 + sim::choose(g_qmax); // others wait and may be woken
        if (t != last)
        {
            ++switches;
            if (sim::tracing())
                sim::trace_raw("    -- thread %d runs (access %llu)", t, (unsigned long long)g_clock);
        }
        last = t;
        cur = t;
        swap_in(F[t]);
        conc_switch(&main_sp, F[t].sp);
        swap_out(F[t]);
        cur = 0;
    }
    g_on = false;
    for (int i = 1; i <= g_n; ++i)
        m.vc.join(F[i].vc);
    ++m.vc.c[0];
    swap_in(m);
    sim::count("thread_switches", switches);
    g_overlap |= switches > (uint64_t)g_n;
    g_collect = nullptr;
}

int self() { return cur; }
bool active() { return g_on; }
bool overlap() { return g_overlap; }
uint64_t clock() { return g_clock; }

static inline bool live() { return g_on && g_quiet == 0; }

static void yield_now()
{
    // caller holds a Runtime
    leave();
}
static inline void tick()
{
    ++g_clock;
    if (--g_quantum <= 0)
    {
        Runtime r;
        yield_now();
    }
}
void point()
{
    if (live())
        tick();
}
static void block_on(const void* what)
{
    F[cur].blocked = what;
    yield_now();
}
static void wake(const void* what)
{
    for (int i = 1; i <= g_n; ++i)
        if (F[i].blocked == what)
            F[i].blocked = nullptr;
}

Quiet::Quiet() : saved(sim::insut_flag())
{
    sim::insut_flag() = 0;
    ++g_quiet;
}
Quiet::~Quiet()
{
    --g_quiet;
    sim::insut_flag() = saved;
}
void arm_alloc(uint64_t nth)
{
    F[cur].fail_at = nth;
    F[cur].allocs = 0;
    F[cur].fired = false;
}
bool alloc_fired() { return F[cur].fired; }

// ---------------------------------------------------------------- shadow memory
enum Kind : uint8_t { R, W, AR, AW };
struct Rec {
    uint32_t clk;
    uint8_t tid, mask, kind, freed;
    void* pc;
};
constexpr int kRecs = 10;
struct Cell {
    uintptr_t g; // granule + 1, 0: unused
    uint32_t n;
    uint32_t freed; // mask of freed bytes
    Rec r[kRecs];
};
constexpr size_t kCells = 1 << 16;
static Cell cells[kCells];
static size_t g_used = 0;

static Cell* cell_of(uintptr_t g)
{
    size_t i = (g ^ (g >> 16) * 0x9e37u) & (kCells - 1);
    for (size_t k = 0; k < 64; ++k, i = (i + 1) & (kCells - 1))
    {
        if (cells[i].g == g + 1)
            return &cells[i];
        if (!cells[i].g)
        {
            if (g_used > kCells / 4 * 3)
                return nullptr;
            ++g_used;
            cells[i].g = g + 1;
            return &cells[i];
        }
    }
    return nullptr;
}
static const char* kname(int k) { return k == R ? "read" : k == W ? "write" : k == AR ? "atomic read" : "atomic write"; }
static void where(void* pc, char* out, size_t n)
{
    uintptr_t off = (uintptr_t)pc - g_base - 1;
    snprintf(out, n, "+0x%lx", (unsigned long)off);
    if (!sim::tracing())
        return;
    char cmd[256];
    snprintf(cmd, sizeof cmd, "addr2line -Cfpie /proc/%d/exe 0x%lx 2>/dev/null", (int)getpid(), (unsigned long)off);
    FILE* f = popen(cmd, "r");
    if (!f)
        return;
    char line[600];
    size_t used = 0;
    int lines = 0;
    while (fgets(line, sizeof line, f) && lines < 4 && used + 250 < n)
    {
        line[strcspn(line, "\n")] = 0;
        size_t len = strlen(line);
        // keep the function's end and the file's end
        const char* at = strstr(line, " at ");
        int fl = at ? (int)(at - line) : (int)len;
        const char* file = at ? strrchr(line, '/') : nullptr;
        used += snprintf(out + used, n - used, "%s%.*s%s%s", lines ? " < " : "", fl > 90 ? 90 : fl, line, file ? " " : "", file ? file + 1 : "");
        ++lines;
    }
    pclose(f);
}
[[noreturn]] static void report(const Rec& a, int kind, void* pc, bool freed)
{
    static char w1[1200], w2[1200];
    g_on = false;
    where(a.pc, w1, sizeof w1);
    where(pc, w2, sizeof w2);
    if (freed)
        sim::fail("use-after-free", "thread %d %ss memory that thread %d has freed: %s | freed at %s", cur, kname(kind), a.tid, w2, w1);
    sim::fail("race", "data race: thread %d %s at %s | thread %d %s at %s; no synchronisation orders them", a.tid, a.freed ? "free" : kname(a.kind), w1, cur,
              kname(kind), w2);
}
static void access1(uintptr_t g, uint8_t mask, Kind kind, void* pc, bool freeing = false)
{
    Cell* c = cell_of(g);
    if (!c)
    {
        sim::count("shadow_full");
        return;
    }
    Fiber& f = F[cur];
    bool wr = kind == W || kind == AW;
    if (c->freed & mask)
        for (uint32_t i = 0; i < c->n; ++i)
            if (c->r[i].freed)
                report(c->r[i], kind, pc, true);
    uint32_t keep = 0;
    for (uint32_t i = 0; i < c->n; ++i)
    {
        Rec& o = c->r[i];
        if (o.tid != cur && (o.mask & mask))
        {
            bool owr = o.kind == W || o.kind == AW;
            bool atomic = o.kind >= AR && kind >= AR;
            if ((wr || owr) && !atomic && o.clk > f.vc.c[o.tid])
                report(o, kind, pc, false);
        }
        // superseded by this access?
        bool drop = o.tid == cur && o.kind == kind && (o.mask & ~mask) == 0 && !o.freed;
        if (!drop)
            c->r[keep++] = o;
    }
    c->n = keep;
    if (c->n == kRecs)
    {
        // forget the record of the thread with most records (may miss a race, never invents one)
        memmove(&c->r[0], &c->r[1], sizeof(Rec) * (kRecs - 1));
        --c->n;
    }
    c->r[c->n++] = Rec{f.vc.c[cur], (uint8_t)cur, mask, (uint8_t)kind, (uint8_t)freeing, pc};
    if (freeing)
        c->freed |= mask;
}
static inline bool own_stack(uintptr_t a) { return a - (uintptr_t)F[cur].stack < kStack; }
static inline bool ignored(uintptr_t a) { return own_stack(a) || (a >= g_tls_lo && a < g_tls_hi); }

static void access(uintptr_t a, size_t n, Kind kind, void* pc, bool freeing = false)
{
    Runtime rt;
    while (n)
    {
        uintptr_t g = a >> 3;
        size_t off = a & 7, len = std::min<size_t>(8 - off, n);
        access1(g, (uint8_t)(((1u << len) - 1) << off), kind, pc, freeing);
        a += len;
        n -= len;
    }
}
static inline void mem(const void* p, size_t n, Kind kind, void* pc)
{
    if (!live() || !n)
        return;
    uintptr_t a = (uintptr_t)p;
    if (ignored(a))
        return;
    tick();
    access(a, n, kind, pc);
}

// ---------------------------------------------------------------- synchronisation variables
struct SyncVar { uintptr_t a; VC vc; };
constexpr size_t kSync = 1 << 13;
static SyncVar sync_[kSync];
static size_t g_sync_used = 0;
static SyncVar& sv(const void* p)
{
    uintptr_t a = (uintptr_t)p;
    size_t i = (a >> 2) * 0x9e3779b1u & (kSync - 1);
    for (;; i = (i + 1) & (kSync - 1))
    {
        if (sync_[i].a == a)
            return sync_[i];
        if (!sync_[i].a)
        {
            if (++g_sync_used > kSync / 4 * 3)
                sim::fail("harness:sync", "too many synchronisation variables in one run");
            sync_[i].a = a;
            return sync_[i];
        }
    }
}
static void acq(const void* p) { F[cur].vc.join(sv(p).vc); }
static void rel(const void* p)
{
    sv(p).vc.join(F[cur].vc);
    ++F[cur].vc.c[cur];
}
static bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

template<typename T> static void at_before(const volatile T* p, Kind k, void* pc)
{
    if (!live() || ignored((uintptr_t)p))
        return;
    tick();
    access((uintptr_t)p, sizeof(T), k, pc);
}
static void sync_load(const volatile void* vp, int mo)
{
    if (!live())
        return;
    Runtime r;
    const void* p = (const void*)vp;
    if (is_acq(mo))
        acq(p);
    else
        F[cur].acq_pending.join(sv(p).vc);
}
static void sync_store(const volatile void* vp, int mo)
{
    if (!live())
        return;
    Runtime r;
    const void* p = (const void*)vp;
    sv(p).vc = VC();   // a plain store ends the release sequence it overwrites
    if (is_rel(mo))
        rel(p);
    else
        sv(p).vc.join(F[cur].rel_fence);
}
static void sync_rmw(const volatile void* vp, int mo)
{
    if (!live())
        return;
    Runtime r;
    const void* p = (const void*)vp;
    if (is_acq(mo))
        acq(p);
    else
        F[cur].acq_pending.join(sv(p).vc);
    if (is_rel(mo))
        rel(p);
    else
        sv(p).vc.join(F[cur].rel_fence);
}

} // namespace conc

using namespace conc;
#define PC __builtin_return_address(0)
#define EXPORT extern "C" __attribute__((visibility("default")))

EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
#define ACC(n) \
    EXPORT void __tsan_read##n(void* p) { mem(p, n, R, PC); } \
    EXPORT void __tsan_write##n(void* p) { mem(p, n, W, PC); } \
    EXPORT void __tsan_unaligned_read##n(void* p) { mem(p, n, R, PC); } \
    EXPORT void __tsan_unaligned_write##n(void* p) { mem(p, n, W, PC); } \
    EXPORT void __tsan_volatile_read##n(void* p) { mem(p, n, R, PC); } \
    EXPORT void __tsan_volatile_write##n(void* p) { mem(p, n, W, PC); } \
    EXPORT void __tsan_unaligned_volatile_read##n(void* p) { mem(p, n, R, PC); } \
    EXPORT void __tsan_unaligned_volatile_write##n(void* p) { mem(p, n, W, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
EXPORT void __tsan_read_range(void* p, unsigned long n) { mem(p, n, R, PC); }
EXPORT void __tsan_write_range(void* p, unsigned long n) { mem(p, n, W, PC); }
EXPORT void __tsan_vptr_update(void** p, void* v) { if (*p != v) mem(p, 8, W, PC); }
EXPORT void __tsan_vptr_read(void** p) { mem(p, 8, R, PC); }

#define ATOMIC(bits, T) \
    EXPORT T __tsan_atomic##bits##_load(const volatile T* p, int mo) { at_before(p, AR, PC); T v = __atomic_load_n(p, 5); sync_load(p, mo & 7); return v; } \
    EXPORT void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { at_before(p, AW, PC); __atomic_store_n(p, v, 5); sync_store(p, mo & 7); } \
    EXPORT T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { at_before(p, AW, PC); T o = __atomic_exchange_n(p, v, 5); sync_rmw(p, mo & 7); return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { at_before(p, AW, PC); T o = __atomic_fetch_add(p, v, 5); sync_rmw(p, mo & 7); return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { at_before(p, AW, PC); T o = __atomic_fetch_sub(p, v, 5); sync_rmw(p, mo & 7); return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { at_before(p, AW, PC); T o = __atomic_fetch_and(p, v, 5); sync_rmw(p, mo & 7); return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { at_before(p, AW, PC); T o = __atomic_fetch_or(p, v, 5); sync_rmw(p, mo & 7); return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { at_before(p, AW, PC); T o = __atomic_fetch_xor(p, v, 5); sync_rmw(p, mo & 7); return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { at_before(p, AW, PC); T o = __atomic_fetch_nand(p, v, 5); sync_rmw(p, mo & 7); return o; } \
    static bool cas##bits(volatile T* p, T* e, T v, int mo, int fmo, void* pc) { at_before(p, AW, pc); bool ok = __atomic_compare_exchange_n(p, e, v, 0, 5, 5); if (ok) sync_rmw(p, mo & 7); else sync_load(p, fmo & 7); return ok; } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { return cas##bits(p, e, v, mo, fmo, PC); } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return cas##bits(p, e, v, mo, fmo, PC); } \
    EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { cas##bits(p, &e, v, mo, fmo, PC); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int mo)
{
    if (!live())
        return;
    mo &= 7;
    Runtime r;
    Fiber& f = F[cur];
    if (is_acq(mo))
        f.vc.join(f.acq_pending);
    if (is_rel(mo))
    {
        f.rel_fence = f.vc;
        ++f.vc.c[cur];
    }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- memory routines
extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memmove(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
extern "C" int __real_memcmp(const void*, const void*, size_t);
EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n) { mem(s, n, R, PC); mem(d, n, W, PC); return __real_memcpy(d, s, n); }
EXPORT void* __wrap_memmove(void* d, const void* s, size_t n) { mem(s, n, R, PC); mem(d, n, W, PC); return __real_memmove(d, s, n); }
EXPORT void* __wrap_memset(void* d, int c, size_t n) { mem(d, n, W, PC); return __real_memset(d, c, n); }
EXPORT int __wrap_memcmp(const void* a, const void* b, size_t n) { mem(a, n, R, PC); mem(b, n, R, PC); return __real_memcmp(a, b, n); }

extern "C" void sim_on_alloc(void*, size_t) {}
extern "C" bool sim_on_free(void* p, size_t n)
{
    if (live() && n)
    {
        uintptr_t a = (uintptr_t)p;
        access(a, n, W, PC, true);
    }
    return g_on;
}
// decides whether this tracked allocation fails
extern "C" bool sim_alloc_fault()
{
    if (!live())
        return false;
    Fiber& f = F[cur];
    ++f.allocs;
    if (f.fail_at && f.allocs == f.fail_at)
    {
        f.fired = true;
        return true;
    }
    return false;
}
// exception objects come from malloc, whose reuse of memory is ordered by its own lock
extern "C" void* __real___cxa_allocate_exception(size_t n);
EXPORT void* __wrap___cxa_allocate_exception(size_t n)
{
    char* p = (char*)__real___cxa_allocate_exception(n);
    if (g_on)
        for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n) >> 3; ++g)
            if (Cell* c = cell_of(g))
                c->n = c->freed = 0;
    return p;
}

// ---------------------------------------------------------------- one-time initialisation
EXPORT int __cxa_guard_acquire(uint64_t* g)
{
    volatile char* b = (volatile char*)g;
    if (!live())
    {
        if (b[0])
            return 0;
        ++sim::static_guard_flag();
        return 1;
    }
    tick();
    Runtime r;
    while (b[1] && !b[0])
        block_on(g);
    if (b[0])
    {
        acq(g);
        return 0;
    }
    b[1] = 1;
    ++sim::static_guard_flag();
    sim::count("first_use_initialisations");
    return 1;
}
EXPORT void __cxa_guard_release(uint64_t* g)
{
    volatile char* b = (volatile char*)g;
    --sim::static_guard_flag();
    if (live())
    {
        Runtime r;
        rel(g);
        wake(g);
    }
    b[1] = 0;
    b[0] = 1;
}
EXPORT void __cxa_guard_abort(uint64_t* g)
{
    volatile char* b = (volatile char*)g;
    --sim::static_guard_flag();
    b[1] = 0;
    if (live())
    {
        Runtime r;
        wake(g);
    }
}
extern "C" int __real___cxa_thread_atexit(void (*fn)(void*), void* o, void* d);
EXPORT int __wrap___cxa_thread_atexit(void (*fn)(void*), void* o, void* d)
{
    if (!g_on)
        return __real___cxa_thread_atexit(fn, o, d);
    Runtime r;
    F[cur].tls_dtors.push_back({fn, o});
    return 0;
}

// ---------------------------------------------------------------- locks
namespace {
struct Lock { const void* a; int owner, depth, readers; };
Lock locks[256];
Lock& lk(const void* a)
{
    for (auto& l : locks)
    {
        if (l.a == a)
            return l;
        if (!l.a)
        {
            l.a = a;
            return l;
        }
    }
    sim::fail("harness:locks", "too many locks in one run");
}
}
EXPORT int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!live())
        return 0;
    tick();
    Runtime r;
    Lock& l = lk(m);
    if (l.owner == cur)
    {
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)
        {
            ++l.depth;
            return 0;
        }
        sim::fail("deadlock", "thread %d locks a mutex it already holds", cur);
    }
    while (l.owner || l.readers)
        block_on(m);
    l.owner = cur;
    l.depth = 1;
    acq(m);
    return 0;
}
EXPORT int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!live())
        return 0;
    tick();
    Runtime r;
    Lock& l = lk(m);
    if (l.owner == cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)
    {
        ++l.depth;
        return 0;
    }
    if (l.owner || l.readers)
        return 16; // EBUSY
    l.owner = cur;
    l.depth = 1;
    acq(m);
    return 0;
}
EXPORT int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!live())
        return 0;
    Runtime r;
    Lock& l = lk(m);
    if (--l.depth == 0)
    {
        l.owner = 0;
        rel(m);
        wake(m);
    }
    return 0;
}
EXPORT int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!live())
        return 0;
    tick();
    Runtime r;
    Lock& l = lk(m);
    while (l.owner || l.readers)
        block_on(m);
    l.owner = cur;
    acq(m);
    return 0;
}
EXPORT int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!live())
        return 0;
    tick();
    Runtime r;
    Lock& l = lk(m);
    while (l.owner)
        block_on(m);
    ++l.readers;
    acq(m);
    return 0;
}
EXPORT int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!live())
        return 0;
    Runtime r;
    Lock& l = lk(m);
    if (l.owner == cur)
        l.owner = 0;
    else
        --l.readers;
    rel(m);
    wake(m);
    return 0;
}
// std::call_once
EXPORT int __wrap_pthread_once(pthread_once_t* o, void (*fn)())
{
    // glibc: 2 means done; 1 is used here for "running"
    if (!live())
    {
        if (*o != 2)
        {
            fn();
            *o = 2;
        }
        return 0;
    }
    {
        Runtime r;
        while (*o == 1)
            block_on(o);
        if (*o == 2)
        {
            acq(o);
            return 0;
        }
        *o = 1;
        ++sim::static_guard_flag();
    }
    try
    {
        fn();
    }
    catch (...)
    {
        Runtime r;
        --sim::static_guard_flag();
        *o = 0;
        wake(o);
        throw;
    }
    Runtime r;
    --sim::static_guard_flag();
    *o = 2;
    rel(o);
    wake(o);
    return 0;
}
extern "C" pthread_t __real_pthread_self();
EXPORT pthread_t __wrap_pthread_self() { return g_on ? __real_pthread_self() + cur : __real_pthread_self(); }
EXPORT int __wrap_sched_yield()
{
    if (live())
    {
        Runtime r;
        yield_now();
    }
    return 0;
}
EXPORT int __wrap_nanosleep(const struct timespec*, struct timespec*) { return __wrap_sched_yield(); }
