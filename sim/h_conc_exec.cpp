// M09: copies, comparisons and changes whose work an execution policy or OpenMP spreads over threads.
// PART 0: policy on struct-of-arrays vectors; 1: policy on array-of-structs clones and OpenMP on those
// vectors; 2, 3: OpenMP on struct-of-arrays vectors with each unrolling.
#include "sim_policy.hpp"
#include "conc_mtv.hpp"

// OpenMP regions run on simulated threads as well.
#if PART == 0
namespace simx {
bool g_omp_serial = false;
thread_local int g_omp_me = 0, g_omp_team = 1;
static long g_next, g_end, g_step, g_chunk;
static void team(void (*fn)(void*), void* data, unsigned want)
{
    int n = 1;
    std::vector<std::function<void()>> bodies;
    {
        conc::Quiet q;
        if (!g_omp_serial && !conc::active())
            n = want ? (int)std::min<unsigned>(want, conc::kMaxThreads) : 1 + (int)sim::choose(conc::kMaxThreads);
    }
    if (n == 1)
    {
        int me = g_omp_me, tm = g_omp_team;
        g_omp_me = 0;
        g_omp_team = 1;
        fn(data);
        g_omp_me = me;
        g_omp_team = tm;
        return;
    }
    {
        conc::Quiet q;
        for (int i = 0; i < n; ++i)
            bodies.push_back([=] {
                {
                    conc::Quiet q;
                    g_omp_me = i;
                    g_omp_team = n;
                }
                fn(data);
            });
    }
    sim::count("openmp_regions");
    conc::run(bodies);
    conc::Quiet q;
    bodies = {};
}
} // namespace simx
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { simx::team(fn, data, n); }
int omp_get_num_threads() { return simx::g_omp_team; }
int omp_get_thread_num() { return simx::g_omp_me; }
int omp_get_max_threads() { return conc::kMaxThreads; }
int omp_in_parallel() { return simx::g_omp_team > 1; }
static bool next_chunk(long* a, long* b)
{
    conc::point();
    conc::Quiet q;
    using namespace simx;
    if (g_step > 0 ? g_next >= g_end : g_next <= g_end)
        return false;
    *a = g_next;
    g_next += g_step * g_chunk;
    if (g_step > 0 ? g_next > g_end : g_next < g_end)
        g_next = g_end;
    *b = g_next;
    return true;
}
static void loop(void (*fn)(void*), void* data, unsigned n, long s, long e, long st, long ch)
{
    simx::g_next = s, simx::g_end = e, simx::g_step = st, simx::g_chunk = ch > 0 ? ch : 1;
    simx::team(fn, data, n);
}
#define LOOP(KIND)                                                                                                                    \
    void GOMP_parallel_loop_##KIND(void (*fn)(void*), void* d, unsigned n, long s, long e, long st, long ch, unsigned) { loop(fn, d, n, s, e, st, ch); } \
    bool GOMP_loop_##KIND##_next(long* a, long* b) { return next_chunk(a, b); }
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
void GOMP_loop_end_nowait() {}
}
#endif
namespace simx {
extern bool g_omp_serial;
struct Serial {
    bool was = g_omp_serial;
    Serial() { g_omp_serial = true; }
    ~Serial() { g_omp_serial = was; }
};
}

namespace hconc {
namespace {
struct Par {                        // cloned by the policy, in any order
    int v;
    Par(int x) : v(x) {}
    friend bool operator==(const Par& a, const Par& b) { return a.v == b.v; }
};
struct Seq {                        // cloned in order, by one cloner that counts
    int v, rank = 0;
    Seq(int x) : v(x) {}
    friend bool operator==(const Seq& a, const Seq& b) { return a.v == b.v; }
};
constexpr int kPar = mtv::element_type_user_start + 10, kSeq = kPar + 1;
using ParBlk = mtv::noncopyable_managed_element_block<kPar, Par>;
using SeqBlk = mtv::noncopyable_managed_element_block<kSeq, Seq>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(Par, kPar, nullptr, ParBlk)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(Seq, kSeq, nullptr, SeqBlk)
} // namespace
} // namespace hconc
template<> struct mdds::mtv::clone_value<hconc::Par*> {
    using exec_policy = simx::policy;
    hconc::Par* operator()(const hconc::Par* p) const { return p ? new hconc::Par(*p) : nullptr; }
};
template<> struct mdds::mtv::clone_value<hconc::Seq*> {
    int n = 0;
    hconc::Seq* operator()(const hconc::Seq* p)
    {
        ++n;
        if (!p)
            return nullptr;
        auto* r = new hconc::Seq(*p);
        r->rank = n;
        return r;
    }
};

namespace hconc {
namespace {
struct Ledger {
    int64_t acquired = 0, released = 0;
    uint64_t order = 0;
    void element_block_acquired(const mtv::base_element_block* b)
    {
        ++acquired;
        order = mix(order, b ? mtv::get_block_type(*b) * 2 : 1);
    }
    void element_block_released(const mtv::base_element_block* b)
    {
        ++released;
        order = mix(order, b ? mtv::get_block_type(*b) * 2 + 1 : 0);
    }
};
enum { kP = kKinds, kS };
template<typename T> int64_t value_of(const T& v, size_t i, bool ranks)
{
    if (v.get_type(i) == kPar)
    {
        const Par* p = v.template get<Par*>(i);
        return p ? p->v * 8 + 6 : -6;
    }
    if (v.get_type(i) == kSeq)
    {
        const Seq* p = v.template get<Seq*>(i);
        return p ? (p->v + (ranks ? p->rank * 100 : 0)) * 8 + 7 : -7;
    }
    return value_at(v, i);
}
// structure, values, lookups by position, event count
template<typename T> void dump_all(const T& v, Sink& o, bool ranks = true)
{
    o.add(v.size());
    o.add(v.block_size());
    size_t at = 0;
    for (auto it = v.begin(); it != v.end(); ++it)
    {
        o.add(it->position);
        o.add(it->size);
        o.add(it->type);
        at += it->size;
    }
    o.add(at);
    for (size_t i = 0; i < v.size(); ++i)
        o.add(value_of(v, i, ranks));
    for (size_t i = 0; i < v.size(); i += 3)
    {
        auto p = v.position(i);
        o.add(p.first->position * 1000 + p.second);
    }
    o.add(v.event_handler().acquired);
    o.add(v.event_handler().released);
    o.add((int64_t)v.event_handler().order);
}
template<typename F> void with_all(int kind, int v, int n, F f)
{
    auto objects = [&]<typename O>(O*) {
        std::vector<std::unique_ptr<O>> own;
        std::vector<O*> x;
        for (int i = 0; i < n; ++i)
        {
            own.push_back(std::make_unique<O>(v + i));
            x.push_back(own.back().get());
        }
        f(x);
        for (auto& p : own)
            p.release();
    };
    if (kind == kP)
        objects((Par*)nullptr);
    else if (kind == kS)
        objects((Seq*)nullptr);
    else
        with_values(kind, v, n, f);
}
struct Act {
    int kind;
    Step s;
};
template<typename T> void change(T& v, const Step& s)
{
    size_t sz = v.size(), p = sz ? s[1] % sz : 0, q = sz ? s[2] % sz : 0;
    size_t lo = std::min(p, q), hi = std::max(p, q);
    switch (s[0])
    {
        case 0: if (sz) with_all(s[3], s[4], 1, [&](auto& x) { v.set(p, x[0]); }); break;
        case 1:
        {
            int n = (int)std::min<size_t>(s[5], sz - p);
            if (n > 0) with_all(s[3], s[4], n, [&](auto& x) { v.set(p, x.begin(), x.end()); });
            break;
        }
        case 2:
            if (sz) with_all(s[3], s[4], s[5], [&](auto& x) { v.insert(p, x.begin(), x.end()); });
            else with_all(s[3], s[4], 1, [&](auto& x) { v.push_back(x[0]); });
            break;
        case 3: with_all(s[3], s[4], 1, [&](auto& x) { v.push_back(x[0]); }); break;
        case 4: if (sz) v.insert_empty(p, s[5]); else v.push_back_empty(); break;
        case 5: if (sz) v.set_empty(lo, std::min(hi, lo + 4)); break;
        case 6: if (sz) v.erase(lo, std::min(hi, lo + 5)); break;
        case 7: v.resize(s[1]); break;
    }
}
template<typename T> void fill(T& v, const std::vector<Step>& blocks)
{
    for (auto& b : blocks)
        for (int i = 0; i < b[5]; ++i)
        {
            if (b[3] == kEmpty)
                v.push_back_empty();
            else
                with_all(b[3], b[4] + i, 1, [&](auto& x) { v.push_back(x[0]); });
        }
}
std::vector<Step> layout(int most, const std::vector<int>& kinds)
{
    std::vector<Step> r;
    int n = choose(4) ? 2 + (int)choose(most) : (int)choose_small(4);
    for (int i = 0; i < n; ++i)
    {
        int k = (int)choose(kinds.size() + 1);
        r.push_back({0, 0, 0, k == (int)kinds.size() ? kEmpty : kinds[k], (int)choose(6), 1 + (int)choose_small(4)});
    }
    return r;
}
Step random_step(const std::vector<int>& kinds) { return {(int)weighted({4, 3, 4, 1, 2, 2, 3, 1}), (int)choose(64), (int)choose(64), kinds[choose(kinds.size())], (int)choose(6), 1 + (int)choose_small(5)}; }

// The same acts on a vector with the policy and on one without.
enum { aChange, aClone, aCopy, aAssign, aEqual, aShrink, aMove, aOther, aKinds };
const char* kActs[] = {"change", "clone", "copy", "assign", "compare", "shrink", "move", "change the other", ""};
template<typename T> void act(T& v, T& side, const Act& a, bool copyable, bool ranks, Sink& o)
{
    switch (a.kind)
    {
        case aChange: change(v, a.s); break;
        case aOther: change(side, a.s); break;
        case aMove: { T t(std::move(v)); v = std::move(side); side = std::move(t); break; }
        case aShrink: v.shrink_to_fit(); break;
        case aEqual: o.add(v == side); o.add(v != side); o.add(v == v); break;
        case aCopy: if (copyable) { T t(v); o.add(t == v); side.swap(t); break; } [[fallthrough]];
        case aClone: { T t = v.clone(); o.add(t == v); change(t, a.s); o.add(v == t); side = std::move(t); break; }
        case aAssign: if (copyable) side = v; else { T t = v.clone(); side.swap(t); } break;
    }
    dump_all(v, o, ranks);
    dump_all(side, o, ranks);
}
template<typename T, typename R> void twins(const std::vector<int>& kinds, bool copyable, bool ranks)
{
    auto blocks = layout(14, kinds);
    std::vector<Act> acts;
    for (int i = 0, k = 1 + (int)choose_small(6); i < k; ++i)
    {
        step();
        acts.push_back({(int)weighted({4, 4, 3, 2, 4, 2, 1, 1}), random_step(kinds)});
        note("%s (%d at %d,%d kind %d value %d x%d)", kActs[acts.back().kind], acts.back().s[0], acts.back().s[1], acts.back().s[2], acts.back().s[3], acts.back().s[4], acts.back().s[5]);
    }
    Sut s;
    T v, vs;
    R r, rs;
    {
        simx::Serial one;
        fill(r, blocks);
    }
    fill(v, blocks);
    bool over = false;
    for (size_t i = 0; i < acts.size(); ++i)
    {
        Sink a, b;
        act(v, vs, acts[i], copyable, ranks, a);
        over |= conc::overlap();
        {
            simx::Serial one;
            act(r, rs, acts[i], copyable, ranks, b);
        }
        SIM_CHECK(a.v == b.v, "differs", "after act %zu (%s): with workers [%s], without [%s]", i + 1, kActs[acts[i].kind], show(a).c_str(), show(b).c_str());
        count("operations");
        state(mix(mix(v.block_size(), acts[i].kind), conc::clock() / 16));
    }
    if (over)
        nontrivial();
}
using Funcs = mtv::element_block_funcs<mtv::int32_element_block, mtv::string_element_block, mtv::boolean_element_block, mtv::double_element_block, ObjBlk, ParBlk, SeqBlk>;
struct TrOne : mtv::default_traits {
    using block_funcs = Funcs;
    using event_func = Ledger;
    static constexpr mtv::lu_factor_t loop_unrolling = mtv::lu_factor_t::none;
};
struct TrPol : TrOne {
    static constexpr mtv::lu_factor_t loop_unrolling = mtv::lu_factor_t::lu4;
    using exec_policy = simx::policy;
};
const std::vector<int> kCopyable{kInt, kStr, kBool, kDbl, kMan}, kAny{kInt, kStr, kMan, kP, kS, kP};

// Positions adjusted by an OpenMP loop over many blocks.
template<mtv::lu_factor_t LU> struct TrLu : mtv::default_traits {
    using block_funcs = mtv::element_block_funcs<mtv::int32_element_block, mtv::boolean_element_block>;
    using event_func = Ledger;
    static constexpr mtv::lu_factor_t loop_unrolling = LU;
};
template<typename T> void light(T& v, const Step& s)
{
    size_t sz = v.size(), p = sz ? s[1] % sz : 0, q = sz ? s[2] % sz : 0;
    size_t lo = std::min(p, q), hi = std::max(p, q);
    std::vector<int32_t> ints(s[5], s[4]);
    switch (s[0])
    {
        case 0: if (sz) v.set(p, s[4]); break;
        case 1: if (sz) v.set(p, bool(s[4] & 1)); break;
        case 2: if (sz) v.insert(p, ints.begin(), ints.end()); break;
        case 3: if (sz) { std::deque<bool> b(s[5], true); v.insert(p, b.begin(), b.end()); } break;
        case 4: if (sz) v.insert_empty(p, s[5]); break;
        case 5: if (sz) v.set_empty(lo, std::min(hi, lo + 4)); break;
        default: if (sz) v.erase(lo, std::min(hi, lo + 5)); break;
    }
}
template<typename T> void light_fill(T& v, const std::vector<Step>& blocks)
{
    for (auto& b : blocks)
        for (int i = 0; i < b[5]; ++i)
            switch (b[3])
            {
                case kInt: v.push_back(b[4]); break;
                case kBool: v.push_back(bool(b[4] & 1)); break;
                default: v.push_back_empty();
            }
}
template<template<typename> class V, mtv::lu_factor_t LU> void positions()
{
    static const std::vector<int> kinds{kInt, kBool};
    std::vector<Step> blocks = layout(choose(3) ? 40 : 120, kinds);
    std::vector<Step> steps;
    for (int i = 0, k = 1 + (int)choose_small(6); i < k; ++i)
    {
        step();
        steps.push_back({(int)choose(8), (int)choose(200), (int)choose(200), 0, (int)choose(6), 1 + (int)choose_small(5)});
        // mostly near the front, so that many positions move
        if (choose(2))
            for (int j = 1; j < 3; ++j)
                steps.back()[j] %= 12;
        note("operation %d at %d,%d value %d x%d", steps.back()[0], steps.back()[1], steps.back()[2], steps.back()[4], steps.back()[5]);
    }
    Sut s;
    V<TrLu<LU>> v;
    V<TrLu<mtv::lu_factor_t::none>> r;
    {
        simx::Serial one;
        light_fill(r, blocks);
        light_fill(v, blocks);
    }
    bool over = false;
    for (size_t i = 0; i < steps.size(); ++i)
    {
        Sink a, b;
        light(v, steps[i]);
        over |= conc::overlap();
        {
            simx::Serial one;
            light(r, steps[i]);
        }
        dump_all(v, a);
        dump_all(r, b);
        SIM_CHECK(a.v == b.v, "positions", "after operation %zu: with workers [%s], without [%s]", i + 1, show(a).c_str(), show(b).c_str());
        count("operations");
        state(mix(v.block_size(), conc::clock()));
    }
    if (over)
        nontrivial();
}
using mtv::lu_factor_t;
template<typename T> using Soa = mtv::soa::multi_type_vector<T>;
template<typename T> using Aos = mtv::aos::multi_type_vector<T>;
} // namespace

#if PART == 0
void exec_aos();
void exec_omp1();
void exec_omp2();
void exec_soa()
{
    if (choose(2))
        twins<Soa<TrPol>, Soa<TrOne>>(kCopyable, true, true);
    else
        twins<Soa<TrPol>, Soa<TrOne>>(kAny, false, true);
}
void exec_threads()
{
    switch (weighted({4, 1, 2, 2}))
    {
        case 0: exec_soa(); break;
        case 1: exec_aos(); break;
        case 2: exec_omp1(); break;
        default: exec_omp2();
    }
}
#elif PART == 1
struct TrA : TrOne {
    static constexpr mtv::lu_factor_t loop_unrolling = mtv::lu_factor_t::lu8;
};
void exec_aos()
{
    if (choose(3) == 0)
    {
        twins<Aos<TrA>, Soa<TrOne>>(kAny, false, true);
        return;
    }
    switch (choose(5))
    {
        case 0: positions<Aos, lu_factor_t::none>(); break;
        case 1: positions<Aos, lu_factor_t::lu4>(); break;
        case 2: positions<Aos, lu_factor_t::lu8>(); break;
        case 3: positions<Aos, lu_factor_t::lu16>(); break;
        default: positions<Aos, lu_factor_t::lu32>();
    }
}
#elif PART == 2
void exec_omp1()
{
    switch (choose(5))
    {
        case 0: positions<Soa, lu_factor_t::none>(); break;
        case 1: positions<Soa, lu_factor_t::lu4>(); break;
        case 2: positions<Soa, lu_factor_t::lu8>(); break;
        case 3: positions<Soa, lu_factor_t::lu16>(); break;
        default: positions<Soa, lu_factor_t::lu32>();
    }
}
#else
void exec_omp2()
{
    switch (choose(4))
    {
        case 0: positions<Soa, lu_factor_t::sse2_x64>(); break;
        case 1: positions<Soa, lu_factor_t::sse2_x64_lu4>(); break;
        case 2: positions<Soa, lu_factor_t::sse2_x64_lu8>(); break;
        default: positions<Soa, lu_factor_t::sse2_x64_lu16>();
    }
}
#endif
} // namespace hconc
