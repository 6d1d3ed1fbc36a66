// Deterministic simulator core: one tape of decisions drives one execution.
//
// Every nondeterministic choice of a simulated run (which client acts, which operation, its
// arguments, which allocation / user callback / stream operation fails and when, which thread
// runs next) is a call to choose().  In search mode the value comes from one PRNG seeded with the
// run's seed; in replay mode it comes from the recorded tape.  The recorded values are the whole
// run, so the tape is the replay file and is what the minimiser edits.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- decisions
uint32_t choose(uint32_t n);                    // uniform in [0,n); n>=1
uint32_t choose_small(uint32_t n);              // in [0,n), biased towards small values
bool chance(uint32_t num, uint32_t den);        // true with probability num/den
int64_t range(int64_t lo, int64_t hi);          // inclusive
void step();                                    // marks a step boundary (minimiser deletes whole steps)
bool more(uint32_t expected_steps);             // "continue the history?"; false with prob 1/expected
template<typename T> const T& pick(const std::vector<T>& v) { return v[choose((uint32_t)v.size())]; }
uint32_t weighted(std::initializer_list<uint32_t> weights);

// ---------------------------------------------------------------- observation
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // hashed; printed on replay
void trace_raw(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // printed on replay only, not hashed
[[noreturn]] void fail(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void count(const char* name, uint64_t n = 1);   // evidence counter
void state(uint64_t h);                         // a state reached (distinct-state estimate)
void nontrivial();                              // marks this run as non-trivial
bool tracing();
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- memory seam
struct FaultPlan {
    uint64_t alloc_at = 0;     // fail the n-th allocation made by the code under test (0: none)
    bool alloc_sticky = false; // ... and every one after it
    uint64_t user_at = 0;      // throw from the n-th user callback (0: none)
};
struct Injected { const char* what; };          // exception thrown from user callbacks

// Scope in which the code under test runs: allocations are tracked, armed faults may fire.
struct Sut {
    Sut();
    explicit Sut(const FaultPlan& p);
    ~Sut();
    Sut(const Sut&) = delete;
    bool fired() const;                          // did an armed fault fire (so far)?
};
// Leaves the Sut scope temporarily (harness bookkeeping in callbacks).
struct Pause { Pause(); ~Pause(); int saved; };

void user_point(const char* what);              // a user callback the plan may make throw
bool fault_fired();                             // fired in the current / last Sut
uint64_t last_allocs();                         // allocations made in the last Sut scope
uint64_t live_allocs();                         // tracked allocations not yet freed
uint64_t live_bytes();
uint64_t peak_request();                        // most bytes held (or asked for) at once in the last Sut scope
void set_alloc_cap(size_t bytes);               // single allocation limit inside Sut (0 = default)

// Choose a fault plan: p in 1/den that anything is armed.
FaultPlan choose_faults(uint32_t num, uint32_t den, bool alloc, bool user, uint32_t horizon = 40);

// A value type that detects misuse of object lifetimes and whose operations can throw.
struct TokStats { int64_t live = 0; };
extern TokStats tok;
extern bool cmp_faults;                          // may comparisons of values throw?

// ---------------------------------------------------------------- properties
struct Prop {
    const char* id;
    void (*run)();                               // one simulated run
    uint32_t quick_runs, thorough_runs;
    const char* rule;                            // what makes a run non-trivial
};
const std::vector<Prop>& properties();          // supplied by the harness

// called by runtime between runs (concurrency runtime hooks)
void reset_run_hooks(void (*fn)());

} // namespace sim

#define SIM_CHECK(cond, sig, ...) do { if (!(cond)) ::sim::fail(sig, __VA_ARGS__); } while (0)
