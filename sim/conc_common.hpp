// What the concurrency harnesses share: operations recorded per thread and compared with the answers
// one thread alone gets from an identically built container.
#pragma once
#include "conc.hpp"
#include <algorithm>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace hconc {
using namespace sim;

struct Sink {
    std::vector<int64_t> v;
    void add(int64_t x)
    {
        conc::Quiet q;
        v.push_back(x);
    }
    void text(const std::string& s)
    {
        conc::Quiet q;
        uint64_t h = s.size();
        for (unsigned char c : s)
            h = mix(h, c);
        v.push_back((int64_t)h);
    }
    void sort_from(size_t at)
    {
        conc::Quiet q;
        std::sort(v.begin() + at, v.end());
    }
};
template<typename C> using Read = std::function<void(const C&, Sink&)>;
using Write = std::function<void(Sink&)>;

// A read-only operation on the shared container, or work on a container of the thread's own.
template<typename C> struct Job {
    const char* name;
    Read<C> read;
    Write own;
    void run(const C& c, Sink& out) const
    {
        if (read)
            read(c, out);
        else
            own(out);
    }
};

inline std::string show(const Sink& s)
{
    std::string r;
    for (size_t i = 0; i < s.v.size() && i < 12; ++i)
        r += (i ? " " : "") + std::to_string(s.v[i]);
    if (s.v.size() > 12)
        r += " ...";
    return r;
}

// Two or three threads run jobs at once on `shared`; `same` was built by the same history and is
// read by one thread afterwards.
template<typename C>
void play(const C& shared, const C& same, const std::function<Job<C>()>& reader, const std::function<Job<C>()>& writer)
{
    int n = 2 + (choose(4) == 0);
    int mode = (int)choose(4); // 0,1: readers; 2: readers and a writer; 3: writers on containers of their own
    std::vector<std::vector<Job<C>>> jobs(n);
    std::vector<std::vector<Sink>> got(n);
    for (int t = 0; t < n; ++t)
    {
        bool wr = mode == 3 || (mode == 2 && t == 0);
        int k = 1 + (int)choose_small(wr ? 2 : 4);
        for (int i = 0; i < k; ++i)
        {
            step();
            jobs[t].push_back(wr ? writer() : reader());
            note("thread %d: %s", t + 1, jobs[t].back().name);
        }
        got[t].resize(k);
    }
    std::vector<std::function<void()>> bodies;
    std::vector<int> at(n, -1);
    for (int t = 0; t < n; ++t)
        bodies.push_back([&, t] {
            for (size_t i = 0; i < jobs[t].size(); ++i)
            {
                {
                    conc::Quiet q;
                    at[t] = (int)i;
                    uint64_t h = 3;
                    for (int k = 0; k < n; ++k)
                        h = mix(h, at[k] < 0 ? 0 : (uint64_t)(uintptr_t)jobs[k][at[k]].name);
                    state(mix(h, conc::clock() / 64));
                }
                jobs[t][i].run(shared, got[t][i]);
            }
        });
    {
        Sut s;
        conc::run(bodies);
    }
    if (conc::overlap())
        nontrivial();
    Sut s;
    for (int t = 0; t < n; ++t)
        for (size_t i = 0; i < jobs[t].size(); ++i)
        {
            Sink alone, again;
            jobs[t][i].run(same, alone);
            SIM_CHECK(alone.v == got[t][i].v, "answer", "thread %d, %s: got [%s], one thread alone gets [%s]", t + 1, jobs[t][i].name, show(got[t][i]).c_str(),
                      show(alone).c_str());
            if (jobs[t][i].read)
            {
                jobs[t][i].run(shared, again);
                SIM_CHECK(again.v == alone.v, "answer-after", "%s after the concurrent phase: [%s], expected [%s]", jobs[t][i].name, show(again).c_str(), show(alone).c_str());
            }
            count("operations");
        }
}
} // namespace hconc
