// An execution policy whose workers are simulated threads.  Include before any header of the code
// under test: its qualified calls std::transform(policy, ...) find these overloads.
#pragma once
#include <algorithm>
#include <iterator>
#include <vector>
#include "conc.hpp"

namespace simx {
struct policy {};
// Runs f(i) for every i < n, in the order and by the workers the seed chooses; a worker stops when
// f returns false.
template<typename F> void spread(size_t n, F f)
{
    std::vector<std::vector<size_t>> chunk;
    {
        conc::Quiet q;
        size_t w = n < 2 ? 1 : 1 + sim::choose(std::min<size_t>(n, 3));
        chunk.resize(w);
        int how = (int)sim::choose(3);   // slices, dealt, random
        for (size_t i = 0; i < n; ++i)
            chunk[how == 0 ? i * w / n : how == 1 ? i % w : sim::choose(w)].push_back(i);
        if (sim::choose(2))
            for (auto& c : chunk)
                for (size_t i = c.size(); i > 1; --i)
                    std::swap(c[i - 1], c[sim::choose(i)]);
    }
    std::vector<std::function<void()>> bodies;
    {
        conc::Quiet q;
        for (auto& c : chunk)
            bodies.push_back([&c, f]() mutable {
                for (size_t i : c)
                    if (!f(i))
                        break;
            });
    }
    conc::run(bodies);
    sim::count("policy_regions");
    conc::Quiet q;
    bodies = {};
    chunk = {};
}
} // namespace simx

namespace std {
template<typename It, typename Out, typename F> Out transform(simx::policy, It b, It e, Out o, F f)
{
    size_t n = std::distance(b, e);
    simx::spread(n, [b, o, f](size_t i) mutable {
        *std::next(o, i) = f(*std::next(b, i));
        return true;
    });
    return std::next(o, n);
}
template<typename It, typename It2, typename Out, typename F> Out transform(simx::policy, It b, It e, It2 b2, Out o, F f)
{
    size_t n = std::distance(b, e);
    simx::spread(n, [b, b2, o, f](size_t i) mutable {
        *std::next(o, i) = f(*std::next(b, i), *std::next(b2, i));
        return true;
    });
    return std::next(o, n);
}
template<typename It, typename F> void for_each(simx::policy, It b, It e, F f)
{
    simx::spread(std::distance(b, e), [b, f](size_t i) mutable {
        f(*std::next(b, i));
        return true;
    });
}
template<typename It, typename N, typename F> It for_each_n(simx::policy, It b, N n, F f)
{
    std::for_each(simx::policy{}, b, std::next(b, n), f);
    return std::next(b, n);
}
template<typename It, typename It2, typename P> bool equal(simx::policy, It b, It e, It2 b2, P p)
{
    std::vector<char> bad;
    {
        conc::Quiet q;
        bad.assign(std::distance(b, e) + 1, 0);
    }
    char* out = bad.data();
    bool early;
    {
        conc::Quiet q;
        early = sim::choose(2);
    }
    simx::spread(std::distance(b, e), [b, b2, p, out, early](size_t i) mutable {
        bool same = p(*std::next(b, i), *std::next(b2, i));
        conc::Quiet q;
        out[i] = !same;
        return same || !early;
    });
    conc::Quiet q;
    bool r = std::find(bad.begin(), bad.end(), 1) == bad.end();
    bad = {};
    return r;
}
template<typename It, typename It2, typename P> bool equal(simx::policy x, It b, It e, It2 b2, It2 e2, P p)
{
    return std::distance(b, e) == std::distance(b2, e2) && std::equal(x, b, e, b2, p);
}
template<typename It, typename P> bool all_of(simx::policy x, It b, It e, P p)
{
    return std::equal(x, b, e, b, [p](const auto& a, const auto&) mutable { return p(a); });
}
template<typename It, typename P> bool any_of(simx::policy x, It b, It e, P p)
{
    return !std::all_of(x, b, e, [p](const auto& a) mutable { return !p(a); });
}
template<typename It, typename P> bool none_of(simx::policy x, It b, It e, P p) { return !std::any_of(x, b, e, p); }
} // namespace std
