// Several iterators over one sequence step forward and backward, are copied, assigned, swapped and
// compared in a random order; each must show the element of the place it is at.
#pragma once
#include "sim.hpp"
#include <concepts>
#include <type_traits>
#include <utility>
#include <vector>

namespace sim {

// at(it, i) checks that it shows element i; not called for the end position.
template<typename It, typename F>
void wander(const char* sig, const It& begin, const It& end, size_t n, F at, bool backward = true)
{
    struct Place { It it; size_t i; };
    std::vector<Place> ps;
    ps.push_back({begin, 0});
    ps.push_back({end, n});
    ps.push_back({begin, 0});
    uint32_t steps = 4 + choose(12);
    for (uint32_t s = 0; s < steps; ++s)
    {
        uint32_t a = choose(3), b = (a + 1 + choose(2)) % 3;
        Place &p = ps[a], &q = ps[b];
        switch (choose(9))
        {
            case 0: case 1:
                if (p.i == n) break;
                if constexpr (!std::is_pointer_v<decltype(++p.it)>)
                {
                    auto& r = ++p.it;
                    SIM_CHECK((const void*)&r == (const void*)&p.it, sig, "++it does not return the iterator");
                }
                else
                {
                    auto* r = ++p.it; // a pointer to the element, if any
                    if (p.i + 1 < n) SIM_CHECK(r && r == &*p.it, sig, "++it returns another element");
                }
                ++p.i;
                break;
            case 2:
                if (p.i == n) break;
                if constexpr (requires { p.it++; })
                {
                    auto old = p.it++;
                    at(old, p.i);
                    SIM_CHECK(old == q.it ? p.i == q.i : p.i != q.i, sig, "the result of it++ compares wrongly");
                    ++p.i;
                }
                break;
            case 3: case 4:
                if (!p.i || !backward) break;
                if constexpr (requires { --p.it; })
                {
                    if constexpr (!std::is_pointer_v<decltype(--p.it)>)
                    {
                        auto& r = --p.it;
                        SIM_CHECK((const void*)&r == (const void*)&p.it, sig, "--it does not return the iterator");
                    }
                    else
                    {
                        auto* r = --p.it;
                        SIM_CHECK(r && r == &*p.it, sig, "--it returns another element");
                    }
                    --p.i;
                }
                break;
            case 5:
                if (!p.i || !backward) break;
                if constexpr (requires { p.it--; })
                {
                    auto old = p.it--;
                    if (p.i < n) at(old, p.i);
                    SIM_CHECK(old == q.it ? p.i == q.i : p.i != q.i, sig, "the result of it-- compares wrongly");
                    --p.i;
                }
                break;
            case 6:
                if constexpr (requires { p.it = q.it; })
                {
                    p.it = q.it;
                    p.i = q.i;
                }
                break;
            case 7:
            {
                It c(q.it);
                if (q.i < n) at(c, q.i);
                SIM_CHECK(c == q.it, sig, "a copied iterator differs from the original");
                if constexpr (requires { p.it = std::move(c); })
                {
                    p.it = std::move(c);
                    p.i = q.i;
                }
                break;
            }
            case 8:
                if constexpr (requires { It(std::move(p.it)); p.it = std::move(q.it); })
                {
                    std::swap(p.it, q.it);
                    std::swap(p.i, q.i);
                    if (q.i < n) at(q.it, q.i);
                }
                break;
        }
        if (p.i < n) at(p.it, p.i);
        for (auto& o : ps)
        {
            SIM_CHECK((p.it == o.it) == (p.i == o.i), sig, "iterators at places %zu and %zu of %zu compare %s", p.i, o.i, n, p.i == o.i ? "unequal" : "equal");
            if constexpr (requires { p.it != o.it; })
                SIM_CHECK((p.it != o.it) == (p.i != o.i), sig, "iterators at places %zu and %zu of %zu compare wrongly with !=", p.i, o.i, n);
        }
    }
    count("iterator_walks");
}
} // namespace sim
