// delayed_delete_vector (the store behind managed and other element blocks) under simulated
// histories, compared with the plain sequence.
#include "sim.hpp"
#include "tok.hpp"
#include <mdds/multi_type_vector.hpp>
#include <memory>
#include <stdexcept>

using namespace sim;
namespace hddv {

template<typename V> struct Val { static V mk(int i) { return V(i); } static int id(const V& v) { return (int)v; } };
template<> struct Val<std::string> {
    static std::string mk(int i) { return i ? "v" + std::to_string(i) + "-padding-beyond-the-small-buffer" : std::string(); }
    static int id(const std::string& s) { return s.empty() ? 0 : atoi(s.c_str() + 1); }
};
template<bool A, bool B> struct Val<BasicTok<A, B>> {
    static BasicTok<A, B> mk(int i) { return BasicTok<A, B>(i); }
    static int id(const BasicTok<A, B>& v) { v.alive("read"); return v.v; }
};
std::string show(const std::vector<int>& v)
{
    std::string r;
    for (size_t i = 0; i < v.size() && i < 20; ++i)
        r += (i ? " " : "") + std::to_string(v[i]);
    return r;
}

template<typename V> struct World {
    using T = mdds::mtv::delayed_delete_vector<V>;
    using M = std::vector<int>;
    struct Slot { std::unique_ptr<T> t; M m; };
    std::vector<Slot> s;
    bool faults;

    static M read(const T& t)
    {
        M r;
        for (const V& x : t)
            r.push_back(Val<V>::id(x));
        return r;
    }
    void expect(const Slot& x)
    {
        const T& t = *x.t;
        SIM_CHECK(t.size() == x.m.size(), "ddv:size", "size()=%zu, expected %zu", (size_t)t.size(), x.m.size());
        SIM_CHECK((size_t)(t.end() - t.begin()) == x.m.size(), "ddv:range", "begin()..end() spans %zd elements, expected %zu", (ssize_t)(t.end() - t.begin()), x.m.size());
        M got = read(t);
        SIM_CHECK(got == x.m, "ddv:content", "[%s], expected [%s]", show(got).c_str(), show(x.m).c_str());
        M back;
        for (auto it = t.rbegin(); it != t.rend(); ++it)
            back.insert(back.begin(), Val<V>::id(*it));
        SIM_CHECK(back == x.m, "ddv:reverse", "backwards: [%s], expected [%s]", show(back).c_str(), show(x.m).c_str());
        back.clear();
        for (auto it = x.t->rbegin(); it != x.t->rend(); ++it)
            back.insert(back.begin(), Val<V>::id(*it));
        SIM_CHECK(back == x.m, "ddv:reverse", "backwards: [%s], expected [%s]", show(back).c_str(), show(x.m).c_str());
        for (size_t i = 0; i < x.m.size(); ++i)
        {
            SIM_CHECK(Val<V>::id(t[i]) == x.m[i] && Val<V>::id((*x.t)[i]) == x.m[i] && Val<V>::id(t.at(i)) == x.m[i] && Val<V>::id(x.t->at(i)) == x.m[i], "ddv:index",
                      "element %zu differs when read by position, expected %d", i, x.m[i]);
            SIM_CHECK(Val<V>::id(t.data()[i]) == x.m[i] && &t.data()[i] == &t[i] && &x.t->data()[i] == &t[i], "ddv:data", "data()[%zu] is not element %zu", i, i);
        }
        SIM_CHECK(t.capacity() >= t.size(), "ddv:capacity", "capacity()=%zu below size()=%zu", (size_t)t.capacity(), (size_t)t.size());
    }
    void rejects(const T& t, size_t pos)
    {
        bool threw = false;
        try { (void)t.at(pos); } catch (const std::out_of_range&) { threw = true; }
        SIM_CHECK(threw, "ddv:at", "at(%zu) of %zu elements is not rejected", pos, (size_t)t.size());
        threw = false;
        try { (void)const_cast<T&>(t).at(pos); } catch (const std::out_of_range&) { threw = true; }
        SIM_CHECK(threw, "ddv:at", "at(%zu) of %zu elements is not rejected", pos, (size_t)t.size());
    }
    // f changes the real vector, `want` is the result; a failure leaves something usable (strong: the old content)
    template<typename F> void change(Slot& x, const M& want, bool strong, F f)
    {
        M old = x.m;
        FaultPlan p = faults ? choose_faults(1, 3, true, true, 12) : FaultPlan();
        bool failed = false;
        {
            Sut g(p);
            try { f(*x.t); }
            catch (const std::bad_alloc&) { if (!g.fired()) throw; failed = true; }
            catch (const Injected&) { failed = true; }
        }
        if (!failed)
        {
            x.m = want;
            return;
        }
        nontrivial();
        count("fault.failed_operations");
        note("  failed");
        SIM_CHECK((size_t)(x.t->end() - x.t->begin()) == x.t->size() && x.t->size() <= old.size() + want.size(), "ddv:failed", "after a failed operation size()=%zu, begin()..end() %zd",
                  (size_t)x.t->size(), (ssize_t)(x.t->end() - x.t->begin()));
        x.m = read(*x.t);
        if (strong)
            SIM_CHECK(x.m == old, "ddv:strong", "a failed append changed [%s] to [%s]", show(old).c_str(), show(x.m).c_str());
    }
    void run()
    {
        faults = choose(3) == 0;
        for (int i = 0, n = 1 + choose(3); i < n; ++i)
        {
            Sut g;
            s.emplace_back();
            s.back().t = std::make_unique<T>();
        }
        bool hot = false;
        while (more(faults ? 14 : 24))
        {
            step();
            size_t xi = choose(s.size()), yi = choose(s.size());
            Slot &x = s[xi], &y = s[yi];
            size_t n = x.m.size(), p = choose(n + 1), q = choose(n + 1), cnt = choose_small(5);
            if (p > q)
                std::swap(p, q);
            int v = choose(7);
            M want = x.m, vals;
            for (size_t i = 0; i < cnt; ++i)
                vals.push_back(v + i);
            std::vector<V> src;
            int op = weighted({6, 3, 5, 4, 9, 3, 2, 2, 2, 3, 3, 3, 3, 2, 2, 1});
            note("v%zu: op %d at %zu..%zu of %zu, value %d x%zu (v%zu)", xi, op, p, q, n, v, cnt, yi);
            {
                Sut g;
                for (int w : vals)
                    src.push_back(Val<V>::mk(w));
            }
            switch (op)
            {
                case 0: // append
                {
                    want.push_back(v);
                    int how = choose(3);
                    // moves of SlowTok may throw while the array is regrown
                    bool strong = std::is_nothrow_move_constructible_v<V>;
                    if (how == 0) change(x, want, strong, [&](T& t) { const V w = Val<V>::mk(v); t.push_back(w); });
                    else if (how == 1) change(x, want, strong, [&](T& t) { t.push_back(Val<V>::mk(v)); });
                    else change(x, want, strong, [&](T& t) { t.emplace_back(Val<V>::mk(v)); });
                    break;
                }
                case 1: // append one of its own
                    if (n)
                    {
                        want.push_back(want[p % n]);
                        change(x, want, false, [&](T& t) { t.push_back(t[p % n]); });
                    }
                    break;
                case 2:
                    want.insert(want.begin() + p, v);
                    if (choose(2)) change(x, want, false, [&](T& t) { const V w = Val<V>::mk(v); auto it = t.insert(t.begin() + p, w); SIM_CHECK(Val<V>::id(*it) == v && (size_t)(it - t.begin()) == p, "ddv:insert-result", "insert() returns a position that is not the new element's"); });
                    else change(x, want, false, [&](T& t) { typename T::const_iterator at = t.begin() + p; auto it = t.insert(at, Val<V>::mk(v)); SIM_CHECK(Val<V>::id(*it) == v && (size_t)(it - t.begin()) == p, "ddv:insert-result", "insert() returns a position that is not the new element's"); });
                    break;
                case 3:
                    want.insert(want.begin() + p, vals.begin(), vals.end());
                    change(x, want, false, [&](T& t) { t.insert(t.begin() + p, src.begin(), src.end()); });
                    break;
                case 4: // erase one, often the first
                    if (n)
                    {
                        size_t at = choose(3) ? 0 : p % n;
                        want.erase(want.begin() + at);
                        hot |= at == 0;
                        change(x, want, false, [&](T& t) { auto it = t.erase(t.begin() + at); SIM_CHECK((size_t)(it - t.begin()) == at, "ddv:erase-result", "erase() returns position %zd, expected %zu", (ssize_t)(it - t.begin()), at); });
                    }
                    break;
                case 5:
                {
                    size_t from = choose(3) ? p : 0;
                    want.erase(want.begin() + from, want.begin() + q);
                    change(x, want, false, [&](T& t) { auto it = t.erase(t.begin() + from, t.begin() + q); SIM_CHECK((size_t)(it - t.begin()) == from, "ddv:erase-result", "erase() returns position %zd, expected %zu", (ssize_t)(it - t.begin()), from); });
                    break;
                }
                case 6:
                {
                    size_t to = choose(2) ? q : n + choose(5);
                    want.resize(to, 0);
                    change(x, want, false, [&](T& t) { t.resize(to); });
                    break;
                }
                case 7: change(x, want, std::is_nothrow_move_assignable_v<V>, [&](T& t) { t.reserve(choose(20)); }); break;
                case 8: change(x, want, false, [&](T& t) { t.shrink_to_fit(); }); break;
                case 9: change(x, vals, false, [&](T& t) { t.assign(src.begin(), src.end()); }); break;
                case 10: // copy construction
                {
                    M want = y.m;
                    std::unique_ptr<T> nt;
                    FaultPlan f = faults ? choose_faults(1, 3, true, true, 12) : FaultPlan();
                    bool failed = false;
                    {
                        Sut g(f);
                        try { nt = std::make_unique<T>(*y.t); }
                        catch (const std::bad_alloc&) { if (!g.fired()) throw; failed = true; }
                        catch (const Injected&) { failed = true; }
                    }
                    if (failed)
                        count("fault.failed_operations");
                    else
                    {
                        Sut g;
                        x.m = want;
                        x.t = std::move(nt);
                    }
                    break;
                }
                case 11: { M want = y.m; change(x, want, false, [&](T& t) { t = *y.t; }); break; }
                case 12: // move construction and assignment; the source is then empty or refilled
                {
                    Sut g;
                    auto nt = std::make_unique<T>(std::move(*y.t));
                    M m = y.m;
                    y.m = read(*y.t);
                    SIM_CHECK((size_t)(y.t->end() - y.t->begin()) == y.t->size(), "ddv:moved-from", "a moved-from vector has size()=%zu and spans %zd elements", (size_t)y.t->size(), (ssize_t)(y.t->end() - y.t->begin()));
                    x.t = std::move(nt);
                    x.m = m;
                    break;
                }
                case 13:
                    if (xi != yi)
                    {
                        Sut g;
                        *x.t = std::move(*y.t);
                        x.m = y.m;
                        y.m = read(*y.t);
                        SIM_CHECK((size_t)(y.t->end() - y.t->begin()) == y.t->size(), "ddv:moved-from", "a moved-from vector has size()=%zu and spans %zd elements", (size_t)y.t->size(), (ssize_t)(y.t->end() - y.t->begin()));
                    }
                    break;
                case 14: { Sut g; if (choose(2)) x.t->swap(*y.t); else std::swap(*x.t, *y.t); std::swap(x.m, y.m); break; }
                default:
                {
                    Sut g;
                    size_t how = choose(3);
                    if (how == 0) { x.t = std::make_unique<T>(cnt); x.m.assign(cnt, 0); }
                    else if (how == 1) { x.t = std::make_unique<T>(cnt, Val<V>::mk(v)); x.m.assign(cnt, v); }
                    else { x.t = std::make_unique<T>(src.begin(), src.end()); x.m = vals; }
                }
            }
            {
                Sut g;
                src = {};
                Pause pause;
                for (auto& z : s)
                    expect(z);
                size_t far = choose(4) ? x.t->size() + choose(3) : (size_t)0 - 1 - choose(4);
                rejects(*x.t, far);
                bool same = *x.t == *y.t;
                SIM_CHECK(same == (x.m == y.m), "ddv:equal", "two vectors with [%s] and [%s] compare %s", show(x.m).c_str(), show(y.m).c_str(), same ? "equal" : "different");
            }
            uint64_t h = 7;
            for (int i : x.m)
                h = mix(h, i);
            state(h);
            count("operations");
        }
        if (hot && !faults)
            nontrivial();
        Sut g;
        s.clear();
    }
};
void run()
{
    switch (choose(5))
    {
        case 0: { World<int> w; w.run(); break; }
        case 1: { World<std::string> w; w.run(); break; }
        case 2: { World<Tok> w; w.run(); break; }
        case 3: { World<HeapTok> w; w.run(); break; }
        default: { World<SlowTok> w; w.run(); }
    }
}
} // namespace hddv

const std::vector<Prop>& sim::properties()
{
    static const std::vector<Prop> p{{"M12", hddv::run, 100000, 10000000, "a seeded history that erased from the front, or in which an operation failed"}};
    return p;
}
