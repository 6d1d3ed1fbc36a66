// segment_tree under simulated histories, compared with a multiset of live segments.
#include "sim.hpp"
#include "wander.hpp"
#include "tok.hpp"
#include <mdds/segment_tree.hpp>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <algorithm>
#include <tuple>

using namespace sim;
namespace hst {

template<typename V> struct Val { static V mk(int i) { return V(i); } static int id(const V& v) { return (int)v; } };
template<> struct Val<std::string> {
    static std::string mk(int i) { return i ? "v" + std::to_string(i) + "-padding-beyond-the-small-buffer" : ""; }
    static int id(const std::string& s) { return s.empty() ? 0 : atoi(s.c_str() + 1); }
};
struct Cmp3Tok : HeapTok {   // segment values are three-way compared
    using HeapTok::HeapTok;
    friend std::strong_ordering operator<=>(const Cmp3Tok& a, const Cmp3Tok& b) { return a.v <=> b.v; }
    friend bool operator==(const Cmp3Tok& a, const Cmp3Tok& b) { return (const HeapTok&)a == (const HeapTok&)b; }
};
template<> struct Val<Cmp3Tok> {
    static Cmp3Tok mk(int i) { return Cmp3Tok(i); }
    static int id(const Cmp3Tok& v) { v.alive("read"); return v.v; }
};
// keys spread over the range of their type
template<typename K> struct Key;
template<> struct Key<int> { static int mk(int i) { return (i - 14) * 140000000; } static int id(int k) { return k / 140000000 + 14; } };
template<> struct Key<long> { static long mk(int i) { return ((long)i << 56) - (14l << 56) / 4 + 7; } static int id(long k) { return (int)((k - 7 + (14l << 56) / 4) >> 56); } };
template<> struct Key<double> { static double mk(int i) { return i * 0.25 - 2; } static int id(double k) { return (int)((k + 2) * 4); } };
template<> struct Key<std::string> {
    static std::string mk(int i) { char b[64]; snprintf(b, sizeof b, "key-%03d-beyond-the-small-buffer", i + 50); return b; }
    static int id(const std::string& k) { return atoi(k.c_str() + 4) - 50; }
};

using Seg = std::tuple<int, int, int>;
using M = std::multiset<Seg>;

template<typename K, typename V>
struct World {
    using T = mdds::segment_tree<K, V>;
    struct Slot { std::unique_ptr<T> t; M m; bool moved = false; };
    std::vector<Slot> s;
    bool faults;
    int span, nvals;

    static Seg seg(const auto& x) { return {Key<K>::id(x.start), Key<K>::id(x.end), Val<V>::id(x.value)}; }
    std::optional<typename T::search_results> keep; // results of an earlier search, maybe of another tree
    M search(const T& t, int k, bool both)
    {
        M out;
        auto r = t.search(Key<K>::mk(k));
        std::vector<Seg> order;
        for (auto it = r.begin(), ite = r.end(); it != ite; ++it)
        {
            order.push_back(seg(*it));
            out.insert(seg(*it));
            SIM_CHECK(order.size() < 100000, "segtree:cycle", "search results do not end");
        }
        SIM_CHECK(r.size() == order.size() && r.empty() == order.empty(), "segtree:result-size", "size()=%zu empty()=%d for %zu results", r.size(), r.empty(), order.size());
        if (both && !order.empty())
        {
            auto it = r.end();
            for (size_t i = order.size(); i-- > 0;)
            {
                --it;
                SIM_CHECK(seg(*it) == order[i], "segtree:backward", "backward iteration differs at %zu", i);
            }
            SIM_CHECK(it == r.begin(), "segtree:backward", "backward iteration does not reach the first result");
        }
        if (both && chance(1, 4))
        {
            auto r2 = r; // results can be copied, moved and assigned
            if (!keep) keep.emplace(r2);
            else if (chance(1, 2)) *keep = r;
            else *keep = std::move(r2);
            size_t n = 0;
            SIM_CHECK(keep->size() == order.size() && keep->empty() == order.empty(), "segtree:reused-result", "a copied result has %zu segments, expected %zu", keep->size(), order.size());
            for (auto it = keep->begin(), ite = keep->end(); it != ite; ++it, ++n)
                SIM_CHECK(n < order.size() && seg(*it) == order[n], "segtree:reused-result", "a copied result differs at %zu", n);
            SIM_CHECK(n == order.size(), "segtree:reused-result", "a copied result gives %zu segments, expected %zu", n, order.size());
        }
        if (both && chance(1, 8))
            wander("segtree:walk", r.begin(), r.end(), order.size(), [&](auto& it2, size_t i) {
                SIM_CHECK(seg(*it2) == order[i] && seg(*it2.operator->()) == order[i], "segtree:walk", "an iterator at place %zu of %zu shows another segment", i, order.size());
            });
        return out;
    }
    // every live segment, found without the index
    static M live(T& t)
    {
        M out;
        t.erase_if([&](const K& a, const K& b, const V& v) {
            Pause p;
            out.insert({Key<K>::id(a), Key<K>::id(b), Val<V>::id(v)});
            return false;
        });
        return out;
    }
    void expect(Slot& x, bool built)
    {
        T& t = *x.t;
        SIM_CHECK(t.size() == x.m.size(), "segtree:size", "size()=%zu expected %zu", (size_t)t.size(), x.m.size());
        SIM_CHECK(t.empty() == x.m.empty(), "segtree:empty", "empty()=%d with %zu segments", t.empty(), x.m.size());
        SIM_CHECK(live(t) == x.m, "segtree:content", "stored segments differ from the segments inserted and not erased");
        std::set<int> ks;
        uint64_t h = t.valid_tree();
        for (auto& [a, b, v] : x.m)
        {
            ks.insert(a), ks.insert(b);
            h = mix(h, a * 10000 + b * 100 + v);
        }
        state(h);
        std::vector<int> bk;
        for (auto& k : t.boundary_keys())
            bk.push_back(Key<K>::id(k));
        SIM_CHECK(bk == std::vector<int>(ks.begin(), ks.end()), "segtree:boundary-keys", "boundary keys: %zu, expected %zu", bk.size(), ks.size());
        SIM_CHECK(!built || x.m.empty() || t.valid_tree(), "segtree:not-built", "index reported invalid directly after it was built");
        for (int k = -1; k <= span + 1; ++k)
        {
            M got = search(t, k, k % 3 == 0);
            if (!t.valid_tree())
            {
                SIM_CHECK(got.empty(), "segtree:stale-index", "the index is invalid, yet a search for %d gave %zu results", k, got.size());
                continue;
            }
            count("index_lookups");
            M e;
            for (auto& sg : x.m)
                if (std::get<0>(sg) <= k && k < std::get<1>(sg))
                    e.insert(sg);
            SIM_CHECK(got == e, "segtree:search", "search(%d) gave %zu segments, expected %zu", k, got.size(), e.size());
        }
    }
    template<typename F>
    bool act(const char* what, Slot* x, const M* old, const M* neu, F op)
    {
        FaultPlan p = faults ? choose_faults(1, 2, true, true, 16) : FaultPlan{};
        bool ok = true;
        {
            Sut in(p);
            try { op(); }
            catch (const std::bad_alloc&) { ok = false; }
            catch (const Injected&) { ok = false; }
            catch (const std::exception& e) { fail("segtree:unexpected-throw", "%s threw: %s", what, e.what()); }
            if (!ok && !in.fired())
                fail("segtree:unexpected-throw", "%s threw although nothing failed", what);
        }
        if (!ok)
        {
            nontrivial();
            count("operations_failed_by_fault");
            note("  -> failed by an injected fault");
            if (x)
            {
                M got = live(*x->t);
                SIM_CHECK(got == *old || got == *neu, "segtree:half-done", "%s failed and left neither the old nor the new segments (%zu, old %zu)", what, got.size(), old->size());
                x->m = got;
                expect(*x, false);
            }
        }
        return ok;
    }
    void run()
    {
        span = 4 + (int)choose(24);
        nvals = 1 + (int)choose(4);
        s.resize(1 + choose(2));
        for (auto& x : s)
        {
            Sut in;
            x.t = std::make_unique<T>();
        }
        uint32_t len = 15 + choose(50);
        while (more(len))
        {
            uint32_t xi = choose((uint32_t)s.size());
            Slot& x = s[xi];
            Slot& y = s[choose((uint32_t)s.size())];
            if (x.moved)
            {
                note("t%u: cleared after a move", xi);
                Sut in;
                x.t->clear();
                x.moved = false;
                x.m.clear();
                continue;
            }
            M old = x.m;
            bool built = false, was_valid = x.t->valid_tree();
            switch (weighted({30, 16, 14, 4, 2, 3, 4, 3, 3, 3}))
            {
                case 0:
                {
                    int a = (int)choose(span), b = a + 1 + (int)choose(span - a), v = (int)choose(nvals);
                    if (chance(1, 20))
                    {
                        std::swap(a, b);
                        if (chance(1, 2)) b = a;
                        note("t%u: insert of an empty range [%d,%d)", xi, a, b);
                        bool threw = false;
                        {
                            Sut in;
                            try { x.t->insert(Key<K>::mk(a), Key<K>::mk(b), Val<V>::mk(v)); } catch (const std::invalid_argument&) { threw = true; }
                        }
                        SIM_CHECK(threw, "segtree:bad-range", "an empty or reversed range was accepted");
                        SIM_CHECK(x.t->valid_tree() == was_valid, "segtree:bad-range-index", "a rejected insert changed the state of the index");
                        break;
                    }
                    note("t%u: insert [%d,%d)=%d", xi, a, b, v);
                    M n = old;
                    n.insert({a, b, v});
                    auto ka = Key<K>::mk(a), kb = Key<K>::mk(b);
                    auto vv = Val<V>::mk(v);
                    if (act("insert", &x, &old, &n, [&] { x.t->insert(ka, kb, vv); }))
                    {
                        x.m = n;
                        SIM_CHECK(!x.t->valid_tree(), "segtree:insert-index", "the index is still reported valid after an insert");
                    }
                    break;
                }
                case 1:
                    note("t%u: build_tree", xi);
                    built = act("build_tree", &x, &old, &old, [&] { x.t->build_tree(); });
                    break;
                case 2: // erase through a search result
                {
                    int k = (int)choose(span);
                    auto r = x.t->search(Key<K>::mk(k));
                    if (r.empty())
                        break;
                    uint32_t n = choose((uint32_t)r.size());
                    auto it = r.begin();
                    for (uint32_t i = 0; i < n; ++i)
                        ++it;
                    Seg sg = seg(*it);
                    note("t%u: erase [%d,%d)=%d found at %d", xi, std::get<0>(sg), std::get<1>(sg), std::get<2>(sg), k);
                    M ne = old;
                    ne.erase(ne.find(sg));
                    nontrivial();
                    if (act("erase", &x, &old, &ne, [&] { x.t->erase(it); }))
                    {
                        x.m = ne;
                        SIM_CHECK(x.t->valid_tree(), "segtree:erase-index", "erase invalidated the index");
                    }
                    break;
                }
                case 3:
                {
                    int v = (int)choose(nvals), lim = (int)choose(span);
                    note("t%u: erase_if value %d, start < %d", xi, v, lim);
                    M ne;
                    for (auto& sg : old)
                        if (!(std::get<2>(sg) == v && std::get<0>(sg) < lim))
                            ne.insert(sg);
                    size_t n = 0;
                    {
                        Sut in;
                        n = x.t->erase_if([&](const K& a, const K&, const V& w) { Pause p; return Val<V>::id(w) == v && Key<K>::id(a) < lim; });
                    }
                    SIM_CHECK(n == old.size() - ne.size(), "segtree:erase_if", "erase_if removed %zu segments, expected %zu", n, old.size() - ne.size());
                    x.m = ne;
                    SIM_CHECK(x.t->valid_tree() == was_valid, "segtree:erase-index", "erase_if changed the state of the index");
                    break;
                }
                case 4:
                {
                    note("t%u: clear", xi);
                    Sut in;
                    x.t->clear();
                    x.m.clear();
                    SIM_CHECK(!x.t->valid_tree(), "segtree:clear-index", "the index survives clear()");
                    break;
                }
                case 5:
                {
                    if (y.moved) break;
                    note("t%zu = t%u", (size_t)(&y - s.data()), xi);
                    M o = y.m;
                    if (act("assignment", &y, &o, &o, [&] { *y.t = *x.t; }))
                    {
                        y.m = old;
                        SIM_CHECK(y.t->valid_tree() == was_valid, "segtree:copy-index", "a copy differs in the state of the index");
                        SIM_CHECK(*y.t == *x.t, "segtree:copy-equal", "a copy does not compare equal");
                    }
                    expect(y, false);
                    break;
                }
                case 6:
                {
                    std::unique_ptr<T> n;
                    note("t%u: replaced by a copy", xi);
                    if (act("copy construction", &x, &old, &old, [&] { n = std::make_unique<T>(*x.t); }))
                    {
                        Sut in;
                        SIM_CHECK(*n == *x.t, "segtree:copy-equal", "a copy does not compare equal");
                        x.t = std::move(n);
                    }
                    break;
                }
                case 7:
                {
                    if (&y == &x) break;
                    note("t%zu = move(t%u)", (size_t)(&y - s.data()), xi);
                    {
                        Sut in;
                        if (chance(1, 2))
                            *y.t = std::move(*x.t);
                        else
                        {
                            y.t.reset();
                            y.t = std::make_unique<T>(std::move(*x.t));
                        }
                    }
                    y.m = old;
                    y.moved = false;
                    SIM_CHECK(y.t->valid_tree() == was_valid, "segtree:move-index", "a move changed the state of the index");
                    expect(y, false);
                    x.moved = true;
                    break;
                }
                case 8:
                {
                    if (y.moved) break;
                    note("swap");
                    Sut in;
                    x.t->swap(*y.t);
                    std::swap(x.m, y.m);
                    break;
                }
                case 9:
                {
                    if (y.moved) break;
                    bool e = *x.t == *y.t;
                    bool ex = x.m == y.m && x.t->valid_tree() == y.t->valid_tree();
                    SIM_CHECK(e == ex, "segtree:equality", "operator== gives %d, expected %d", e, ex);
                    break;
                }
            }
            for (auto& z : s)
                if (!z.moved)
                    expect(z, built && &z == &x);
        }
        for (auto& x : s)
        {
            Sut in;
            x.t.reset();
        }
    }
};
template<typename K, typename V> void go(bool f)
{
    World<K, V> w;
    w.faults = f;
    w.run();
}
void dispatch(bool f)
{
    cmp_faults = false;
    switch (choose(4))
    {
        case 0: note("types long -> int"); return go<long, int>(f);
        case 1: note("types double -> string"); return go<double, std::string>(f);
        case 2: note("types string -> int"); return go<std::string, int>(f);
        default: note("types int -> value"); return go<int, Cmp3Tok>(f);
    }
}
} // namespace hst

const std::vector<Prop>& sim::properties()
{
    static const std::vector<Prop> p{
        {"S01", [] { hst::dispatch(false); }, 30000, 3000000, "a seeded history that erases a segment through a search result"},
        {"S02", [] { hst::dispatch(true); }, 30000, 3000000, "a seeded history that erases a segment through a search result or in which an operation was failed by an injected fault"},
    };
    return p;
}
