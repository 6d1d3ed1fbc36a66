// point_quad_tree under simulated histories, compared with a map from coordinates to values.
#include "sim.hpp"
#include "wander.hpp"
#include "tok.hpp"
#include <mdds/point_quad_tree.hpp>
#include <map>
#include <limits>
#include <memory>
#include <optional>
#include <algorithm>

using namespace sim;
namespace hpqt {

template<typename V> struct Val { static V mk(int i) { return V(i); } static int id(const V& v) { return (int)v; } };
template<> struct Val<std::string> {
    static std::string mk(int i) { return "v" + std::to_string(i) + "-padding-beyond-the-small-buffer"; }
    static int id(const std::string& s) { return s.empty() ? 0 : atoi(s.c_str() + 1); }
};
template<bool A, bool B> struct Val<BasicTok<A, B>> {
    static BasicTok<A, B> mk(int i) { return BasicTok<A, B>(i); }
    static int id(const BasicTok<A, B>& v) { v.alive("read"); return v.v; }
};

template<typename K, typename V>
struct World {
    using T = mdds::point_quad_tree<K, V>;
    using M = std::map<std::pair<int, int>, int>;
    struct Slot { std::unique_ptr<T> t; M m; };
    std::vector<Slot> s;
    bool faults;
    int span, nvals = 5, off;

    // Keys are base + i * unit, so that a tree may lie anywhere in the range of the key type.
    std::conditional_t<std::is_floating_point_v<K>, K, int64_t> base = 0;
    K unit = 1;
    K k(int i) const
    {
        if constexpr (std::is_floating_point_v<K>) return base + K(i + off) * unit;
        else return K(base + (int64_t)(i + off) * (int64_t)unit);
    }
    int c(K v) const
    {
        if constexpr (std::is_floating_point_v<K>) return (int)((v - base) / unit) - off;
        else
        {
            int64_t d = (int64_t)v - base;
            return d % (int64_t)unit ? 900000 : (int)(d / (int64_t)unit) - off;
        }
    }
    void place()
    {
        uint32_t how = choose(6);
        if (how < 3)
            return;
        if constexpr (std::is_floating_point_v<K>)
            unit = how == 3 ? K(0x1p900) : how == 4 ? K(0x1p-900) : K(0x1p40);
        else
        {
            // keys from lo to hi are used, a little more is asked for
            int64_t min = std::numeric_limits<K>::min(), max = std::numeric_limits<K>::max(), lo = off - 1, hi = off + span;
            int64_t u = how == 3 ? 1 : how == 4 ? max / 2 / (hi - lo) : max / (hi - lo);
            unit = (K)u;
            base = chance(1, 2) ? max - u * hi : min - u * lo;
        }
        note("keys %.17g + i * %.17g", (double)base, (double)unit);
    }

    void walk(const typename T::node_access& n, M& out, int x1, int y1, int x2, int y2, int depth)
    {
        if (!n)
            return;
        SIM_CHECK(depth < 4000, "pqt:cycle", "node graph does not end");
        int x = c(n.x()), y = c(n.y());
        SIM_CHECK(x >= x1 && x <= x2 && y >= y1 && y <= y2, "pqt:partition", "node (%d,%d) lies outside the region of its position in the tree", x, y);
        bool fresh = out.emplace(std::make_pair(x, y), Val<V>::id(n.data())).second;
        SIM_CHECK(fresh, "pqt:duplicate", "point (%d,%d) is stored twice", x, y);
        walk(n.northwest(), out, x1, y1, x - 1, y - 1, depth + 1);
        walk(n.southwest(), out, x1, y, x - 1, y2, depth + 1);
        walk(n.northeast(), out, x, y1, x2, y - 1, depth + 1);
        walk(n.southeast(), out, x, y, x2, y2, depth + 1);
    }
    M read(const T& t)
    {
        M out;
        walk(t.get_node_access(), out, -100000, -100000, 100000, 100000, 0);
        return out;
    }
    typename T::search_results keep; // results of an earlier search, maybe of another tree
    void expect(const Slot& x, bool full)
    {
        const T& t = *x.t;
        SIM_CHECK(t.empty() == x.m.empty(), "pqt:empty", "empty()=%d with %zu points expected", t.empty(), x.m.size());
        SIM_CHECK(t.size() == x.m.size(), "pqt:size", "size()=%zu expected %zu", (size_t)t.size(), x.m.size());
        M got = read(t);
        SIM_CHECK(got == x.m, "pqt:points", "the stored points differ from the points inserted and not removed");
        uint64_t h = 1;
        for (auto& e : x.m)
            h = mix(h, e.first.first * 1000 + e.first.second * 10 + e.second);
        state(h);
        if (!full)
            return;
        for (int i = 0; i < 4; ++i)
        {
            int a = (int)range(-1, span), b = (int)range(-1, span);
            if (!x.m.empty() && chance(1, 2))
            {
                auto it = x.m.begin();
                std::advance(it, choose((uint32_t)x.m.size()));
                a = it->first.first, b = it->first.second;
            }
            auto it = x.m.find({a, b});
            bool ok = true;
            int v = 0;
            try { v = Val<V>::id(t.find(k(a), k(b))); } catch (const typename T::data_not_found&) { ok = false; }
            SIM_CHECK(ok == (it != x.m.end()), "pqt:find", "find(%d,%d) found=%d expected %d", a, b, ok, it != x.m.end());
            if (ok)
                SIM_CHECK(v == it->second, "pqt:find-value", "find(%d,%d)=%d expected %d", a, b, v, it->second);
        }
        for (int i = 0; i < 3; ++i)
        {
            int x1 = (int)range(-1, span), x2 = (int)range(-1, span), y1 = (int)range(-1, span), y2 = (int)range(-1, span);
            if (x1 > x2) std::swap(x1, x2);
            if (y1 > y2) std::swap(y1, y2);
            M e;
            for (auto& p : x.m)
                if (p.first.first >= x1 && p.first.first <= x2 && p.first.second >= y1 && p.first.second <= y2)
                    e.insert(p);
            std::vector<V> data;
            t.search_region(k(x1), k(y1), k(x2), k(y2), data);
            std::vector<int> a, b;
            for (auto& v : data) a.push_back(Val<V>::id(v));
            for (auto& p : e) b.push_back(p.second);
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            SIM_CHECK(a == b, "pqt:region", "region [%d,%d]x[%d,%d] gave %zu values, expected %zu", x1, x2, y1, y2, a.size(), b.size());
            auto res = t.search_region(k(x1), k(y1), k(x2), k(y2));
            M g;
            auto it = res.begin(), ite = res.end();
            std::vector<std::pair<int, int>> order;
            for (; it != ite; ++it)
            {
                std::pair<int, int> pt{c(it->first.x), c(it->first.y)};
                SIM_CHECK(g.emplace(pt, Val<V>::id(it->second)).second, "pqt:region-duplicate", "a region search reported a point twice");
                order.push_back(pt);
            }
            SIM_CHECK(g == e, "pqt:region", "region iteration [%d,%d]x[%d,%d] gave %zu points, expected %zu", x1, x2, y1, y2, g.size(), e.size());
            if (!order.empty())
            {
                auto r = res.end();
                for (size_t j = order.size(); j-- > 0;)
                {
                    --r;
                    SIM_CHECK(c(r->first.x) == order[j].first && c(r->first.y) == order[j].second, "pqt:region-backward", "backward iteration differs");
                }
            }
            if (chance(1, 4))
            {
                auto r2 = res; // results can be copied, moved and assigned
                if (chance(1, 2)) keep = res;
                else keep = std::move(r2);
                size_t n = 0;
                for (auto i = keep.begin(), ie = keep.end(); i != ie; ++i, ++n)
                    SIM_CHECK(n < order.size() && c(i->first.x) == order[n].first && c(i->first.y) == order[n].second, "pqt:reused-result", "a copied result differs at %zu", n);
                SIM_CHECK(n == order.size(), "pqt:reused-result", "a copied result gives %zu points, expected %zu", n, order.size());
            }
            if (chance(1, 4))
                wander("pqt:walk", res.begin(), res.end(), order.size(), [&](auto& it2, size_t i) {
                    SIM_CHECK(c((*it2).first.x) == order[i].first && c(it2->first.y) == order[i].second && Val<V>::id(it2->second) == e.at(order[i]), "pqt:walk",
                              "an iterator at place %zu of %zu shows another point", i, order.size());
                });
            count("region_searches");
        }
    }
    template<typename F>
    bool act(const char* what, Slot* x, const M* old, const M* neu, F op)
    {
        FaultPlan p = faults ? choose_faults(1, 2, true, true, 12) : FaultPlan{};
        bool ok = true;
        {
            Sut in(p);
            try { op(); }
            catch (const std::bad_alloc&) { ok = false; }
            catch (const Injected&) { ok = false; }
            catch (const std::exception& e) { fail("pqt:unexpected-throw", "%s threw: %s", what, e.what()); }
            if (!ok && !in.fired())
                fail("pqt:unexpected-throw", "%s threw although nothing failed", what);
        }
        if (!ok)
        {
            nontrivial();
            count("operations_failed_by_fault");
            note("  -> failed by an injected fault");
            if (x)
            {
                M got = read(*x->t);
                SIM_CHECK(got == *old || got == *neu, "pqt:half-done", "%s failed and left %zu points, neither the old (%zu) nor the new (%zu) content", what, got.size(), old->size(), neu->size());
                x->m = got;
                expect(*x, true);
            }
        }
        return ok;
    }
    void run()
    {
        span = 3 + (int)choose(20);
        off = std::is_unsigned_v<K> ? 2 : (int)choose(3) - 1;
        if (!std::is_unsigned_v<K>)
            off *= span / 2;
        place();
        s.resize(1 + choose(2));
        for (auto& x : s)
        {
            Sut in;
            x.t = std::make_unique<T>();
        }
        uint32_t len = 20 + choose(60);
        while (more(len))
        {
            uint32_t xi = choose((uint32_t)s.size());
            Slot& x = s[xi];
            M old = x.m;
            switch (weighted({40, 26, 2, 3, 3, 2, 3, 2}))
            {
                case 0:
                {
                    int a = (int)choose(span), b = (int)choose(span), v = (int)choose(nvals);
                    note("t%u: insert (%d,%d)=%d", xi, a, b, v);
                    M n = old;
                    n[{a, b}] = v;
                    V val = Val<V>::mk(v);
                    if (act("insert", &x, &old, &n, [&] { x.t->insert(k(a), k(b), val); }))
                        x.m = n;
                    break;
                }
                case 1:
                {
                    int a = (int)choose(span), b = (int)choose(span);
                    if (!x.m.empty() && chance(9, 10))
                    {
                        auto it = x.m.begin();
                        std::advance(it, choose((uint32_t)x.m.size()));
                        a = it->first.first, b = it->first.second;
                        nontrivial();
                    }
                    note("t%u: remove (%d,%d)", xi, a, b);
                    M n = old;
                    n.erase({a, b});
                    if (act("remove", &x, &old, &n, [&] { x.t->remove(k(a), k(b)); }))
                        x.m = n;
                    break;
                }
                case 2:
                {
                    note("t%u: clear", xi);
                    Sut in;
                    x.t->clear();
                    x.m.clear();
                    break;
                }
                case 3:
                {
                    Slot& y = s[choose((uint32_t)s.size())];
                    note("t%u: assigned to t%zu", xi, (size_t)(&y - s.data()));
                    M o = y.m;
                    if (act("assignment", &y, &o, &o, [&] { *y.t = *x.t; }))
                        y.m = old;
                    expect(y, true);
                    break;
                }
                case 4:
                {
                    note("t%u: replaced by a copy of itself", xi);
                    std::unique_ptr<T> n;
                    if (act("copy construction", nullptr, nullptr, nullptr, [&] { n = std::make_unique<T>(*x.t); }))
                    {
                        SIM_CHECK(*n == *x.t, "pqt:copy-equal", "a copy does not compare equal to its source");
                        Sut in;
                        x.t = std::move(n);
                    }
                    break;
                }
                case 5:
                {
                    Slot& y = s[choose((uint32_t)s.size())];
                    note("swap");
                    Sut in;
                    x.t->swap(*y.t);
                    std::swap(x.m, y.m);
                    break;
                }
                case 6:
                {
                    Slot& y = s[choose((uint32_t)s.size())];
                    bool e = *x.t == *y.t;
                    SIM_CHECK(e == (x.m == y.m), "pqt:equality", "operator== gives %d", e);
                    break;
                }
                case 7:
                {
                    // read under faults: nothing may change
                    if (!faults)
                        break;
                    act("region search", &x, &old, &old, [&] {
                        std::vector<V> d;
                        x.t->search_region(k(0), k(0), k(span), k(span), d);
                        auto r = x.t->search_region(k(0), k(0), k(span), k(span));
                        for (auto it = r.begin(); it != r.end(); ++it) {}
                    });
                    break;
                }
            }
            for (auto& y : s)
                expect(y, &y == &x);
        }
        for (auto& x : s)
        {
            Sut in;
            x.t.reset();
        }
    }
};
template<typename K, typename V> void go(bool f)
{
    World<K, V> w;
    w.faults = f;
    w.run();
}
void dispatch(bool f)
{
    cmp_faults = false;
    switch (choose(4))
    {
        case 0: note("types int -> int"); return go<int, int>(f);
        case 1: note("types double -> string"); return go<double, std::string>(f);
        case 2: note("types unsigned short -> value"); return go<unsigned short, Tok>(f);
        default: note("types int -> value"); return go<int, HeapTok>(f);
    }
}
} // namespace hpqt

const std::vector<Prop>& sim::properties()
{
    static const std::vector<Prop> p{
        {"Q01", [] { hpqt::dispatch(false); }, 40000, 3000000, "a seeded history that removes at least one stored point"},
        {"Q02", [] { hpqt::dispatch(true); }, 40000, 3000000, "a seeded history that removes a stored point or in which an operation was failed by an injected fault"},
    };
    return p;
}
