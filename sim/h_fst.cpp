// flat_segment_tree under simulated histories: several clients act on a pool of trees; every tree is
// compared with a step function held as one value per cell.
#include "sim.hpp"
#include "wander.hpp"
#include "tok.hpp"
#include <mdds/flat_segment_tree.hpp>
#include <limits>
#include <memory>
#include <set>

using namespace sim;

namespace hfst {

template<typename V> struct Val {
    static V mk(int i) { return V(i); }
    static int id(const V& v) { return (int)v; }
};
template<> struct Val<bool> {
    static bool mk(int i) { return i & 1; }
    static int id(bool v) { return v; }
};
template<> struct Val<std::string> {
    static std::string mk(int i) { return i ? "v" + std::to_string(i) + "-padding-beyond-small-buffer" : std::string(); }
    static int id(const std::string& s) { return s.empty() ? 0 : atoi(s.c_str() + 1); }
};
template<bool A, bool B> struct Val<BasicTok<A, B>> {
    static BasicTok<A, B> mk(int i) { return BasicTok<A, B>(i); }
    static int id(const BasicTok<A, B>& v) { v.alive("read"); return v.v; }
};
template<typename V> int norm(int i) { return std::is_same_v<V, bool> ? (i & 1) : i; }

// Keys are base + i * unit: the histories are the same wherever in the range of the key type the tree lies,
// up to both of its ends.
template<typename K> K g_base = 0;
template<typename K> K g_unit = 1;
template<typename K> K dkey(int i)
{
    if constexpr (std::is_floating_point_v<K>)
        return K(i) * K(0.5) * g_unit<K>;
    else
        return K((__int128)i * (__int128)g_unit<K>);
}
template<typename K> K key(int i)
{
    if constexpr (std::is_floating_point_v<K>)
        return g_base<K> + dkey<K>(i);
    else
        return K((__int128)g_base<K> + (__int128)i * (__int128)g_unit<K>);
}
template<typename K> int cell(K k)
{
    if constexpr (std::is_floating_point_v<K>)
        return (int)((k - g_base<K>) / g_unit<K> * 2);
    else
    {
        // what lies between two keys is no cell
        using W = __int128;
        W d = (W)k - (W)g_base<K>;
        if (d % (W)g_unit<K>)
            return 1000000;
        return (int)(d / (W)g_unit<K>);
    }
}
// the cells there are keys for
inline int g_lo = -9, g_hi = 39;
template<typename K> void place()
{
    g_base<K> = 0;
    g_unit<K> = 1;
    g_lo = -9;
    g_hi = 39;
    uint32_t how = choose(6);
    if (how < 3)
    {
        if (std::is_unsigned_v<K>)
            g_lo = 0;
        return;
    }
    if constexpr (std::is_floating_point_v<K>)
    {
        g_unit<K> = how == 3 ? K(0x1p40) : how == 4 ? K(0x1p-30) : K(1);
        g_base<K> = how == 5 ? K(0x1p30) : K(0);
    }
    else
    {
        using W = __int128;
        W min = std::numeric_limits<K>::min(), max = std::numeric_limits<K>::max();
        if (chance(1, 2)) g_lo = -2;
        if (chance(1, 2)) g_hi = 12;
        W unit = how == 3 ? 1 : how == 4 ? (max / 2) / (g_hi - g_lo) : max / (g_hi - g_lo); // distances between keys are keys
        g_unit<K> = K(unit);
        bool top = chance(2, 3);
        g_base<K> = K(top ? max - unit * g_hi : min - unit * g_lo);
    }
    note("keys %.17g + i * %.17g", (double)g_base<K>, (double)g_unit<K>);
}

struct Model {
    int lo = 0, hi = 1, init = 0;
    std::vector<int> f;
    int at(int k) const { return f[k - lo]; }
    bool operator==(const Model&) const = default;
};

struct Cfg {
    bool faults;       // inject failures
    bool tree_focus;   // build and search the index often
};

template<typename K, typename V>
struct World {
    using T = mdds::flat_segment_tree<K, V>;
    struct Slot {
        std::unique_ptr<T> t;
        Model m;
        bool moved = false; // moved-from: may only be assigned to or destroyed
    };
    std::vector<Slot> s;
    Cfg cfg;
    int nvals;

    void expect_reads(const Slot& x, bool built)
    {
        const T& t = *x.t;
        const Model& m = x.m;
        SIM_CHECK(cell<K>(t.min_key()) == m.lo && cell<K>(t.max_key()) == m.hi, "fst:bounds", "bounds [%d,%d) expected [%d,%d)", cell<K>(t.min_key()),
                  cell<K>(t.max_key()), m.lo, m.hi);
        SIM_CHECK(Val<V>::id(t.default_value()) == m.init, "fst:default", "default value %d expected %d", Val<V>::id(t.default_value()), m.init);
        // leaf walk
        std::vector<std::pair<int, int>> exp; // canonical boundaries
        for (int k = m.lo; k < m.hi; ++k)
            if (k == m.lo || m.at(k) != m.at(k - 1))
                exp.push_back({k, m.at(k)});
        size_t i = 0;
        uint64_t h = 0;
        auto it = t.begin(), ite = t.end();
        for (; !(it == ite); ++it, ++i)
        {
            auto p = *it;
            int c = cell<K>(p.first);
            if (i < exp.size())
            {
                SIM_CHECK(c == exp[i].first, "fst:leaf-key", "leaf %zu begins at %d, the step function changes at %d", i, c, exp[i].first);
                SIM_CHECK(Val<V>::id(p.second) == exp[i].second, "fst:leaf-value", "value at %d is %d, expected %d", c, Val<V>::id(p.second), exp[i].second);
                h = mix(h, c * 64 + exp[i].second);
            }
            else
                SIM_CHECK(i == exp.size() && c == m.hi, "fst:leaf-end", "unexpected leaf %zu at key %d (upper bound %d)", i, c, m.hi);
        }
        SIM_CHECK(i == exp.size() + 1, "fst:leaf-count", "%zu boundaries, expected %zu", i, exp.size() + 1);
        SIM_CHECK(t.leaf_size() == exp.size() + 1, "fst:leaf-size", "leaf_size %zu expected %zu", (size_t)t.leaf_size(), exp.size() + 1);
        state(mix(h, exp.size()));
        // reverse
        {
            auto r = t.rbegin(), re = t.rend();
            size_t n = 0;
            for (; !(r == re); ++r, ++n)
            {
                int c = cell<K>((*r).first);
                int e = n == 0 ? m.hi : (n <= exp.size() ? exp[exp.size() - n].first : -9999);
                SIM_CHECK(c == e, "fst:reverse", "reverse position %zu is %d expected %d", n, c, e);
                if (n)
                    SIM_CHECK(Val<V>::id((*r).second) == exp[exp.size() - n].second, "fst:reverse-value", "reverse value at %d", c);
            }
            SIM_CHECK(n == exp.size() + 1, "fst:reverse-count", "%zu reverse positions expected %zu", n, exp.size() + 1);
        }
        // segments, both ways of asking, forward and backward
        {
            size_t n = 0;
            auto chk = [&](const auto& sg) {
                SIM_CHECK(n < exp.size(), "fst:segments", "more segments than expected (%zu)", exp.size());
                int e = n + 1 < exp.size() ? exp[n + 1].first : m.hi;
                SIM_CHECK(cell<K>(sg.start) == exp[n].first && cell<K>(sg.end) == e && Val<V>::id(sg.value) == exp[n].second, "fst:segment",
                          "segment %zu is [%d,%d)=%d expected [%d,%d)=%d", n, cell<K>(sg.start), cell<K>(sg.end), Val<V>::id(sg.value), exp[n].first, e, exp[n].second);
            };
            for (const auto& sg : t.segment_range())
            {
                chk(sg);
                ++n;
            }
            SIM_CHECK(n == exp.size(), "fst:segments", "%zu segments expected %zu", n, exp.size());
            auto b = t.begin_segment(), e = t.end_segment();
            while (!(e == b))
            {
                --e;
                --n;
                chk(*e);
            }
            SIM_CHECK(n == 0, "fst:segments-backward", "backward walk stopped %zu early", n);
            if (chance(1, 4))
                wander("fst:segment-walk", t.begin_segment(), t.end_segment(), exp.size(), [&](auto& it, size_t i) {
                    n = i;
                    chk(*it);
                    SIM_CHECK(it->start == (*it).start, "fst:segment-walk", "it->start and (*it).start differ");
                    using S = std::remove_cvref_t<decltype(*it)>;
                    S same(*it);
                    K ok = cell<K>(same.start) == m.lo ? key<K>(m.lo + 1) : key<K>(m.lo), oe = cell<K>(same.end) == m.hi ? key<K>(m.lo) : key<K>(m.hi);
                    SIM_CHECK(same == *it && !(S(ok, same.end, same.value) == *it) && !(S(same.start, oe, same.value) == *it), "fst:segment-equal",
                              "segment values compare wrongly");
                    S other(same.start, same.end, Val<V>::mk(Val<V>::id(same.value) ? 0 : 1));
                    SIM_CHECK(!(other == *it), "fst:segment-equal", "segments with different values compare equal");
                });
            if (chance(1, 4))
            {
                auto leaf = [&](size_t i, auto& it) {
                    int c = cell<K>((*it).first), e = i < exp.size() ? exp[i].first : m.hi;
                    SIM_CHECK(c == e && cell<K>(it->first) == e, "fst:leaf-walk", "boundary %zu of %zu is %d expected %d", i, exp.size() + 1, c, e);
                    if (i < exp.size())
                        SIM_CHECK(Val<V>::id(it->second) == exp[i].second, "fst:leaf-walk", "value at %d is %d expected %d", c, Val<V>::id(it->second), exp[i].second);
                };
                if (chance(1, 2))
                    wander("fst:leaf-walk", t.begin(), t.end(), exp.size() + 1, [&](auto& it, size_t i) {
                        leaf(i, it);
                        if (i < exp.size())
                        {
                            auto sg = it.to_segment();
                            n = i;
                            chk(*sg);
                        }
                    });
                else
                    wander("fst:reverse-walk", t.rbegin(), t.rend(), exp.size() + 1, [&](auto& it, size_t i) { leaf(exp.size() - i, it); });
            }
        }
        // point reads
        for (int k = std::max(m.lo - 2, g_lo); k <= std::min(m.hi + 1, g_hi); ++k)
        {
            bool in = k >= m.lo && k < m.hi;
            int a = 0, b = 0;
            if (in)
            {
                a = k;
                while (a > m.lo && m.at(a - 1) == m.at(k))
                    --a;
                b = k;
                while (b < m.hi && m.at(b) == m.at(k))
                    ++b;
            }
            V v{};
            K s1{}, e1{};
            auto verify = [&](const char* how, const std::pair<typename T::const_iterator, bool>& r) {
                SIM_CHECK(r.second == in, "fst:search-found", "%s(%d) found=%d expected %d", how, k, r.second, in);
                if (in)
                {
                    auto it2 = r.first;
                    SIM_CHECK(Val<V>::id(v) == m.at(k) && cell<K>(s1) == a && cell<K>(e1) == b, "fst:search", "%s(%d) gives [%d,%d)=%d expected [%d,%d)=%d", how, k,
                              cell<K>(s1), cell<K>(e1), Val<V>::id(v), a, b, m.at(k));
                    SIM_CHECK(cell<K>((*it2).first) == a && Val<V>::id((*it2).second) == m.at(k), "fst:search-iterator", "%s(%d) iterator at %d", how, k, cell<K>((*it2).first));
                }
                else
                    SIM_CHECK(r.first == t.end(), "fst:search-end", "%s(%d) out of range must give the end position", how, k);
            };
            auto verify_it = [&](const char* how, typename T::const_iterator it2) {
                if (in)
                {
                    SIM_CHECK(!(it2 == t.end()), "fst:search-found", "%s(%d) not found", how, k);
                    SIM_CHECK(cell<K>((*it2).first) == a && Val<V>::id((*it2).second) == m.at(k), "fst:search-iterator", "%s(%d) iterator at %d", how, k, cell<K>((*it2).first));
                    auto sg = it2.to_segment();
                    SIM_CHECK(cell<K>(sg->start) == a && cell<K>(sg->end) == b && Val<V>::id(sg->value) == m.at(k), "fst:to-segment", "to_segment of %s(%d)", how, k);
                }
                else
                    SIM_CHECK(it2 == t.end(), "fst:search-end", "%s(%d) out of range must give the end position", how, k);
            };
            K kk = key<K>(k);
            if constexpr (!std::is_floating_point_v<K>)
                if (k < g_hi && (k & 1)) // the last key of the cell
                    kk = K(kk + (g_unit<K> - 1));
            verify("search", t.search(kk, v, &s1, &e1));
            verify_it("search", t.search(kk));
            auto pos = hint(x, false);
            verify("search from a position", t.search(pos, kk, v, &s1, &e1));
            verify_it("search from a position", t.search(pos, kk));
            if (t.valid_tree())
            {
                count("tree_lookups");
                verify("tree search", t.search_tree(kk, v, &s1, &e1));
                verify_it("tree search", t.search_tree(kk));
            }
            else
            {
                auto r = t.search_tree(kk, v, &s1, &e1);
                SIM_CHECK(!r.second && r.first == t.end() && t.search_tree(kk) == t.end(), "fst:stale-index", "the index is invalid, yet a tree search for %d succeeded", k);
                SIM_CHECK(!built, "fst:not-built", "index reported invalid directly after it was built");
            }
        }
    }
    // An iterator to search or insert from: any position of this tree, its end, a default one, or another tree's.
    typename T::const_iterator hint(const Slot& x, bool allow_any)
    {
        uint32_t c = choose(8);
        if (c == 0)
            return typename T::const_iterator();
        if (c == 1)
            return x.t->end();
        if (c == 2)
            for (auto& o : s)
                if (o.t && !o.moved && o.t != x.t)
                    return o.t->begin();
        auto it = x.t->begin();
        uint32_t n = choose((uint32_t)x.t->leaf_size());
        while (n--)
            ++it;
        (void)allow_any;
        return it;
    }
    // Reads the mapping back after a failed operation; walks both ways.
    Model read_back(const Slot& x)
    {
        Model m;
        m.lo = cell<K>(x.t->min_key());
        m.hi = cell<K>(x.t->max_key());
        m.init = Val<V>::id(x.t->default_value());
        std::vector<std::pair<int, int>> ks;
        auto it = x.t->begin(), ite = x.t->end();
        for (; !(it == ite); ++it)
        {
            auto p = *it;
            ks.push_back({cell<K>(p.first), Val<V>::id(p.second)});
            SIM_CHECK(ks.size() < 10000, "fst:cycle", "leaf list does not end after a failed operation");
        }
        SIM_CHECK(ks.size() >= 2 && ks[0].first == m.lo && ks.back().first == m.hi, "fst:broken-after-failure", "leaf list lost its end points after a failed operation");
        size_t n = ks.size();
        auto r = x.t->rbegin(), re = x.t->rend();
        for (; !(r == re); ++r)
        {
            SIM_CHECK(n > 0, "fst:broken-after-failure", "reverse walk is longer than the forward walk after a failed operation");
            --n;
            SIM_CHECK(cell<K>((*r).first) == ks[n].first, "fst:broken-after-failure", "reverse walk differs from the forward walk after a failed operation");
        }
        SIM_CHECK(n == 0, "fst:broken-after-failure", "reverse walk is shorter than the forward walk after a failed operation");
        for (size_t i = 0; i + 1 < ks.size(); ++i)
        {
            SIM_CHECK(ks[i].first < ks[i + 1].first, "fst:broken-after-failure", "leaf keys are not ascending after a failed operation");
            for (int k = ks[i].first; k < ks[i + 1].first; ++k)
                m.f.push_back(ks[i].second);
        }
        return m;
    }

    // Executes op under a fault plan; on a failure the tree must hold its old or its new mapping.
    // Returns true when the operation completed.
    template<typename F>
    bool act(const char* what, Slot* x, const Model* old, const Model* neu, F op)
    {
        FaultPlan p = cfg.faults ? choose_faults(1, 2, true, true, 12) : FaultPlan{};
        bool ok = true;
        {
            Sut in(p);
            try
            {
                op();
            }
            catch (const std::bad_alloc&)
            {
                ok = false;
            }
            catch (const Injected&)
            {
                ok = false;
            }
            if (!ok && !in.fired())
                fail("fst:unexpected-throw", "%s threw although nothing failed", what);
        }
        if (!ok)
        {
            nontrivial();
            count("operations_failed_by_fault");
            note("  -> failed by an injected fault");
            if (x)
            {
                Model got = read_back(*x);
                SIM_CHECK(got == *old || got == *neu, "fst:half-done", "%s failed and left a mapping that is neither the old nor the new one", what);
                x->m = got;
            }
        }
        return ok;
    }

    static Model inserted(const Model& m, int a, int b, int v, bool& changed)
    {
        Model n = m;
        changed = false;
        for (int k = std::max(a, m.lo); k < std::min(b, m.hi); ++k)
            if (n.f[k - m.lo] != v)
            {
                n.f[k - m.lo] = v;
                changed = true;
            }
        return n;
    }
    static Model left(const Model& m, int a, int b)
    {
        Model n = m;
        if (a >= b || a < m.lo || b < m.lo || a > m.hi || b > m.hi)
            return n;
        n.f.erase(n.f.begin() + (a - m.lo), n.f.begin() + (b - m.lo));
        n.f.resize(m.f.size(), m.init);
        return n;
    }
    static Model right(const Model& m, int pos, int size, bool skip)
    {
        Model n = m;
        if (size <= 0 || pos < m.lo || pos >= m.hi)
            return n;
        bool at_node = pos == m.lo || m.at(pos) != m.at(pos - 1);
        int fill;
        if (pos == m.lo)
            fill = skip ? m.at(pos) : m.init;
        else
            fill = at_node ? (skip ? m.at(pos) : m.at(pos - 1)) : m.at(pos);
        n.f.insert(n.f.begin() + (pos - m.lo), size, fill);
        n.f.resize(m.f.size());
        return n;
    }

    int rnd_key(const Model& m, int margin)
    {
        int lo = m.lo - margin, hi = m.hi + margin;
        lo = std::max(lo, g_lo);
        hi = std::min(hi, g_hi);
        if (chance(2, 5)) // an existing boundary
        {
            std::vector<int> b{m.lo, m.hi};
            for (int k = m.lo + 1; k < m.hi; ++k)
                if (m.at(k) != m.at(k - 1))
                    b.push_back(k);
            return pick(b);
        }
        return (int)range(lo, hi);
    }

    void create(Slot& x)
    {
        int lo = std::max((int)range(-6, 6), g_lo);
        int width = std::min(1 + (int)choose(30), g_hi - lo);
        int init = norm<V>((int)choose(nvals));
        note("create [%d,%d) init %d", lo, lo + width, init);
        std::unique_ptr<T> t;
        V iv = Val<V>::mk(init);
        if (!act("construction", nullptr, nullptr, nullptr, [&] { t = std::make_unique<T>(key<K>(lo), key<K>(lo + width), iv); }))
            return;
        x.t = std::move(t);
        x.moved = false;
        x.m = Model{lo, lo + width, init, std::vector<int>(width, init)};
    }
    void drop(Slot& x)
    {
        Sut in;
        x.t.reset();
        x.moved = false;
    }

    void run()
    {
        place<K>();
        uint32_t nslots = 1 + choose(3);
        nvals = 2 + (int)choose(3);
        s.resize(nslots);
        create(s[0]);
        uint32_t len = 12 + choose(40);
        bool mutated = false;
        while (more(len))
        {
            uint32_t xi = choose(nslots);
            Slot& x = s[xi];
            if (!x.t)
            {
                create(x);
                continue;
            }
            if (x.moved)
            {
                // re-use by assignment, or destroy
                Slot* o = nullptr;
                for (auto& y : s)
                    if (y.t && !y.moved)
                        o = &y;
                if (o && chance(1, 2))
                {
                    note("t%u: assign over the moved-from tree", xi);
                    if (act("assignment", nullptr, nullptr, nullptr, [&] { *x.t = *o->t; }))
                    {
                        x.moved = false;
                        x.m = o->m;
                        expect_reads(x, false);
                    }
                    expect_reads(*o, false);
                }
                else
                    drop(x);
                continue;
            }
            Model old = x.m;
            bool was_valid = x.t->valid_tree();
            bool built = false;
            switch (weighted({30, 18, 16, cfg.tree_focus ? 14u : 6u, 3, 4, 4, 3, 3, 3}))
            {
                case 0: // insert
                {
                    int a = rnd_key(x.m, 3), b = rnd_key(x.m, 3), v = norm<V>((int)choose(nvals));
                    if (chance(7, 8) && a > b)
                        std::swap(a, b);
                    uint32_t how = choose(3);
                    bool changed;
                    Model n = inserted(x.m, a, b, v, changed);
                    bool accepted = a < b && a < x.m.hi && b > x.m.lo;
                    note("t%u: insert[%u] [%d,%d)=%d", xi, how, a, b, v);
                    std::pair<typename T::const_iterator, bool> r{typename T::const_iterator(), false};
                    V val = Val<V>::mk(v);
                    auto pos = hint(x, true);
                    if (!act("insert", &x, &old, &n, [&] {
                            r = how == 0   ? x.t->insert_front(key<K>(a), key<K>(b), val)
                                : how == 1 ? x.t->insert_back(key<K>(a), key<K>(b), val)
                                           : x.t->insert(pos, key<K>(a), key<K>(b), val);
                        }))
                        break;
                    x.m = n;
                    mutated |= changed;
                    SIM_CHECK(r.second == changed, "fst:insert-flag", "insert reports changed=%d, the mapping changed=%d", r.second, changed);
                    if (accepted)
                    {
                        int st = std::max(a, x.m.lo);
                        while (st > x.m.lo && x.m.at(st - 1) == v)
                            --st;
                        SIM_CHECK(!(r.first == x.t->end()), "fst:insert-iterator", "insert returned the end position for an accepted range");
                        SIM_CHECK(cell<K>((*r.first).first) == st && Val<V>::id((*r.first).second) == v, "fst:insert-iterator", "insert returned position %d=%d, expected %d=%d",
                                  cell<K>((*r.first).first), Val<V>::id((*r.first).second), st, v);
                    }
                    else
                        SIM_CHECK(r.first == x.t->end(), "fst:insert-iterator", "a rejected insert must return the end position");
                    if (!changed)
                        count("insert_without_change");
                    break;
                }
                case 1:
                {
                    int a = rnd_key(x.m, 2), b = rnd_key(x.m, 2);
                    if (chance(9, 10) && a > b)
                        std::swap(a, b);
                    note("t%u: shift_left [%d,%d)", xi, a, b);
                    Model n = left(x.m, a, b);
                    if (!act("shift_left", &x, &old, &n, [&] { x.t->shift_left(key<K>(a), key<K>(b)); }))
                        break;
                    x.m = n;
                    mutated |= !(n == old);
                    break;
                }
                case 2:
                {
                    int p = rnd_key(x.m, 2);
                    int size = (int)choose_small((uint32_t)(x.m.hi - x.m.lo) + 4);
                    if constexpr (!std::is_floating_point_v<K>)
                        if (auto most = std::numeric_limits<K>::max() / g_unit<K>; (uint64_t)most < (uint64_t)size)
                            size = (int)most;
                    bool skip = chance(1, 2);
                    note("t%u: shift_right at %d by %d skip=%d", xi, p, size, skip);
                    Model n = right(x.m, p, size, skip);
                    if (!act("shift_right", &x, &old, &n, [&] { x.t->shift_right(key<K>(p), dkey<K>(size), skip); }))
                        break;
                    x.m = n;
                    mutated |= !(n == old);
                    break;
                }
                case 3:
                {
                    note("t%u: build_tree", xi);
                    if (act("build_tree", &x, &old, &old, [&] { x.t->build_tree(); }))
                        built = true;
                    count("index_builds");
                    break;
                }
                case 4:
                {
                    note("t%u: clear", xi);
                    Model n = old;
                    n.f.assign(n.f.size(), n.init);
                    if (!act("clear", &x, &old, &n, [&] { x.t->clear(); }))
                        break;
                    x.m = n;
                    SIM_CHECK(!x.t->valid_tree(), "fst:clear-index", "clear must drop the index");
                    break;
                }
                case 5: // copy construct into a slot
                {
                    uint32_t yi = choose(nslots);
                    if (yi == xi)
                        break;
                    Slot& y = s[yi];
                    note("t%u = copy of t%u", yi, xi);
                    std::unique_ptr<T> c;
                    if (!act("copy construction", &x, &old, &old, [&] { c = std::make_unique<T>(*x.t); }))
                        break;
                    drop(y);
                    y.t = std::move(c);
                    y.m = x.m;
                    SIM_CHECK(*y.t == *x.t, "fst:copy-equal", "a copy does not compare equal to its source");
                    expect_reads(y, false);
                    break;
                }
                case 6: // copy assign
                {
                    uint32_t yi = choose(nslots);
                    Slot& y = s[yi];
                    if (!y.t || y.moved)
                        break;
                    note("t%u = t%u (assignment)", yi, xi);
                    Model oy = y.m;
                    bool ok = act("assignment", &y, &oy, &oy, [&] { *y.t = *x.t; });
                    if (ok)
                        y.m = old;
                    expect_reads(y, false);
                    break;
                }
                case 7: // move construct / move assign
                {
                    uint32_t yi = choose(nslots);
                    Slot& y = s[yi];
                    if (yi == xi)
                        break;
                    if (y.t && chance(1, 2))
                    {
                        note("t%u = move(t%u) (assignment)", yi, xi);
                        {
                            Sut in;
                            *y.t = std::move(*x.t);
                        }
                    }
                    else
                    {
                        note("t%u constructed from move(t%u)", yi, xi);
                        Sut in;
                        y.t.reset();
                        y.t = std::make_unique<T>(std::move(*x.t));
                    }
                    y.moved = false;
                    y.m = old;
                    SIM_CHECK(y.t->valid_tree() == was_valid, "fst:move-index", "moving a tree changed whether its index is valid");
                    expect_reads(y, false);
                    x.moved = true;
                    break;
                }
                case 8:
                {
                    Slot& y = s[choose(nslots)];
                    if (!y.t || y.moved)
                        break;
                    note("swap t%u with another", xi);
                    bool yv = y.t->valid_tree();
                    {
                        Sut in;
                        if (chance(1, 2))
                            x.t->swap(*y.t);
                        else
                            swap(*x.t, *y.t);
                    }
                    std::swap(x.m, y.m);
                    SIM_CHECK(x.t->valid_tree() == yv && y.t->valid_tree() == was_valid, "fst:swap-index", "swap did not exchange the index state");
                    expect_reads(y, false);
                    break;
                }
                case 9:
                {
                    Slot& y = s[choose(nslots)];
                    if (!y.t || y.moved)
                        break;
                    bool eq = *x.t == *y.t;
                    bool exp = x.m.lo == y.m.lo && x.m.hi == y.m.hi && x.m.f == y.m.f;
                    SIM_CHECK(eq == exp, "fst:equality", "two trees compare %s although their mappings are %s", eq ? "equal" : "different", exp ? "the same" : "different");
                    if constexpr (std::is_same_v<V, int>)
                        SIM_CHECK((*x.t != *y.t) == !exp, "fst:equality", "operator!= disagrees");
                    break;
                }
            }
            if (!x.moved)
                expect_reads(x, built);
            if (mutated)
                nontrivial();
        }
        for (auto& x : s)
            if (x.t)
                drop(x);
    }
};

template<typename K, typename V> void go(Cfg c)
{
    World<K, V> w;
    w.cfg = c;
    w.run();
}
#if PART == 1
template void go<int, int>(Cfg);
template void go<long, std::string>(Cfg);
#elif PART == 2
template void go<double, HeapTok>(Cfg);
template void go<uint16_t, int>(Cfg);
#elif PART == 3
template void go<short, bool>(Cfg);
template void go<uint64_t, Tok>(Cfg);
#elif PART == 4
template void go<int, HeapTok>(Cfg);
#else
extern template void go<int, int>(Cfg);
extern template void go<long, std::string>(Cfg);
extern template void go<double, HeapTok>(Cfg);
extern template void go<uint16_t, int>(Cfg);
extern template void go<short, bool>(Cfg);
extern template void go<uint64_t, Tok>(Cfg);
extern template void go<int, HeapTok>(Cfg);
void dispatch(Cfg c)
{
    switch (choose(8))
    {
        case 0: note("types int -> int"); return go<int, int>(c);
        case 1: note("types long -> string"); return go<long, std::string>(c);
        case 2: note("types double -> value"); return go<double, HeapTok>(c);
        case 3: note("types uint16 -> int"); return go<uint16_t, int>(c);
        case 4: note("types short -> bool"); return go<short, bool>(c);
        case 5: note("types uint64 -> value"); return go<uint64_t, Tok>(c);
        default: note("types int -> value"); return go<int, HeapTok>(c);
    }
}
#endif
} // namespace hfst

#if !PART
using namespace hfst;
const std::vector<Prop>& sim::properties()
{
    static const std::vector<Prop> p{
        {"F01", [] { cmp_faults = false; dispatch({false, false}); }, 60000, 3000000, "a seeded history in which at least one operation changed a mapping"},
        {"F02", [] { cmp_faults = false; dispatch({false, true}); }, 60000, 3000000, "a seeded history in which at least one operation changed a mapping"},
        {"F03", [] { cmp_faults = false; dispatch({true, false}); }, 60000, 3000000, "a seeded history in which at least one operation was failed by an injected fault"},
    };
    return p;
}
#endif
