// Side-by-side iteration (mtv::collection) over vectors with histories, compared with a grid.
#include "sim.hpp"
#include "wander.hpp"
#include "tok.hpp"
#include <mdds/multi_type_vector.hpp>
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
#include <mdds/multi_type_vector/collection.hpp>
#include <algorithm>
#include <deque>
#include <list>
#include <memory>
#include <optional>

using namespace sim;
namespace hcoll {
namespace mtv = mdds::mtv;
constexpr int kTok = mtv::element_type_user_start;
struct CTok : HeapTok {
    using HeapTok::HeapTok;
    friend bool operator==(const CTok& a, const CTok& b) { return (const HeapTok&)a == (const HeapTok&)b; }
};
using TokBlk = mtv::default_element_block<kTok, CTok>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(CTok, kTok, CTok(), TokBlk)

struct Tr : mtv::default_traits {
    using block_funcs = mtv::element_block_funcs<mtv::int32_element_block, mtv::string_element_block, mtv::boolean_element_block, TokBlk>;
};
struct CowTr : Tr { static constexpr bool enable_cow = true; };

struct Cell {
    int t = 0, v = 0;   // type: 0 empty, 1 int, 2 string, 3 bool, 4 value
    bool operator==(const Cell& o) const { return t == o.t && (t == 0 || v == o.v); }
};
inline std::string mkstr(int v) { return "s" + std::to_string(v) + (v % 2 ? "-longer-than-the-small-string-buffer" : ""); }

template<typename V>
struct World {
    using C = mtv::collection<V>;
    using It = typename C::const_iterator;
    using M = std::vector<Cell>;
    static constexpr bool cow = std::is_same_v<V, mtv::soa::multi_type_vector<CowTr>>;
    std::vector<std::unique_ptr<V>> vs;
    std::vector<M> ms;
    struct Col {
        std::unique_ptr<C> c;
        std::vector<int> idx;
        size_t es = 0, en = 0, cs = 0, cn = 0;
    };
    std::vector<Col> cols;
    size_t n = 0;
    int next = 1;

    static mtv::element_t type_id(int t)
    {
        static const mtv::element_t ids[] = {mtv::element_type_empty, mtv::element_type_int32, mtv::element_type_string, mtv::element_type_boolean, kTok};
        return ids[t];
    }
    void put(V& v, size_t pos, const std::vector<Cell>& c)
    {
        // all of one type
        if (c.empty())
            return;
        auto seq = [&](auto mk) {
            std::vector<std::decay_t<decltype(mk(0))>> r;
            for (auto& x : c)
                r.push_back(mk(x.v));
            return r;
        };
        switch (c[0].t)
        {
            case 0: v.set_empty(pos, pos + c.size() - 1); break;
            case 1: { auto s = seq([](int x) { return (int32_t)x; }); if (s.size() == 1) v.set(pos, s[0]); else v.set(pos, s.begin(), s.end()); break; }
            case 2: { auto s = seq([](int x) { return mkstr(x); }); if (s.size() == 1) v.set(pos, s[0]); else v.set(pos, s.begin(), s.end()); break; }
            case 3: { std::deque<bool> s; for (auto& x : c) s.push_back(x.v); if (s.size() == 1) v.set(pos, (bool)s[0]); else v.set(pos, s.begin(), s.end()); break; }
            default: { auto s = seq([](int x) { return CTok(x); }); if (s.size() == 1) v.set(pos, s[0]); else v.set(pos, s.begin(), s.end()); break; }
        }
    }
    std::vector<Cell> rnd_cells(size_t len)
    {
        int t = (int)choose(5);
        std::vector<Cell> r(len);
        for (auto& c : r)
        {
            c.t = t;
            c.v = t == 3 ? (int)choose(2) : next++;
        }
        return r;
    }
    void mutate(size_t i)
    {
        V& v = *vs[i];
        M& m = ms[i];
        size_t p = choose((uint32_t)n), len = 1 + choose_small((uint32_t)(n - p));
        Sut in;
        switch (choose(5))
        {
            case 0: case 1: case 2:
            {
                auto c = rnd_cells(len);
                note("v%zu: %zu cells of type %d at %zu", i, len, c[0].t, p);
                put(v, p, c);
                std::copy(c.begin(), c.end(), m.begin() + p);
                break;
            }
            case 3:
            {
                // move a stretch out and put empty cells somewhere else: the length stays
                note("v%zu: erase %zu..%zu, then as many empty cells elsewhere", i, p, p + len - 1);
                if (len == n)
                    break;
                v.erase(p, p + len - 1);
                m.erase(m.begin() + p, m.begin() + p + len);
                size_t q = choose((uint32_t)m.size());
                v.insert_empty(q, len);
                m.insert(m.begin() + q, len, Cell());
                break;
            }
            default:
            {
                size_t j = choose((uint32_t)vs.size());
                if (j == i)
                    break;
                note("v%zu: swap %zu..%zu with v%zu", i, p, p + len - 1, j);
                v.swap(p, p + len - 1, *vs[j], p);
                std::swap_ranges(m.begin() + p, m.begin() + p + len, ms[j].begin() + p);
                break;
            }
        }
        nontrivial();
    }
    template<typename F> bool act(const char* what, F op)
    {
        FaultPlan p = choose_faults(1, 6, true, false, 4);
        bool ok = true;
        {
            Sut in(p);
            try { op(); }
            catch (const std::bad_alloc&) { ok = false; }
            catch (const std::exception& e) { fail("coll:unexpected-throw", "%s threw: %s", what, e.what()); }
            if (!ok && !in.fired())
                fail("coll:unexpected-throw", "%s threw although nothing failed", what);
        }
        if (!ok)
        {
            count("operations_failed_by_fault");
            note("  -> %s failed for lack of memory", what);
        }
        return ok;
    }
    template<typename F> void reject(const char* what, F op)
    {
        Sut in;
        try { op(); }
        catch (const mdds::invalid_arg_error&) { count("rejections"); return; }
        catch (const std::exception& e) { fail("coll:wrong-exception", "%s threw: %s", what, e.what()); }
        fail("coll:accepted", "%s was accepted", what);
    }
    // walks over the vectors themselves, as an iterator of a container of vectors does
    struct RefIt {
        using iterator_category = std::forward_iterator_tag;
        using value_type = V;
        using difference_type = std::ptrdiff_t;
        using pointer = V*;
        using reference = V&;
        V* const* p;
        V& operator*() const { return **p; }
        RefIt& operator++() { ++p; return *this; }
        RefIt operator++(int) { RefIt t = *this; ++p; return t; }
        bool operator==(const RefIt& o) const { return p == o.p; }
        bool operator!=(const RefIt& o) const { return p != o.p; }
    };
    std::unique_ptr<C> make(const std::vector<int>& idx)
    {
        // from pointers, smart pointers or the vectors themselves
        switch (choose(5))
        {
            case 4:
            {
                std::vector<V*> p;
                for (int i : idx) p.push_back(vs[i].get());
                return std::make_unique<C>(RefIt{p.data()}, RefIt{p.data() + p.size()});
            }
            case 0:
            {
                std::vector<const V*> p;
                for (int i : idx) p.push_back(vs[i].get());
                return std::make_unique<C>(p.begin(), p.end());
            }
            case 1:
            {
                std::list<std::shared_ptr<V>> p;
                for (int i : idx) p.emplace_back(vs[i].get(), [](V*) {});
                return std::make_unique<C>(p.begin(), p.end());
            }
            case 2:
            {
                std::deque<V*> p;
                for (int i : idx) p.push_back(vs[i].get());
                return std::make_unique<C>(p.begin(), p.end());
            }
            default:
            {
                // a contiguous stretch of the vectors is given as the owner keeps them
                bool run = true;
                for (size_t i = 1; i < idx.size(); ++i)
                    run = run && idx[i] == idx[i - 1] + 1;
                if (run && !idx.empty())
                    return std::make_unique<C>(vs.begin() + idx[0], vs.begin() + idx[0] + (long)idx.size());
                std::vector<V*> p;
                for (int i : idx) p.push_back(vs[i].get());
                return std::make_unique<C>(p.begin(), p.end());
            }
        }
    }
    void check_cell(const typename It::value_type& nd, const Col& c, size_t row, size_t col)
    {
        SIM_CHECK(nd.position == row, "coll:row", "visited row %zu where row %zu was due", (size_t)nd.position, row);
        SIM_CHECK(nd.index == col, "coll:column", "visited vector %zu where vector %zu was due (row %zu)", (size_t)nd.index, col, row);
        const Cell& e = ms[c.idx[col]][row];
        SIM_CHECK(nd.type == type_id(e.t), "coll:type", "row %zu of vector %zu has type %d, expected %d", row, col, (int)nd.type, (int)type_id(e.t));
        switch (e.t)
        {
            case 1: SIM_CHECK(nd.template get<mtv::int32_element_block>() == e.v, "coll:value", "row %zu of vector %zu has another value", row, col); break;
            case 2: SIM_CHECK(nd.template get<mtv::string_element_block>() == mkstr(e.v), "coll:value", "row %zu of vector %zu has another value", row, col); break;
            case 3: SIM_CHECK(nd.template get<mtv::boolean_element_block>() == (bool)e.v, "coll:value", "row %zu of vector %zu has another value", row, col); break;
            case 4:
            {
                CTok v = nd.template get<TokBlk>();
                v.alive("read");
                SIM_CHECK(v.v == e.v, "coll:value", "row %zu of vector %zu has another value", row, col);
                break;
            }
        }
    }
    void walk(Col& c)
    {
        if (!c.c)
            return;
        std::optional<It> it, end, keep;
        size_t keep_at = 0;
        if (!act("begin()", [&] { it.emplace(c.c->begin()); end.emplace(c.c->end()); }))
        {
            Sut in;
            it.reset(), end.reset();
            return;
        }
        size_t total = c.en * c.cn;
        size_t stop = chance(1, 6) ? choose((uint32_t)total + 1) : total;
        size_t mark = choose((uint32_t)total + 1);
        auto go = [&](It& x, size_t from, size_t to) {
            for (size_t k = from; k < to; ++k)
            {
                SIM_CHECK(!(x == *end), "coll:early-end", "iteration ended after %zu of %zu cells", k, total);
                size_t row = c.es + k / c.cn, col = c.cs + k % c.cn;
                if (&x == &*it && k == mark)
                {
                    Sut in;
                    keep.emplace(x);
                    keep_at = k;
                }
                if (k % 3 == 1)
                {
                    Sut in;
                    auto old = x++;
                    check_cell(*old, c, row, col);
                }
                else
                {
                    check_cell(*x, c, row, col);
                    SIM_CHECK(x->position == row, "coll:row", "operator-> and operator* differ");
                    Sut in;
                    ++x;
                }
            }
        };
        go(*it, 0, stop);
        if (stop == total)
            SIM_CHECK(*it == *end, "coll:late-end", "iteration goes on after all %zu cells", total);
        if (keep)
        {
            // a copy taken on the way goes on independently
            go(*keep, keep_at, total);
            SIM_CHECK(*keep == *end, "coll:late-end", "iteration from a copied iterator goes on after all cells");
        }
        if (chance(1, 4))
        {
            Sut in;
            Pause out;
            wander("coll:walk", stop == total ? c.c->begin() : *it, *end, total - (stop == total ? 0 : stop), [&](auto& x, size_t k) {
                k += stop == total ? 0 : stop;
                check_cell(*x, c, c.es + k / c.cn, c.cs + k % c.cn);
            }, false);
        }
        count("walks");
        count("cells_visited", stop);
        Sut in;
        it.reset(), end.reset(), keep.reset();
    }
    void run()
    {
        n = 1 + choose(chance(1, 5) ? 60 : 14);
        size_t nv = 1 + choose(5);
        {
            Sut in;
            for (size_t i = 0; i < nv; ++i)
            {
                vs.push_back(std::make_unique<V>(n));
                ms.emplace_back(n);
            }
        }
        cols.resize(1 + choose(3));
        uint32_t len = 20 + choose(60);
        while (more(len))
        {
            Col& c = cols[choose((uint32_t)cols.size())];
            int ci = (int)(&c - cols.data());
            switch (weighted({30, 8, 8, 8, 14, 4, 4, 3, 2}))
            {
                case 0:
                    mutate(choose((uint32_t)nv));
                    break;
                case 1:
                {
                    std::vector<int> idx;
                    for (size_t i = 0; i < nv; ++i)
                        if (chance(2, 3))
                            idx.push_back((int)i);
                    if (chance(1, 3))
                        for (size_t i = idx.size(); i-- > 1;)
                            std::swap(idx[i], idx[choose((uint32_t)i + 1)]);
                    std::unique_ptr<C> nc;
                    note("c%d: collection of %zu vectors", ci, idx.size());
                    if (act("construction", [&] { nc = make(idx); }))
                    {
                        Sut in;
                        c.c.swap(nc);
                        nc.reset();
                        c.idx = idx;
                        c.es = 0, c.en = idx.empty() ? 0 : n;
                        c.cs = 0, c.cn = idx.size();
                        SIM_CHECK(c.c->size() == (idx.empty() ? 0 : n), "coll:size", "size()=%zu", (size_t)c.c->size());
                    }
                    break;
                }
                case 2:
                    if (c.c && !c.idx.empty())
                    {
                        size_t s = choose((uint32_t)n), k = 1 + choose((uint32_t)(n - s));
                        note("c%d: rows %zu..%zu", ci, s, s + k - 1);
                        Sut in;
                        c.c->set_element_range(s, k);
                        c.es = s, c.en = k;
                    }
                    break;
                case 3:
                    if (c.c && !c.idx.empty())
                    {
                        size_t s = choose((uint32_t)c.idx.size()), k = 1 + choose((uint32_t)(c.idx.size() - s));
                        note("c%d: vectors %zu..%zu", ci, s, s + k - 1);
                        Sut in;
                        c.c->set_collection_range(s, k);
                        c.cs = s, c.cn = k;
                    }
                    break;
                case 4:
                    note("c%d: walk", ci);
                    walk(c);
                    break;
                case 5:
                {
                    Col& d = cols[choose((uint32_t)cols.size())];
                    if (!c.c || !d.c)
                        break;
                    note("swap two collections");
                    Sut in;
                    c.c->swap(*d.c);
                    std::swap(c.idx, d.idx);
                    std::swap(c.es, d.es), std::swap(c.en, d.en), std::swap(c.cs, d.cs), std::swap(c.cn, d.cn);
                    walk(d);
                    break;
                }
                case 6:
                {
                    Col& d = cols[choose((uint32_t)cols.size())];
                    if (!c.c || &c == &d)
                        break;
                    note("c%d: copied", ci);
                    std::unique_ptr<C> nc;
                    if (act("copy", [&] { nc = std::make_unique<C>(*c.c); }))
                    {
                        Sut in;
                        d.c.swap(nc);
                        nc.reset();
                        d.idx = c.idx;
                        d.es = c.es, d.en = c.en, d.cs = c.cs, d.cn = c.cn;
                    }
                    break;
                }
                case 7:
                    // invalid ranges leave the selection as it is
                    if (c.c)
                    {
                        size_t big = ~size_t(0), w = c.idx.size(), rows = w ? n : 0;
                        note("c%d: invalid ranges", ci);
                        switch (choose(8))
                        {
                            case 0: reject("a range of no rows", [&] { c.c->set_element_range(choose((uint32_t)n), 0); }); break;
                            case 1: reject("a range of rows that starts at the end", [&] { c.c->set_element_range(rows + choose(3), 1); }); break;
                            case 2: { size_t s = choose((uint32_t)n); reject("a range of rows that is too long", [&] { c.c->set_element_range(s, n - s + 1 + choose(3)); }); break; }
                            case 3: { size_t s = choose((uint32_t)n); reject("a range of rows that is much too long", [&] { c.c->set_element_range(s, big - choose((uint32_t)s + 1)); }); break; }
                            case 4: reject("a range of no vectors", [&] { c.c->set_collection_range(w ? choose((uint32_t)w) : 0, 0); }); break;
                            case 5: reject("a range of vectors that starts at the end", [&] { c.c->set_collection_range(w + choose(3), 1); }); break;
                            case 6: { size_t s = w ? choose((uint32_t)w) : 0; reject("a range of vectors that is too long", [&] { c.c->set_collection_range(s, w - s + 1 + choose(3)); }); break; }
                            default: { size_t s = w ? choose((uint32_t)w) : 0; reject("a range of vectors that is much too long", [&] { c.c->set_collection_range(s, big - choose((uint32_t)s + 1)); }); break; }
                        }
                        walk(c);
                    }
                    break;
                case 8:
                {
                    // unequal lengths, or an empty vector
                    std::vector<const V*> p;
                    for (auto& v : vs)
                        p.push_back(v.get());
                    bool none = chance(1, 3);
                    V odd(none ? 0 : n + 1 + choose(3));
                    if (none && chance(1, 3))
                        p.clear();
                    V shorter(n > 1 ? n - 1 : n + 1);
                    p.insert(p.begin() + choose((uint32_t)p.size() + 1), none ? &odd : chance(1, 2) ? &odd : &shorter);
                    if (!none && p.size() < 2)
                        break;
                    note("collection of unequal vectors");
                    reject("a set of vectors of different lengths, or an empty one", [&] { C x(p.begin(), p.end()); });
                    break;
                }
            }
            uint64_t h = 1;
            for (auto& m : ms)
                for (auto& x : m)
                    h = mix(h, x.t);
            state(mix(h, c.es * 1000 + c.en * 100 + c.cs * 10 + c.cn));
        }
        for (auto& c : cols)
            walk(c);
        Sut in;
        for (auto& c : cols)
            c.c.reset();
        cols.clear();
        vs.clear();
    }
};
template<int N> void go();
#if PART == 1
template<> void go<0>() { note("vectors in the soa layout"); World<mtv::soa::multi_type_vector<Tr>>().run(); }
#elif PART == 2
template<> void go<1>() { note("vectors in the aos layout"); World<mtv::aos::multi_type_vector<Tr>>().run(); }
#elif PART == 3
template<> void go<2>() { note("copy-on-write vectors"); World<mtv::soa::multi_type_vector<CowTr>>().run(); }
#else
template<> void go<0>();
template<> void go<1>();
template<> void go<2>();
void dispatch()
{
    cmp_faults = false;
    switch (choose(3))
    {
        case 0: return go<0>();
        case 1: return go<1>();
        default: return go<2>();
    }
}
#endif
} // namespace hcoll
#if PART == 0
const std::vector<Prop>& sim::properties()
{
    static const std::vector<Prop> p{
        {"M10", [] { hcoll::dispatch(); }, 120000, 12000000, "a seeded history that changes the vectors being iterated"},
    };
    return p;
}
#endif
