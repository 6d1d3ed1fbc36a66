// A small family of multi_type_vectors under a simulated history, compared with plain sequences.
#pragma once
#include "mtv_common.hpp"

namespace sim {

enum { kContent = 0, kHints = 1, kEvents = 2, kManaged = 3, kFaults = 4, kCow = 5, kCowFaults = 6, kBroken = 7 };

template<typename V, bool Cow, bool Eager, typename... Ks>
struct MtvWorld {
    using Block = mdds::mtv::base_element_block;
    using It = typename V::iterator;
    using CIt = typename V::const_iterator;
    static constexpr int NK = sizeof...(Ks);
    struct Cell {
        int k = -1, v = 0;
        const void* p = nullptr;
        bool operator==(const Cell&) const = default;
    };
    using M = std::vector<Cell>;
    struct Slot { std::unique_ptr<V> v; M m; bool moved = false; It last{}; bool has_last = false, set_now = false; };
    std::vector<Slot> s;
    int mode = 0;
    size_t cap = 20;
    int nvals = 4;
    uint32_t hint_pct = 40;

    template<typename F> static void with(int k, F f)
    {
        int i = 0;
        ((i++ == k ? (void)f(Ks{}) : (void)0), ...);
    }
    template<typename K> static int index_of()
    {
        int i = 0, r = -1;
        ((std::is_same_v<K, Ks> ? (void)(r = i++) : (void)i++), ...);
        return r;
    }
    static mdds::mtv::element_t type_of(int k)
    {
        mdds::mtv::element_t t = mdds::mtv::element_type_empty;
        if (k >= 0)
            with(k, [&]<typename K>(K) { t = K::Blk::block_type; });
        return t;
    }
    static bool kind_managed(int k) { bool r = false; if (k >= 0) with(k, [&]<typename K>(K) { r = K::managed; }); return r; }
    static bool kind_copyable(int k) { bool r = true; if (k >= 0) with(k, [&]<typename K>(K) { r = K::copyable; }); return r; }
    static bool kind_clonable(int k) { bool r = true; if (k >= 0) with(k, [&]<typename K>(K) { r = K::clonable; }); return r; }
    static bool copyable(const M& m) { return std::all_of(m.begin(), m.end(), [](const Cell& c) { return kind_copyable(c.k); }); }
    static bool clonable(const M& m) { return std::all_of(m.begin(), m.end(), [](const Cell& c) { return kind_clonable(c.k); }); }
    static bool has_managed(const M& m) { return std::any_of(m.begin(), m.end(), [](const Cell& c) { return kind_managed(c.k); }); }

    // ------------------------------------------------------------ reading
    static Cell cell_of(const Block* data, mdds::mtv::element_t t, size_t off)
    {
        Cell c;
        if (!data)
            return c;
        bool known = false;
        for (int k = 0; k < NK; ++k)
            if (type_of(k) == t)
            {
                known = true;
                with(k, [&]<typename K>(K) {
                    auto it = K::Blk::cbegin(*data);
                    std::advance(it, off);
                    typename K::T x = *it;
                    c.k = k, c.v = K::val(x), c.p = K::ptr(x);
                });
            }
        SIM_CHECK(known, "mtv:block-type", "a block of unknown type %d", (int)t);
        return c;
    }
    static size_t data_size(const Block* data, mdds::mtv::element_t t)
    {
        size_t n = 0;
        for (int k = 0; k < NK; ++k)
            if (type_of(k) == t)
                with(k, [&]<typename K>(K) { n = K::Blk::size(*data); });
        return n;
    }
    struct Run { mdds::mtv::element_t t; size_t pos, size; const Block* data; };
    static M read(const V& v, std::vector<Run>* out = nullptr)
    {
        M m;
        const Block* last = nullptr;
        bool first = true;
        mdds::mtv::element_t lt = 0;
        for (auto it = v.begin(), ite = v.end(); it != ite; ++it)
        {
            SIM_CHECK(m.size() < 100000, "mtv:cycle", "iteration over blocks does not end");
            SIM_CHECK(it->position == m.size(), "mtv:block-position", "block position %zu, expected %zu", (size_t)it->position, m.size());
            SIM_CHECK(it->size > 0, "mtv:empty-block", "a block of size zero at %zu", (size_t)it->position);
            SIM_CHECK((it->data == nullptr) == (it->type == mdds::mtv::element_type_empty), "mtv:block-type", "block data and type disagree at %zu", m.size());
            SIM_CHECK(first || it->type != lt, "mtv:not-merged", "two adjacent blocks of type %d meet at %zu", (int)lt, m.size());
            if (it->data)
            {
                SIM_CHECK(mdds::mtv::get_block_type(*it->data) == it->type, "mtv:block-type", "the iterator's type differs from the block's type");
                size_t n = data_size(it->data, it->type);
                SIM_CHECK(n == it->size, "mtv:block-size", "the block at %zu stores %zu elements, announced %zu", m.size(), n, (size_t)it->size);
            }
            first = false, lt = it->type, last = it->data;
            if (out)
                out->push_back({it->type, it->position, it->size, it->data});
            for (size_t i = 0; i < it->size; ++i)
                m.push_back(cell_of(it->data, it->type, i));
        }
        (void)last;
        return m;
    }
    template<typename I> static bool same(const I& it, const Run& r)
    {
        return it->position == r.pos && it->size == r.size && it->data == r.data && it->type == r.t;
    }
    void brief(const char* what, const M& got, const M& want)
    {
        size_t i = 0;
        while (i < got.size() && i < want.size() && got[i].k == want[i].k && got[i].v == want[i].v && (Cow || got[i].p == want[i].p))
            ++i;
        auto sh = [](const M& m, size_t i) { return i >= m.size() ? std::string("nothing") : m[i].k < 0 ? std::string("empty") : "kind " + std::to_string(m[i].k) + " value " + std::to_string(m[i].v); };
        fail("mtv:content", "%s: size %zu expected %zu; position %zu has %s, expected %s%s", what, got.size(), want.size(), i, sh(got, i).c_str(), sh(want, i).c_str(),
             i < got.size() && i < want.size() && got[i].k == want[i].k && got[i].v == want[i].v ? " (another object)" : "");
    }
    // Reads a container that may have been given new objects (copy, clone, un-sharing): same kinds
    // and values, any objects.
    void adopt(Slot& x, const char* what)
    {
        M got = read(*x.v);
        bool ok = got.size() == x.m.size();
        for (size_t i = 0; ok && i < got.size(); ++i)
            ok = got[i].k == x.m[i].k && got[i].v == x.m[i].v;
        if (!ok)
        {
            for (auto& c : x.m) c.p = nullptr;
            for (auto& c : got) c.p = nullptr;
            brief(what, got, x.m);
        }
        x.m = got;
    }
    void expect(Slot& x, bool deep)
    {
        const V& cv = *x.v;
        std::vector<Run> runs;
        M got = read(cv, &runs);
        if (Cow)
        {
            SIM_CHECK(got.size() == x.m.size(), "mtv:content", "size by iteration %zu expected %zu", got.size(), x.m.size());
            for (size_t i = 0; i < got.size(); ++i)
                x.m[i].p = got[i].p;
        }
        if (!(got == x.m))
            brief("content", got, x.m);
        SIM_CHECK(cv.size() == x.m.size(), "mtv:size", "size()=%zu expected %zu", (size_t)cv.size(), x.m.size());
        SIM_CHECK(cv.empty() == x.m.empty(), "mtv:empty", "empty()=%d for %zu elements", cv.empty(), x.m.size());
        SIM_CHECK(cv.block_size() == runs.size(), "mtv:block-count", "block_size()=%zu for %zu blocks", (size_t)cv.block_size(), runs.size());
        // the event ledger holds exactly the blocks
        if (g_ledger_on)
        {
            std::vector<std::pair<const Block*, mdds::mtv::element_t>> bl;
            for (auto& r : runs)
                if (r.data)
                    bl.push_back({r.data, r.t});
            x.v->event_handler().settle(bl);
        }
        uint64_t h = runs.size();
        if (h > 16) count(h > 40 ? "layouts_over_40_blocks" : "layouts_over_16_blocks");
        for (auto& c : x.m) h = mix(h, c.k * 64 + c.v);
        state(h);
        if (deep)
            deep_read(x, runs);
    }
    void deep_read(Slot& x, const std::vector<Run>& runs)
    {
        V& v = *x.v;
        const V& cv = v;
        // backwards, and reverse iterators
        {
            size_t i = runs.size();
            for (auto it = cv.end(), b = cv.begin(); it != b;)
            {
                --it;
                SIM_CHECK(i > 0 && same(it, runs[i - 1]), "mtv:backward", "backward iteration differs at block %zu", i);
                --i;
            }
            SIM_CHECK(i == 0, "mtv:backward", "backward iteration stops at block %zu", i);
            i = runs.size();
            for (auto it = cv.rbegin(), e = cv.rend(); it != e; ++it)
            {
                SIM_CHECK(i > 0 && same(it, runs[i - 1]), "mtv:reverse", "reverse iteration differs at block %zu", i);
                --i;
            }
            SIM_CHECK(i == 0, "mtv:reverse", "reverse iteration stops at block %zu", i);
            if constexpr (!Cow)
            {
                i = 0;
                for (auto it = v.begin(), e = v.end(); it != e; ++it, ++i)
                    SIM_CHECK(i < runs.size() && same(it, runs[i]), "mtv:mutable-iteration", "mutable iteration differs at block %zu", i);
                SIM_CHECK(i == runs.size(), "mtv:mutable-iteration", "mutable iteration ends at block %zu", i);
                i = runs.size();
                for (auto it = v.rbegin(), e = v.rend(); it != e; ++it, --i)
                    SIM_CHECK(i > 0 && same(it, runs[i - 1]), "mtv:reverse", "mutable reverse iteration differs at block %zu", i);
            }
            if (chance(1, 4))
            {
                size_t nr = runs.size();
                auto fw = [&](auto& it, size_t at) { SIM_CHECK(same(it, runs[at]) && (*it).position == runs[at].pos && it->__private_data.block_index == at, "mtv:walk", "an iterator at block %zu of %zu shows another block", at, nr); };
                auto bw = [&](auto& it, size_t at) { SIM_CHECK(same(it, runs[nr - 1 - at]), "mtv:walk", "a reverse iterator at place %zu of %zu shows another block", at, nr); };
                switch (choose(Cow ? 2 : 4))
                {
                    case 0: wander("mtv:walk", cv.begin(), cv.end(), nr, fw); break;
                    case 1: wander("mtv:walk", cv.rbegin(), cv.rend(), nr, bw); break;
                    case 2: if constexpr (!Cow) wander("mtv:walk", v.begin(), v.end(), nr, fw); break;
                    case 3: if constexpr (!Cow) wander("mtv:walk", v.rbegin(), v.rend(), nr, bw); break;
                }
            }
        }
        size_t n = x.m.size();
        // every position, by every way of reading
        size_t ri = 0;
        auto walk = cv.position(0);
        for (size_t pos = 0; pos < n; ++pos)
        {
            while (pos >= runs[ri].pos + runs[ri].size) ++ri;
            const Cell& c = x.m[pos];
            SIM_CHECK(cv.get_type(pos) == type_of(c.k), "mtv:get_type", "get_type(%zu)=%d expected %d", pos, (int)cv.get_type(pos), (int)type_of(c.k));
            SIM_CHECK(cv.is_empty(pos) == (c.k < 0), "mtv:is_empty", "is_empty(%zu) wrong", pos);
            auto p = cv.position(pos);
            check_pos<V>(p, pos, runs[ri], "position()");
            check_pos<V>(walk, pos, runs[ri], "next_position()");
            walk = V::next_position(walk);
            if (c.k >= 0)
                with(c.k, [&]<typename K>(K) {
                    typename K::T a = cv.template get<typename K::T>(pos), b{};
                    cv.get(pos, b);
                    typename K::T d = V::template get<typename K::Blk>(p);
                    SIM_CHECK(K::val(a) == c.v && K::val(b) == c.v && K::val(d) == c.v, "mtv:get", "get(%zu) gives %d/%d/%d expected %d", pos, K::val(a), K::val(b), K::val(d), c.v);
                    SIM_CHECK(V::get_element_type(a) == type_of(c.k), "mtv:get_type", "get_element_type wrong");
                });
            else
                with(0, [&]<typename K>(K) {   // an empty element reads as the type's empty value
                    typename K::T e{};
                    typename K::T z = cv.template get<typename K::T>(pos);
                    SIM_CHECK(z == e, "mtv:get-empty", "get(%zu) of an empty element is not the empty value", pos);
                });
        }
        SIM_CHECK(walk.first == cv.end(), "mtv:next_position", "next_position does not arrive at the end");
        SIM_CHECK(cv.position(n).first == cv.end() && cv.position(n).second == 0, "mtv:position-end", "position(size()) is not the end");
        // hinted lookups and jumps
        for (int t = 0; t < 3; ++t)
        {
            size_t pos = choose((uint32_t)n + 1);
            auto h = cv.begin();
            std::advance(h, choose((uint32_t)runs.size() + 1));
            auto p = cv.position(h, pos);
            if (pos == n)
                SIM_CHECK(p.first == cv.end() && p.second == 0, "mtv:position-end", "position(hint, size()) is not the end");
            else
                check_pos<V>(p, pos, run_at(runs, pos), "position(hint)");
            if constexpr (!Cow)
            {
                auto mp = v.position(hint(x), pos);
                auto mq = v.position(pos);
                SIM_CHECK(mp == mq, "mtv:hint-position", "position(hint,%zu) differs from position(%zu)", pos, pos);
                if (pos < n)
                    check_pos<V>(mp, pos, run_at(runs, pos), "mutable position(hint)");
            }
            if (n)
            {
                size_t a = choose((uint32_t)n), b = choose((uint32_t)n + 1);
                auto q = V::advance_position(cv.position(a), (int)b - (int)a);
                if (b == n)
                    SIM_CHECK(q.first == cv.end(), "mtv:advance", "advance_position from %zu by %d is not the end", a, (int)b - (int)a);
                else
                    check_pos<V>(q, b, run_at(runs, b), "advance_position");
                SIM_CHECK(V::logical_position(cv.position(a)) == a, "mtv:logical", "logical_position wrong");
            }
        }
    }
    static const Run& run_at(const std::vector<Run>& runs, size_t pos)
    {
        size_t i = 0;
        while (pos >= runs[i].pos + runs[i].size) ++i;
        return runs[i];
    }
    template<typename VV, typename P> static void check_pos(const P& p, size_t pos, const Run& r, const char* what)
    {
        SIM_CHECK(p.first->position == r.pos && p.first->size == r.size && p.first->data == r.data && p.first->type == r.t && p.second == pos - r.pos,
                  "mtv:position", "%s for %zu gives block at %zu offset %zu, expected block at %zu", what, pos, (size_t)p.first->position, (size_t)p.second, r.pos);
    }
    // Every object that exists is owned by exactly one element (without sharing), and no other is left.
    void census()
    {
        std::set<const void*> seen;
        size_t n = 0;
        for (auto& x : s)
        {
            if (x.moved)
                continue;
            for (auto& c : x.m)
                if (c.k >= 0 && kind_managed(c.k))
                {
                    SIM_CHECK(g_objs.count(c.p), "mtv:dead-object", "an element refers to an object that was deleted");
                    n += seen.insert(c.p).second;
                    if (!Cow)
                        SIM_CHECK(n == seen.size(), "mtv:owned-twice", "two elements own the same object");
                }
        }
        if (!Cow)
        {
            size_t total = 0;
            for (auto& x : s)
                for (auto& c : x.m)
                    total += !x.moved && kind_managed(c.k);
            SIM_CHECK(total == seen.size(), "mtv:owned-twice", "two elements own the same object");
        }
        SIM_CHECK(g_objs.size() == seen.size(), "mtv:object-leak", "%zu objects exist, %zu are owned by elements", g_objs.size(), seen.size());
    }
    void check_all(size_t deep)
    {
        for (size_t i = 0; i < s.size(); ++i)
            if (!s[i].moved)
                expect(s[i], i == deep);
        census();
    }
    // ------------------------------------------------------------ hints
    It hint(Slot& x)
    {
        if constexpr (!Cow)
        {
            auto it = x.v->begin();
            uint32_t n = choose((uint32_t)x.v->block_size() + 1);
            for (uint32_t i = 0; i < n; ++i)
                ++it;
            return it;
        }
        else
        {
            // With copy-on-write, mutable iterators come only from mutators.
            It it = x.last;
            for (uint32_t n = choose_small(4); n-- && it->position + it->size < x.m.size();)
                ++it;
            for (uint32_t n = choose_small(4); n-- && it->position > 0;)
                --it;
            return it;
        }
    }
    void check_ret(Slot& x, const It& it, size_t pos, const char* what)
    {
        // the returned iterator refers to the block that now contains pos
        x.last = it;
        x.set_now = true;
        std::vector<Run> runs;
        read(*x.v, &runs);
        SIM_CHECK(pos < (runs.empty() ? 0 : runs.back().pos + runs.back().size), "mtv:returned", "%s: nothing at %zu", what, pos);
        const Run& r = run_at(runs, pos);
        SIM_CHECK(same(it, r), "mtv:returned", "%s returned the block at %zu size %zu, expected the block at %zu size %zu", what, (size_t)it->position, (size_t)it->size, r.pos, r.size);
        // ... and can be walked from there in both directions
        size_t i = 0;
        while (runs[i].pos != r.pos) ++i;
        It a = it;
        for (size_t j = i + 1; j < runs.size(); ++j)
        {
            ++a;
            SIM_CHECK(same(a, runs[j]), "mtv:returned-walk", "walking forward from the iterator returned by %s goes astray", what);
        }
        a = it;
        for (size_t j = i; j-- > 0;)
        {
            --a;
            SIM_CHECK(same(a, runs[j]), "mtv:returned-walk", "walking back from the iterator returned by %s goes astray", what);
        }
        if constexpr (!Cow)
        {
            auto b = x.v->begin();
            std::advance(b, i);
            SIM_CHECK(it == b, "mtv:returned", "the iterator returned by %s differs from one obtained by walking", what);
        }
    }
    static bool is_end(const V& v, const It& it) { return CIt(it) == v.end(); }

    // Runs an operation that must not throw.
    template<typename F> void act(const char* what, F op)
    {
        Sut in;
        try { op(); }
        catch (const std::exception& e) { fail("mtv:unexpected-throw", "%s threw: %s", what, e.what()); }
    }
    // Runs a request that must be rejected with the documented exception.
    template<typename E, typename F> void reject(const char* what, F op)
    {
        count("rejected_requests");
        bool ok = false;
        {
            Sut in;
            try { op(); }
            catch (const E&) { ok = true; }
            catch (const std::exception& e) { fail("mtv:wrong-exception", "%s was rejected with: %s", what, e.what()); }
        }
        SIM_CHECK(ok, "mtv:not-rejected", "%s was not rejected", what);
    }
    bool use_hint(const Slot& x) { return chance(hint_pct, 100) && (!Cow || x.has_last); }
    // a kind, biased towards the kind next to where we write, so that merging happens
    int pick_kind(const Slot& x, size_t pos)
    {
        if (chance(1, 2) && !x.m.empty())
        {
            size_t p = std::min(pos, x.m.size() - 1);
            size_t q = p + choose(3);
            q = q ? q - 1 : 0;
            q = std::min(q, x.m.size() - 1);
            if (x.m[q].k >= 0)
                return x.m[q].k;
        }
        return (int)choose(NK);
    }
    template<typename K> static auto make_seq(int n, const std::vector<int>& vs)
    {
        std::deque<typename K::T> q;
        for (int i = 0; i < n; ++i)
            q.push_back(K::make(vs[i]));
        return q;
    }
    template<typename K> Cell mk_cell(const typename K::T& x) { return {index_of<K>(), K::val(x), K::ptr(x)}; }
    std::vector<int> vals(int n)
    {
        std::vector<int> r;
        for (int i = 0; i < n; ++i)
            r.push_back((int)choose(nvals));
        return r;
    }
    int len_up_to(size_t n) { return n == 0 ? 0 : 1 + (int)choose_small((uint32_t)n); }
    // A range [a,b] inside n elements; often aligned to block edges.
    std::pair<size_t, size_t> some_range(const Slot& x)
    {
        size_t n = x.m.size();
        size_t a = some_pos(x), b;
        if (chance(1, 3))
        {
            b = some_pos(x);
            if (a > b) std::swap(a, b);
        }
        else
            b = std::min(n - 1, a + choose_small((uint32_t)(n - a)));
        return {a, b};
    }
    size_t some_pos(const Slot& x)
    {
        size_t n = x.m.size();
        size_t p = choose((uint32_t)n);
        if (chance(1, 2))
        {
            // snap to a block edge
            while (p > 0 && x.m[p - 1].k == x.m[p].k) --p;
            if (p && chance(1, 2)) --p;
        }
        return p;
    }
    bool refuses_unshare(const Slot&) { return false; }
    bool shares(const Slot& x)
    {
        if (!Cow) return false;
        std::set<const void*> mine;
        for (auto it = x.v->cbegin(); it != x.v->cend(); ++it)
            if (it->data) mine.insert(it->data);
        for (auto& y : s)
            if (&y != &x && !y.moved)
                for (auto it = y.v->cbegin(); it != y.v->cend(); ++it)
                    if (it->data && mine.count(it->data))
                        return true;
        return false;
    }

    // ------------------------------------------------------------ operations
    void op_set(Slot& x, uint32_t xi)
    {
        if (x.m.empty()) return;
        size_t pos = some_pos(x);
        int k = pick_kind(x, pos);
        bool h = use_hint(x);
        auto vs = vals(1);
        note("v%u: set(%zu) kind %d value %d%s", xi, pos, k, vs[0], h ? " with a hint" : "");
        with(k, [&]<typename K>(K) {
            It it, hh;
            if (h) hh = hint(x);
            act("set", [&] {
                typename K::T val = K::make(vs[0]);
                { Pause p; x.m[pos] = mk_cell<K>(val); }
                it = h ? x.v->set(hh, pos, val) : x.v->set(pos, val);
            });
            check_ret(x, it, pos, "set");
        });
    }
    // Many small steps in a row at neighbouring places, as a loop over the elements makes them.
    void op_burst(Slot& x, uint32_t xi)
    {
        if (x.m.empty()) return;
        uint32_t how = choose(5);
        size_t pos = some_pos(x);
        int k = pick_kind(x, pos);
        int n = 3 + (int)choose(18);
        auto vs = vals(n);
        static const char* names[] = {"sets upward", "sets downward", "set_empty upward", "erase", "push_back and sets"};
        note("v%u: %d steps from %zu, %s, kind %d", xi, n, pos, names[how], k);
        for (int i = 0; i < n; ++i)
        {
            if (how == 3)
            {
                if (pos >= x.m.size()) return;
                x.m.erase(x.m.begin() + pos);
                act("erase", [&] { x.v->erase(pos, pos); });
                continue;
            }
            if (how == 4 && x.m.size() < cap)
            {
                with(k, [&]<typename K>(K) {
                    act("push_back", [&] {
                        typename K::T val = K::make(vs[i]);
                        { Pause p; x.m.push_back(mk_cell<K>(val)); }
                        x.v->push_back(val);
                    });
                });
            }
            if (how == 2)
            {
                x.m[pos] = Cell{};
                act("set_empty", [&] { x.v->set_empty(pos, pos); });
            }
            else
                with(k, [&]<typename K>(K) {
                    act("set", [&] {
                        typename K::T val = K::make(vs[i]);
                        { Pause p; x.m[pos] = mk_cell<K>(val); }
                        x.v->set(pos, val);
                    });
                });
            if (how == 1)
            {
                if (!pos) return;
                --pos;
            }
            else if (++pos >= x.m.size())
                return;
        }
    }
    void op_set_range(Slot& x, uint32_t xi)
    {
        if (x.m.empty()) return;
        auto [a, b] = some_range(x);
        int n = (int)(b - a + 1);
        if (chance(1, 25)) n = 0;
        int k = pick_kind(x, a);
        bool h = use_hint(x);
        auto vs = vals(n);
        note("v%u: set(%zu, %d values) kind %d%s", xi, a, n, k, h ? " with a hint" : "");
        with(k, [&]<typename K>(K) {
            It it, hh;
            if (h) hh = hint(x);
            act("set range", [&] {
                auto q = make_seq<K>(n, vs);
                {
                    Pause p;
                    for (int i = 0; i < n; ++i) x.m[a + i] = mk_cell<K>(q[i]);
                }
                it = h ? x.v->set(hh, a, q.begin(), q.end()) : x.v->set(a, q.begin(), q.end());
            });
            if (n)
                check_ret(x, it, a, "set range");
            else
                SIM_CHECK(is_end(*x.v, it), "mtv:returned", "set of no values does not return the end");
        });
    }
    void op_insert_range(Slot& x, uint32_t xi)
    {
        if (x.m.empty() || x.m.size() >= cap) return;
        size_t pos = some_pos(x);
        int n = len_up_to(cap - x.m.size());
        if (chance(1, 25)) n = 0;
        int k = pick_kind(x, pos);
        bool h = use_hint(x);
        auto vs = vals(n);
        note("v%u: insert(%zu, %d values) kind %d%s", xi, pos, n, k, h ? " with a hint" : "");
        with(k, [&]<typename K>(K) {
            It it, hh;
            if (h) hh = hint(x);
            act("insert", [&] {
                auto q = make_seq<K>(n, vs);
                {
                    Pause p;
                    M ins;
                    for (auto& e : q) ins.push_back(mk_cell<K>(e));
                    x.m.insert(x.m.begin() + pos, ins.begin(), ins.end());
                }
                it = h ? x.v->insert(hh, pos, q.begin(), q.end()) : x.v->insert(pos, q.begin(), q.end());
            });
            if (n)
                check_ret(x, it, pos, "insert");
            else
                SIM_CHECK(is_end(*x.v, it), "mtv:returned", "insert of no values does not return the end");
        });
    }
    void op_push_back(Slot& x, uint32_t xi)
    {
        if (x.m.size() >= cap) return;
        uint32_t how = choose(4);
        if (how == 3)
        {
            note("v%u: push_back_empty", xi);
            It it;
            x.m.push_back({});
            act("push_back_empty", [&] { it = x.v->push_back_empty(); });
            check_ret(x, it, x.m.size() - 1, "push_back_empty");
            return;
        }
        int k = pick_kind(x, x.m.size());
        auto vs = vals(1);
        note("v%u: %s kind %d value %d", xi, how == 0 ? "push_back" : how == 1 ? "push_back (moved)" : "emplace_back", k, vs[0]);
        with(k, [&]<typename K>(K) {
            It it;
            act("push_back", [&] {
                typename K::T val = K::make(vs[0]);
                { Pause p; x.m.push_back(mk_cell<K>(val)); }
                if constexpr (!K::managed)
                    if (how == 2)
                    {
                        it = x.v->template emplace_back<typename K::T>(val);
                        return;
                    }
                if (how == 0)
                    it = x.v->push_back(val);
                else
                    it = x.v->push_back(std::move(val));
            });
            check_ret(x, it, x.m.size() - 1, "push_back");
        });
    }
    void op_insert_empty(Slot& x, uint32_t xi)
    {
        if (x.m.empty() || x.m.size() >= cap) return;
        size_t pos = some_pos(x);
        int n = len_up_to(cap - x.m.size());
        if (chance(1, 20)) n = 0;
        bool h = use_hint(x);
        note("v%u: insert_empty(%zu, %d)%s", xi, pos, n, h ? " with a hint" : "");
        It it, hh;
        if (h) hh = hint(x);
        x.m.insert(x.m.begin() + pos, n, Cell{});
        act("insert_empty", [&] { it = h ? x.v->insert_empty(hh, pos, n) : x.v->insert_empty(pos, n); });
        if (n)
            check_ret(x, it, pos, "insert_empty");
        else
            SIM_CHECK(is_end(*x.v, it), "mtv:returned", "insert_empty of nothing does not return the end");
    }
    void op_set_empty(Slot& x, uint32_t xi)
    {
        if (x.m.empty()) return;
        auto [a, b] = some_range(x);
        bool h = use_hint(x);
        note("v%u: set_empty(%zu, %zu)%s", xi, a, b, h ? " with a hint" : "");
        It it, hh;
        if (h) hh = hint(x);
        std::fill(x.m.begin() + a, x.m.begin() + b + 1, Cell{});
        act("set_empty", [&] { it = h ? x.v->set_empty(hh, a, b) : x.v->set_empty(a, b); });
        check_ret(x, it, a, "set_empty");
    }
    void op_erase(Slot& x, uint32_t xi)
    {
        if (x.m.empty()) return;
        auto [a, b] = some_range(x);
        note("v%u: erase(%zu, %zu)", xi, a, b);
        x.m.erase(x.m.begin() + a, x.m.begin() + b + 1);
        act("erase", [&] { x.v->erase(a, b); });
    }
    void op_resize(Slot& x, uint32_t xi)
    {
        size_t n = choose((uint32_t)cap + 1);
        note("v%u: resize(%zu) from %zu", xi, n, x.m.size());
        x.m.resize(n);
        act("resize", [&] { x.v->resize(n); });
    }
    void op_transfer(Slot& x, uint32_t xi, Slot& y, uint32_t yi)
    {
        if (&x == &y || x.m.empty() || y.m.empty() || y.moved) return;
        auto [a, b] = some_range(x);
        size_t n = b - a + 1;
        if (n > y.m.size())
        {
            n = y.m.size();
            b = a + n - 1;
        }
        size_t d = some_pos(y);
        if (d + n > y.m.size()) d = y.m.size() - n;
        bool h = use_hint(x);
        note("v%u: transfer(%zu, %zu) to v%u at %zu%s", xi, a, b, yi, d, h ? " with a hint" : "");
        It it, hh;
        if (h) hh = hint(x);
        for (size_t i = 0; i < n; ++i)
        {
            y.m[d + i] = x.m[a + i];
            x.m[a + i] = Cell{};
        }
        act("transfer", [&] { it = h ? x.v->transfer(hh, a, b, *y.v, d) : x.v->transfer(a, b, *y.v, d); });
        if (Cow) { adopt(x, "transfer source"); adopt(y, "transfer destination"); }
        check_ret(x, it, a, "transfer");
        count("transfers");
    }
    void op_swap(Slot& x, uint32_t xi, Slot& y, uint32_t yi)
    {
        if (&x == &y || y.moved) return;
        if (x.m.empty() || y.m.empty() || chance(1, 8))
        {
            note("v%u: swap with v%u", xi, yi);
            std::swap(x.m, y.m);
            act("swap", [&] { x.v->swap(*y.v); });
            return;
        }
        auto [a, b] = some_range(x);
        size_t n = b - a + 1;
        if (n > y.m.size())
        {
            n = y.m.size();
            b = a + n - 1;
        }
        size_t d = some_pos(y);
        if (d + n > y.m.size()) d = y.m.size() - n;
        note("v%u: swap(%zu, %zu) with v%u at %zu", xi, a, b, yi, d);
        for (size_t i = 0; i < n; ++i)
            std::swap(y.m[d + i], x.m[a + i]);
        act("swap range", [&] { x.v->swap(a, b, *y.v, d); });
        if (Cow) { adopt(x, "swap"); adopt(y, "swap"); }
        count("range_swaps");
    }
    // Takes elements out: the caller now owns the objects.
    void op_release(Slot& x, uint32_t xi)
    {
        if (x.m.empty()) return;
        std::vector<std::pair<int, const void*>> owned;
        auto drop = [&] {
            Sut in;
            for (auto& [k, p] : owned)
                with(k, [&]<typename K>(K) {
                    if constexpr (K::managed)
                    {
                        typename K::T o = (typename K::T)p;
                        SIM_CHECK(g_objs.count(o), "mtv:dead-object", "an object released to the caller was deleted");
                        K::drop(o);
                    }
                });
        };
        bool refused = false, sharing = Cow && shares(x);
        if (sharing)
        {
            uint32_t how = choose(5);
            size_t pos = some_pos(x);
            note("v%u: release %u of shared data", xi, how);
            int k = x.m[pos].k;
            if (k < 0) k = 0;
            with(k, [&]<typename K>(K) {
                typename K::T val{};
                if constexpr (Cow)
                    reject<mdds::mtv::shared_block_error>("release of shared data", [&] {
                        switch (how)
                        {
                            case 0: x.v->template release<typename K::T>(pos); break;
                            case 1: x.v->release(pos, val); break;
                            case 2: x.v->release(); break;
                            case 3: x.v->release_range(pos, pos); break;
                            default: x.v->release_range(0, x.m.size() - 1); break;
                        }
                    });
            });
            return;
        }
        if constexpr (Cow)
            act("detach", [&] { x.v->detach(); });
        (void)refused;
        if (Cow) adopt(x, "detach");
        if (chance(1, 12))
        {
            note("v%u: release()", xi);
            for (auto& c : x.m)
                if (c.k >= 0) owned.push_back({c.k, c.p});
            x.m.clear();
            act("release()", [&] { x.v->release(); });
            drop();
            return;
        }
        if (chance(2, 5))
        {
            auto [a, b] = some_range(x);
            bool h = use_hint(x);
            note("v%u: release_range(%zu, %zu)%s", xi, a, b, h ? " with a hint" : "");
            It it, hh;
            if (h) hh = hint(x);
            for (size_t i = a; i <= b; ++i)
            {
                if (x.m[i].k >= 0) owned.push_back({x.m[i].k, x.m[i].p});
                x.m[i] = Cell{};
            }
            act("release_range", [&] { it = h ? x.v->release_range(hh, a, b) : x.v->release_range(a, b); });
            check_ret(x, it, a, "release_range");
            drop();
            return;
        }
        size_t pos = some_pos(x);
        int k = x.m[pos].k;
        bool none = k < 0;
        if (none) k = (int)choose(NK);
        uint32_t how = choose(Cow && !x.has_last ? 2 : 3);
        note("v%u: release(%zu) form %u%s", xi, pos, how, none ? " of an empty element" : "");
        with(k, [&]<typename K>(K) {
            Cell c = x.m[pos];
            x.m[pos] = Cell{};
            It it, hh;
            if (how == 2) hh = hint(x);
            typename K::T val{};
            {
                Sut in;
                try
                {
                    if (how == 0)
                        val = x.v->template release<typename K::T>(pos);
                    else if (how == 1)
                        it = x.v->release(pos, val);
                    else
                        it = x.v->release(hh, pos, val);
                }
                catch (const std::exception& e) { fail("mtv:unexpected-throw", "release threw: %s", e.what()); }
            }
            if constexpr (K::managed)
                SIM_CHECK((const void*)val == c.p, "mtv:release", "release(%zu) gave another object", pos);
            if (none)
                SIM_CHECK(val == typename K::T{}, "mtv:release", "release(%zu) of an empty element gave a value", pos);
            else
                SIM_CHECK(K::val(val) == c.v, "mtv:release", "release(%zu) gave %d expected %d", pos, K::val(val), c.v);
            if (how)
                check_ret(x, it, pos, "release");
            if (K::managed && !none)
                owned.push_back({k, c.p});
            if constexpr (!K::managed)
            {
                Sut in;
                val = typename K::T{};
            }
        });
        drop();
    }
    void op_clear(Slot& x, uint32_t xi)
    {
        note("v%u: clear", xi);
        x.m.clear();
        act("clear", [&] { x.v->clear(); });
    }
    void op_shrink(Slot& x, uint32_t xi)
    {
        note("v%u: shrink_to_fit", xi);
        act("shrink_to_fit", [&] { x.v->shrink_to_fit(); });
        if (Cow) adopt(x, "shrink_to_fit");
    }
    void op_detach(Slot& x, uint32_t xi)
    {
        if constexpr (requires { x.v->detach(); })
        {
            note("v%u: detach", xi);
            FaultPlan p = mode == kCowFaults ? choose_faults(2, 3, true, true, 12) : FaultPlan{};
            bool ok = copyish("detach", p, false, [&] { x.v->detach(); });
            if (ok)
            {
                adopt(x, "detach");
                SIM_CHECK(!shares(x), "mtv:still-shared", "blocks are still shared after detach()");
            }
        }
    }
    // An operation that copies and may be failed; true if it succeeded.
    template<typename F> bool copyish(const char* what, const FaultPlan& p, bool may_refuse, F op)
    {
        bool ok = true, refused = false;
        {
            Sut in(p);
            try { op(); }
            catch (const std::bad_alloc&) { ok = false; }
            catch (const Injected&) { ok = false; }
            catch (const mdds::mtv::element_block_error& e)
            {
                ok = false, refused = true;
                if (!may_refuse)
                    fail("mtv:unexpected-throw", "%s threw: %s", what, e.what());
            }
            catch (const std::exception& e) { fail("mtv:unexpected-throw", "%s threw: %s", what, e.what()); }
            if (!ok && !refused && !in.fired())
                fail("mtv:unexpected-throw", "%s threw although nothing failed", what);
            SIM_CHECK(!(ok && may_refuse), "mtv:not-refused", "%s of elements that cannot be copied was not refused", what);
        }
        if (!ok)
        {
            nontrivial();
            count(refused ? "copies_refused" : "operations_failed_by_fault");
            note("  -> failed");
        }
        return ok;
    }
    // After clone(): one cloner per block, in stored order.
    void check_clone_order(const V& v)
    {
        if (Cow) return;
        for (auto it = v.begin(); it != v.end(); ++it)
            ([&] {
                if constexpr (!Ks::copyable && Ks::clonable)
                    if (it->type == Ks::Blk::block_type)
                        for (size_t i = 0; i < it->size; ++i)
                            SIM_CHECK((*(Ks::Blk::cbegin(*it->data) + i))->order == (int)i, "mtv:clone-order", "element %zu of a block was cloned as number %d", i, (*(Ks::Blk::cbegin(*it->data) + i))->order);
            }(), ...);
    }
    void op_copy(Slot& x, uint32_t xi, Slot& y, uint32_t yi)
    {
        FaultPlan p = mode == kFaults || mode == kCowFaults ? choose_faults(3, 4, true, true, 40) : FaultPlan{};
        uint32_t how = choose(4);
        if (y.moved) how = 0;
        std::unique_ptr<V> n;
        bool ok = false;
        bool lazy = Cow;
        switch (how)
        {
            case 0:
                note("v%u: copied into v%u by construction", xi, yi);
                ok = copyish("copy construction", p, !copyable(x.m), [&] { n.reset(new V(*x.v)); });
                break;
            case 1:
                note("v%u: assigned to v%u", xi, yi);
                if (&x == &y && !copyable(x.m)) return;
                ok = copyish("copy assignment", p, !copyable(x.m), [&] { *y.v = *x.v; });
                break;
            case 2:
                note("v%u: cloned into v%u", xi, yi);
                ok = copyish("clone", p, !lazy && !clonable(x.m), [&] { n.reset(new V(x.v->clone())); });
                break;
            default:
                note("v%u: cloned with its own event handler into v%u", xi, yi);
                if constexpr (requires { x.v->clone(Ledger()); })
                    ok = copyish("clone", p, !lazy && !clonable(x.m), [&] { n.reset(new V(x.v->clone(Ledger()))); });
                else
                    ok = copyish("clone", p, !lazy && !clonable(x.m), [&] { n.reset(new V(x.v->clone())); });
                break;
        }
        if (!ok)
            return;
        count("copies");
        M m = x.m;
        if (how >= 2)
            check_clone_order(*n);
        if (how != 1)
        {
            Sut in;
            y.v = std::move(n);
        }
        y.m = m;
        y.moved = false;
        if (how == 1 && &x == &y)
            adopt(x, "self-assignment");
        else
            adopt(y, "copy");
        if (Cow && !m.empty() && &x != &y)
        {
            auto a = x.v->cbegin();
            for (auto it = y.v->cbegin(); it != y.v->cend(); ++it, ++a)
                SIM_CHECK(it->data == a->data, "mtv:not-shared", "a copy does not share its blocks with the original");
        }
    }
    void op_move(Slot& x, uint32_t xi, Slot& y, uint32_t yi)
    {
        if (&x == &y) return;
        std::unique_ptr<V> n;
        if (y.moved || chance(1, 2))
        {
            note("v%u: moved into v%u by construction", xi, yi);
            Sut in;
            n.reset(new V(std::move(*x.v)));
            y.v = std::move(n);
        }
        else
        {
            note("v%u: move-assigned to v%u", xi, yi);
            Sut in;
            *y.v = std::move(*x.v);
        }
        y.m = x.m;
        y.moved = false;
        x.m.clear();
        x.moved = true;
    }
    void op_recreate(Slot& x, uint32_t xi)
    {
        uint32_t how = choose(4);
        size_t n = choose((uint32_t)cap / 2 + 1);
        int k = (int)choose(NK);
        x.moved = false;
        auto vs = vals((int)n + 1);
        std::unique_ptr<V> nv;
        M m;
        if (how == 0)
        {
            note("v%u: replaced by a vector of %zu empty elements", xi, n);
            act("construction", [&] { nv.reset(new V(n)); });
            m.resize(n);
        }
        else if (how == 1)
        {
            note("v%u: replaced by a vector of %zu copies of kind %d value %d", xi, n, k, vs[0]);
            with(k, [&]<typename K>(K) {
                if (K::managed)
                {
                    if (n > 1)
                    {
                        typename K::T val{};
                        {
                            Sut in;
                            val = K::make(vs[0]);
                        }
                        reject<mdds::general_error>("construction from one managed object for many elements", [&] { V tmp(n, val); });
                        Sut in;
                        K::drop(val);
                    }
                    n = n ? 1 : 0;
                    if (!n) { act("construction", [&] { nv.reset(new V()); }); return; }
                }
                act("construction", [&] {
                    typename K::T val = K::make(vs[0]);
                    { Pause p; m.assign(n, mk_cell<K>(val)); }
                    nv.reset(new V(n, val));
                });
            });
        }
        else
        {
            if (!n) n = 1;
            note("v%u: replaced by a vector of %zu values of kind %d", xi, n, k);
            with(k, [&]<typename K>(K) {
                std::deque<typename K::T> q;
                {
                    Sut in;
                    q = make_seq<K>((int)n, vs);
                }
                for (auto& e : q) m.push_back(mk_cell<K>(e));
                if (chance(1, 6))
                    reject<mdds::invalid_arg_error>("construction with a length that differs from the data", [&] { V tmp(n + 1, q.begin(), q.end()); });
                act("construction", [&] { nv.reset(new V(n, q.begin(), q.end())); });
                Sut in;
                q = {};
            });
        }
        Sut in;
        x.v = std::move(nv);
        Pause p;
        x.m = m;
    }
    void op_equal(Slot& x, Slot& y)
    {
        if (y.moved) return;
        if (&x != &y && (has_managed(x.m) || has_managed(y.m)) && !managed_equality(x, y))
            return;
        bool want = x.m.size() == y.m.size();
        for (size_t i = 0; want && i < x.m.size(); ++i)
            want = x.m[i].k == y.m[i].k && x.m[i].v == y.m[i].v;
        bool e = *x.v == *y.v, ne = *x.v != *y.v;
        SIM_CHECK(e == want && ne != want, "mtv:equality", "operator== gives %d, expected %d", e, want);
        count("comparisons");
    }
    // Values of copyable managed blocks are compared by address, others by value.
    bool managed_equality(Slot& x, Slot& y)
    {
        for (auto* m : {&x.m, &y.m})
            for (auto& c : *m)
                if (c.k >= 0 && kind_managed(c.k) && kind_copyable(c.k))
                    return false;
        return true;
    }
    void op_reject(Slot& x, uint32_t xi, Slot& y)
    {
        size_t n = x.m.size();
        size_t bad = chance(1, 5) ? (size_t)-1 - choose(3) : n + choose(3);
        int k = (int)choose(NK);
        uint32_t what = choose(16);
        note("v%u: bad request %u at %zu of %zu", xi, what, bad, n);
        It hh;
        bool h = chance(1, 2) && !Cow;
        if (h) hh = hint(x);
        using OOR = std::out_of_range;
        with(k, [&]<typename K>(K) {
            switch (what)
            {
                case 0:
                {
                    typename K::T val{};
                    { Sut in; val = K::make(1); }
                    reject<OOR>("set", [&] { h ? x.v->set(hh, bad, val) : x.v->set(bad, val); });
                    Sut in;
                    K::drop(val);
                    if constexpr (!K::managed) val = typename K::T{};
                    break;
                }
                case 1: case 2:
                {
                    std::deque<typename K::T> q;
                    int len = what == 1 ? 1 + (int)choose(3) : (int)n + 1;
                    size_t at = what == 1 ? (bad < n + 100 ? bad : bad) : (n ? choose((uint32_t)n) : 0);
                    { Sut in; q = make_seq<K>(len, vals(len)); }
                    reject<OOR>("set range", [&] { h ? x.v->set(hh, at, q.begin(), q.end()) : x.v->set(at, q.begin(), q.end()); });
                    if (what == 1)
                        reject<OOR>("insert", [&] { h ? x.v->insert(hh, bad, q.begin(), q.end()) : x.v->insert(bad, q.begin(), q.end()); });
                    Sut in;
                    for (auto& e : q) K::drop(e);
                    q = {};
                    break;
                }
                case 3: reject<OOR>("insert_empty", [&] { h ? x.v->insert_empty(hh, bad, 2) : x.v->insert_empty(bad, 2); }); break;
                case 4: reject<OOR>("set_empty", [&] { h ? x.v->set_empty(hh, bad, bad) : x.v->set_empty(bad, bad); }); break;
                case 5: if (n) reject<OOR>("set_empty", [&] { size_t a = choose((uint32_t)n); h ? x.v->set_empty(hh, a, bad) : x.v->set_empty(a, bad); }); break;
                case 6: reject<OOR>("erase", [&] { x.v->erase(n ? choose((uint32_t)n) : 0, bad); }); break;
                case 7: if (n > 1) reject<OOR>("erase", [&] { x.v->erase(n - 1, 0); }); break;
                case 8:
                {
                    typename K::T val{};
                    reject<OOR>("get", [&] { x.v->get(bad, val); });
                    reject<OOR>("get", [&] { (void)x.v->template get<typename K::T>(bad); });
                    reject<OOR>("get_type", [&] { x.v->get_type(bad); });
                    reject<OOR>("is_empty", [&] { x.v->is_empty(bad); });
                    break;
                }
                case 9:
                {
                    const V& cv = *x.v;
                    size_t b = bad == n ? n + 1 : bad;
                    reject<OOR>("position", [&] { (void)cv.position(b); });
                    reject<OOR>("position(hint)", [&] { (void)cv.position(cv.begin(), b); });
                    if constexpr (!Cow)
                    {
                        reject<OOR>("position", [&] { (void)x.v->position(b); });
                        if (h) reject<OOR>("position(hint)", [&] { (void)x.v->position(hh, b); });
                    }
                    break;
                }
                case 10:
                {
                    if (Cow) break;
                    typename K::T val{};
                    reject<OOR>("release", [&] { h ? x.v->release(hh, bad, val) : x.v->release(bad, val); });
                    reject<OOR>("release", [&] { (void)x.v->template release<typename K::T>(bad); });
                    break;
                }
                case 11: if (!Cow) reject<OOR>("release_range", [&] { h ? x.v->release_range(hh, bad, bad) : x.v->release_range(bad, bad); }); break;
                case 12: if (n && !Cow) reject<OOR>("release_range", [&] { size_t a = choose((uint32_t)n); h ? x.v->release_range(hh, a, bad) : x.v->release_range(a, bad); }); break;
                case 13:
                {
                    if (&y == &x || y.moved) break;
                    if (!n || y.m.empty()) break;
                    size_t a = choose((uint32_t)n);
                    reject<OOR>("transfer", [&] { h ? x.v->transfer(hh, a, bad, *y.v, 0) : x.v->transfer(a, bad, *y.v, 0); });
                    reject<OOR>("transfer", [&] { h ? x.v->transfer(hh, a, a, *y.v, y.m.size() + choose(3)) : x.v->transfer(a, a, *y.v, y.m.size() + choose(3)); });
                    if (n > 1)
                        reject<OOR>("transfer", [&] { h ? x.v->transfer(hh, 1, 0, *y.v, 0) : x.v->transfer(1, 0, *y.v, 0); });
                    if (n > 1)
                        reject<OOR>("transfer", [&] { size_t far = (size_t)-1 - choose(2); h ? x.v->transfer(hh, 0, n - 1, *y.v, far) : x.v->transfer(0, n - 1, *y.v, far); });
                    if (n > 1)
                        reject<OOR>("transfer", [&] { h ? x.v->transfer(hh, 0, n - 1, *y.v, y.m.size() - 1) : x.v->transfer(0, n - 1, *y.v, y.m.size() - 1); });
                    if (Cow) { adopt(x, "rejected transfer"); adopt(y, "rejected transfer"); }
                    break;
                }
                case 14:
                {
                    if (&y == &x || y.moved) break;
                    reject<OOR>("swap", [&] { x.v->swap(n ? choose((uint32_t)n) : 0, bad, *y.v, 0); });
                    if (n)
                        reject<OOR>("swap", [&] { x.v->swap(0, 0, *y.v, y.m.size() + choose(3)); });
                    if (n > 1)
                        reject<OOR>("swap", [&] { x.v->swap(0, n - 1, *y.v, (size_t)-1 - choose(2)); });
                    if (n > 1)
                        reject<OOR>("swap", [&] { x.v->swap(1, 0, *y.v, 0); });
                    if (Cow) { adopt(x, "rejected swap"); adopt(y, "rejected swap"); }
                    break;
                }
                default:
                    if (n)
                        reject<mdds::invalid_arg_error>("transfer within one container", [&] { x.v->transfer(0, 0, *x.v, 0); });
                    break;
            }
        });
        if (Cow) adopt(x, "rejected request");
    }
    static bool kind_throws(int k) { bool r = false; if (k >= 0) with(k, [&]<typename K>(K) { r = K::managed || std::is_base_of_v<HeapTok, typename K::T>; }); return r; }
    static size_t throwing(const M& m) { return std::count_if(m.begin(), m.end(), [](const Cell& c) { return kind_throws(c.k); }); }
    // A write that fails while un-sharing (the first element copies it makes are those): whatever
    // the write is, every container stays as it was, and the value stays the caller's.
    void op_failing_write(Slot& x, uint32_t xi, Slot& y, uint32_t yi)
    {
        size_t tx = throwing(x.m), n = x.m.size();
        if (!tx || !shares(x) || y.moved) return;
        FaultPlan p;
        uint32_t what = choose(16);
        if (what >= 13 && (&x == &y || y.m.empty())) what = choose(13);
        size_t limit = tx;
        if (what >= 13 && shares(y)) limit += throwing(y.m);
        p.user_at = 1 + choose((uint32_t)limit);
        size_t pos = some_pos(x);
        auto [a0, b0] = some_range(x);
        size_t a = a0, b = b0;
        int k = pick_kind(x, pos);
        int len = 1 + (int)choose((uint32_t)(n - pos));
        bool went = false;
        note("v%u: write %u at %zu, failing while un-sharing (element copy %d)", xi, what, pos, (int)p.user_at);
        with(k, [&]<typename K>(K) {
            typename K::T val{};
            std::deque<typename K::T> q;
            {
                Sut in;
                val = K::make(1);
                q = make_seq<K>(len, vals(len));
            }
            bool ok = copyish("write to shared data", p, false, [&] {
                switch (what)
                {
                    case 0: x.v->set(pos, val); break;
                    case 1: x.v->set(pos, q.begin(), q.end()); break;
                    case 2: x.v->insert(pos, q.begin(), q.end()); break;
                    case 3: x.v->push_back(val); break;
                    case 4: x.v->push_back_empty(); break;
                    case 5: x.v->insert_empty(pos, 2); break;
                    case 6: x.v->set_empty(a, b); break;
                    case 7: x.v->erase(a, b); break;
                    case 8: x.v->resize(n + 3); break;
                    case 9: x.v->resize(n / 2); break;
                    case 10: x.v->shrink_to_fit(); break;
                    case 11: x.v->detach(); break;
                    case 12: x.v->set_empty(0, n - 1); break;
                    case 13: x.v->transfer(0, std::min(n, y.m.size()) - 1, *y.v, 0); break;
                    case 14: x.v->swap(0, std::min(n, y.m.size()) - 1, *y.v, 0); break;
                    default: x.v->transfer(pos, pos, *y.v, y.m.size() - 1); break;
                }
            });
            went = ok;
            Sut in;
            bool took = ok && (what == 0 || what == 3);
            if (!took) K::drop(val);
            if constexpr (!K::managed) val = typename K::T{};
            if (!ok || (what != 1 && what != 2))
                for (auto& e : q) K::drop(e);
            q = {};
        });
        if (went)
        {
            // It had nothing to un-share after all.
            x.m = read(*x.v), y.m = read(*y.v);
            x.has_last = y.has_last = false;
            return;
        }
        count("unsharing_writes_failed");
        adopt(x, "failed write to shared data");
        adopt(y, "failed write to shared data");
    }

    // A change that fails half-way: what the vectors hold then is open, but they can be cleared,
    // assigned to and destroyed, and everything they own is released exactly once.
    void op_failing_change(Slot& x, uint32_t xi)
    {
        if (x.m.empty()) return;
        FaultPlan p = choose_faults(9, 10, true, true, 10);
        size_t n = x.m.size();
        uint32_t what = choose(13);
        size_t pos = some_pos(x);
        auto [a0, b0] = some_range(x);
        size_t a = a0, b = b0, len = b - a + 1;
        int k = pick_kind(x, pos);
        for (int t = 0; kind_managed(k) && t < NK; ++t) k = (k + 1) % NK;
        if (kind_managed(k)) return;
        bool ok = true;
        with(k, [&]<typename K>(K) {
            typename K::T val{};
            std::deque<typename K::T> q;
            {
                Sut in;
                val = K::make((int)choose((uint32_t)nvals));
                q = make_seq<K>((int)len, vals((int)len));
            }
            static const char* names[] = {"set", "set range", "insert", "push_back", "push_back_empty", "insert_empty", "set_empty", "erase", "resize up", "resize down", "shrink_to_fit", "set range to the end", "release_range"};
            note("v%u: %s %zu-%zu kind %d, may fail", xi, names[what], what == 0 || what == 2 || what == 5 ? pos : a, b, k);
            ok = copyish("a change", p, false, [&] {
                switch (what)
                {
                    case 0: x.v->set(pos, val); break;
                    case 1: x.v->set(a, q.begin(), q.end()); break;
                    case 2: x.v->insert(pos, q.begin(), q.end()); break;
                    case 3: x.v->push_back(val); break;
                    case 4: x.v->push_back_empty(); break;
                    case 5: x.v->insert_empty(pos, 2); break;
                    case 6: x.v->set_empty(a, b); break;
                    case 7: x.v->erase(a, b); break;
                    case 8: x.v->resize(n + 3); break;
                    case 9: x.v->resize(1 + n / 2); break;
                    case 10: x.v->shrink_to_fit(); break;
                    case 11: x.v->set(n - q.size(), q.begin(), q.end()); break;
                    default: x.v->set_empty(pos, pos); break;
                }
            });
            Sut in;
            val = typename K::T{};
            q = {};
        });
        if (ok)
        {
            x.m = read(*x.v);
            return;
        }
        count("changes_failed");
        salvage(x, xi);
    }
    void salvage(Slot& x, uint32_t xi)
    {
        uint32_t how = choose(3);
        static const char* names[] = {"cleared", "assigned to", "replaced"};
        note("v%u: %s after the failure", xi, names[how]);
        Sut in;
        switch (how)
        {
            case 0: x.v->clear(); break;
            case 1: { V other(3); *x.v = other; break; }
            default: x.v.reset(new V()); break;
        }
        Pause q;
        x.m.clear();
        if (how == 1) x.m.resize(3);
        x.has_last = false;
    }

    void run()
    {
        g_objs.clear();
        g_ledger_on = mode == kEvents || Cow;
        g_ledger_tol = false;
        uint32_t big = choose(8);
        cap = big == 0 ? 90 : big < 4 ? 14 : 28;
        nvals = 1 + (int)choose(6);
        hint_pct = mode == kHints ? 90 : 35;
        s.resize(Cow ? 2 + choose(3) : 1 + choose(3));
        for (auto& x : s)
        {
            Sut in;
            x.v.reset(new V());
        }
        uint32_t len = 12 + choose(40);
        static constexpr uint32_t W[][16] = {
            // set setr ins push inse sete erase resize xfer swap rel clear copy move recr rej
            {12, 14, 9, 9, 5, 8, 8, 4, 10, 10, 5, 1, 3, 1, 4, 4},   // content
            {14, 16, 10, 5, 8, 10, 5, 2, 12, 5, 8, 1, 1, 1, 4, 6},  // hints
            {10, 12, 8, 6, 5, 8, 8, 5, 12, 12, 6, 2, 6, 4, 4, 3},   // events
            {12, 14, 8, 5, 4, 12, 12, 8, 10, 8, 14, 2, 5, 2, 4, 2}, // managed
            {8, 9, 6, 5, 3, 4, 4, 2, 5, 4, 2, 1, 40, 2, 4, 12},     // faults
            {10, 10, 6, 6, 4, 7, 6, 4, 8, 8, 6, 1, 22, 4, 2, 4},    // cow
            {8, 8, 5, 5, 3, 4, 4, 2, 5, 5, 3, 1, 34, 3, 2, 3},      // cow faults
            {8, 10, 7, 6, 3, 3, 3, 2, 5, 4, 1, 1, 4, 1, 3, 0},      // broken
        };
        const uint32_t* w = W[mode];
        if (cap == 90 && chance(2, 3))
        {
            // start from long tables of small blocks
            for (uint32_t xi = 0; xi < s.size() && xi < 2; ++xi)
            {
                for (uint32_t i = 20 + choose(60); i > 0; --i)
                    op_push_back(s[xi], xi);
                check_all(xi);
            }
        }
        while (more(len))
        {
            uint32_t xi = choose((uint32_t)s.size()), yi = choose((uint32_t)s.size());
            Slot &x = s[xi], &y = s[yi];
            if (x.moved)
            {
                if (chance(1, 2))
                {
                    note("v%u: cleared after a move", xi);
                    act("clear", [&] { x.v->clear(); });
                    x.moved = false;
                    x.m.clear();
                }
                else
                    op_recreate(x, xi);
                check_all(xi);
                continue;
            }
            uint32_t op = weighted({w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8], w[9], w[10], w[11], w[12], w[13], w[14], w[15], 2, 3, Cow ? 8u : 0u, mode == kCowFaults ? 12u : 0u, 4, mode == kBroken ? 30u : 0u});
            g_ledger_tol = op == 1;
            x.set_now = false;
            switch (op)
            {
                case 0: op_set(x, xi); break;
                case 1: op_set_range(x, xi); break;
                case 2: op_insert_range(x, xi); break;
                case 3: op_push_back(x, xi); break;
                case 4: op_insert_empty(x, xi); break;
                case 5: op_set_empty(x, xi); break;
                case 6: op_erase(x, xi); break;
                case 7: op_resize(x, xi); break;
                case 8: op_transfer(x, xi, y, yi); break;
                case 9: op_swap(x, xi, y, yi); break;
                case 10: op_release(x, xi); break;
                case 11: op_clear(x, xi); break;
                case 12: op_copy(x, xi, y, yi); break;
                case 13: op_move(x, xi, y, yi); break;
                case 14: op_recreate(x, xi); break;
                case 15: op_reject(x, xi, y); break;
                case 16: op_shrink(x, xi); break;
                case 17: op_equal(x, y); break;
                case 18: op_detach(x, xi); break;
                case 19: if constexpr (Cow) op_failing_write(x, xi, y, yi); break;
                case 20: op_burst(x, xi); break;
                default: op_failing_change(x, xi); break;
            }
            if (mode == kContent && x.v->block_size() > 3) nontrivial();
            if (mode == kHints && op < 9) nontrivial();
            if (mode == kEvents && (op == 8 || op == 9)) nontrivial();
            if (mode == kManaged && has_managed(x.m)) nontrivial();
            if (mode == kCow && op == 12) nontrivial();
            if (op != 12 && op != 15 && op != 17 && op != 19)
                x.has_last = x.set_now;
            if ((op == 8 || op == 9 || op == 12 || op == 13) && (&y != &x || op == 12))
                y.has_last = false;
            check_all(op == 17 ? (size_t)-1 : xi);
            g_ledger_tol = false;
        }
        Sut in;
        s.clear();
    }
};
} // namespace sim
