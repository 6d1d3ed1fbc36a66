// rtree under simulated histories and faults, compared with a list of (box, value) pairs.
#include "sim.hpp"
#include "wander.hpp"
#include "tok.hpp"
#include <mdds/rtree.hpp>
#include <algorithm>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <array>

using namespace sim;
namespace hrtree {

template<typename V> struct Val { static V mk(int i) { return V(i); } static int id(const V& v) { return (int)v; } };
template<> struct Val<std::string> {
    static std::string mk(int i) { return "v" + std::to_string(i) + "-padding-beyond-the-small-buffer"; }
    static int id(const std::string& s) { return s.empty() ? 0 : atoi(s.c_str() + 1); }
};
template<bool A, bool B> struct Val<BasicTok<A, B>> {
    static BasicTok<A, B> mk(int i) { return BasicTok<A, B>(i); }
    static int id(const BasicTok<A, B>& v) { v.alive("read"); return v.v; }
};
template<> struct Val<std::unique_ptr<Tok>> {
    static std::unique_ptr<Tok> mk(int i) { return std::make_unique<Tok>(i); }
    static int id(const std::unique_ptr<Tok>& v)
    {
        SIM_CHECK(v != nullptr, "rtree:empty-value", "the tree holds a value that was moved away");
        v->alive("read");
        return v->v;
    }
};

template<size_t D, size_t Mn, size_t Mx, bool Re, size_t Rs>
struct Traits {
    static constexpr size_t dimensions = D;
    static constexpr size_t min_node_size = Mn;
    static constexpr size_t max_node_size = Mx;
    static constexpr size_t max_tree_depth = 100;
    static constexpr bool enable_forced_reinsertion = Re;
    static constexpr size_t reinsertion_size = Rs;
};

struct NullBuf : std::streambuf {
    int overflow(int c) override { return c; }
};

template<typename K, typename V, typename Tr>
struct World {
    using T = mdds::rtree<K, V, Tr>;
    using Ext = typename T::extent_type;
    using Pt = typename T::point_type;
    using ST = typename T::search_type;
    static constexpr size_t D = Tr::dimensions;
    static constexpr bool copyable = std::is_copy_constructible_v<V>;
    using Box = std::array<int, 2 * D>;                  // start..., end...
    struct Item {
        Box b;
        int id;
        bool operator<(const Item& o) const { return b != o.b ? b < o.b : id < o.id; }
        bool operator==(const Item& o) const { return b == o.b && id == o.id; }
    };
    using M = std::vector<Item>;                         // kept sorted
    struct Slot {
        std::unique_ptr<T> t;
        M m;
        bool loose = false;                              // bulk loaded: nodes may hold fewer than the minimum
    };
    struct Node { int level, type, pos; Box b; int parent; std::vector<int> kids; };
    std::vector<Slot> s;
    bool faults;
    int span, size_cap, next_id = 1;
    bool last_failed = false;
    const char* tag = nullptr;                           // signature while judging a failed complex change

    // The same boxes at another scale: areas and distances may exceed what the key type can hold.
    static inline K unit = 1;
    static constexpr int shift = std::is_unsigned_v<K> ? 2000 : 0;
    static K k(int v) { return K(v + shift) / (std::is_floating_point_v<K> ? K(4) : K(1)) * unit; }
    static int c(K v)
    {
        if constexpr (!std::is_floating_point_v<K>)
            if (v % unit) return 900000;
        return (int)(v / unit * (std::is_floating_point_v<K> ? K(4) : K(1))) - shift;
    }
    static Pt pt(const int* p)
    {
        Pt r;
        for (size_t i = 0; i < D; ++i)
            r.d[i] = k(p[i]);
        return r;
    }
    static Ext ext(const Box& b) { return Ext(pt(b.data()), pt(b.data() + D)); }
    static Box box(const Ext& e)
    {
        Box b;
        for (size_t i = 0; i < D; ++i)
            b[i] = c(e.start.d[i]), b[D + i] = c(e.end.d[i]);
        return b;
    }
    static std::string str(const Box& b)
    {
        std::string r = "[";
        for (size_t i = 0; i < D; ++i)
            r += (i ? "," : "") + std::to_string(b[i]);
        r += " .. ";
        for (size_t i = 0; i < D; ++i)
            r += (i ? "," : "") + std::to_string(b[D + i]);
        return r + "]";
    }
    static bool is_point(const Box& b)
    {
        for (size_t i = 0; i < D; ++i)
            if (b[i] != b[D + i])
                return false;
        return true;
    }
    static bool overlap(const Box& a, const Box& b)
    {
        for (size_t i = 0; i < D; ++i)
            if (a[D + i] < b[i] || b[D + i] < a[i])
                return false;
        return true;
    }
    static Box all()
    {
        Box b;
        for (size_t i = 0; i < D; ++i)
            b[i] = -2000, b[D + i] = 2000;
        return b;
    }
    const char* sig(const char* s0) const { return tag ? tag : s0; }

    // ------------------------------------------------------------ structure, read from outside
    std::vector<Node> structure(const T& t)
    {
        std::vector<Node> out;
        t.walk([&](const typename T::node_properties& np) {
            Node n{};
            n.type = (int)np.type;
            n.b = box(np.extent);
            out.push_back(n);
        });
        std::istringstream is(t.export_tree(T::export_tree_type::formatted_node_properties));
        std::string line;
        size_t i = 0;
        std::vector<int> path;
        while (std::getline(is, line))
        {
            SIM_CHECK(i < out.size(), sig("rtree:export"), "the textual export lists more nodes than the walk");
            Node& n = out[i];
            size_t ind = line.find_first_not_of(' ');
            n.level = (int)(ind / 4);
            int l = -1, p = -1, pl = -1, pp = -1;
            int got = sscanf(line.c_str() + ind, "node: (%d, %d); parent: (%d, %d)", &l, &p, &pl, &pp);
            n.pos = p;
            SIM_CHECK(l == n.level && (got == 4 || (got == 2 && n.level == 0)), sig("rtree:parent"), "a node's parent is not a node of the tree: %s", line.c_str() + ind);
            path.resize(n.level);
            n.parent = n.level ? path.back() : -1;
            if (n.level)
            {
                Node& par = out[n.parent];
                SIM_CHECK(pl == par.level && pp == par.pos, sig("rtree:parent"), "a node's parent is recorded as another node: %s", line.c_str() + ind);
                SIM_CHECK(par.type != (int)T::node_type::value, sig("rtree:parent"), "a value node has children");
                par.kids.push_back((int)i);
            }
            path.push_back((int)i);
            ++i;
        }
        SIM_CHECK(i == out.size(), sig("rtree:export"), "the textual export lists fewer nodes than the walk");
        return out;
    }
    int check_structure(const Slot& x, const std::vector<Node>& ns)
    {
        using NT = typename T::node_type;
        int depth = -1;
        for (size_t i = 0; i < ns.size(); ++i)
        {
            const Node& n = ns[i];
            if (n.type == (int)NT::value)
            {
                SIM_CHECK(n.level > 0, sig("rtree:structure"), "a value is the root");
                if (depth < 0)
                    depth = n.level;
                SIM_CHECK(depth == n.level, sig("rtree:depth"), "values lie at depth %d and at depth %d", depth, n.level);
                SIM_CHECK(ns[n.parent].type == (int)NT::directory_leaf, sig("rtree:structure"), "a value does not lie in a leaf directory");
                continue;
            }
            if (n.level)
                SIM_CHECK(ns[n.parent].type == (int)NT::directory_nonleaf, sig("rtree:structure"), "a directory lies in a leaf directory");
            SIM_CHECK(n.kids.size() <= Tr::max_node_size, sig("rtree:overfull"), "a directory at depth %d holds %zu nodes, the maximum is %zu", n.level, n.kids.size(), Tr::max_node_size);
            if (n.level)
            {
                SIM_CHECK(!n.kids.empty(), sig("rtree:underfull"), "an empty directory at depth %d", n.level);
                if (!x.loose)
                    SIM_CHECK(n.kids.size() >= Tr::min_node_size, sig("rtree:underfull"), "a directory at depth %d holds %zu nodes, the minimum is %zu", n.level, n.kids.size(), Tr::min_node_size);
            }
            else if (n.type == (int)NT::directory_nonleaf)
                SIM_CHECK(!n.kids.empty(), sig("rtree:underfull"), "a non-leaf root without children");
            if (n.kids.empty())
                continue;
            Box e = ns[n.kids[0]].b;
            for (int q : n.kids)
                for (size_t d = 0; d < D; ++d)
                {
                    e[d] = std::min(e[d], ns[q].b[d]);
                    e[D + d] = std::max(e[D + d], ns[q].b[D + d]);
                }
            SIM_CHECK(e == n.b, sig("rtree:extent"), "a directory at depth %d claims the box %s, its content spans %s", n.level, str(n.b).c_str(), str(e).c_str());
        }
        return depth;
    }
    template<typename R>
    M collect(R&& res, int depth)
    {
        M out;
        for (auto it = res.begin(), ite = res.end(); !(it == ite); ++it)
        {
            out.push_back({box(it.extent()), Val<V>::id(*it)});
            if (depth >= 0)
                SIM_CHECK((int)it.depth() == depth, sig("rtree:result-depth"), "a search result reports depth %zu, values lie at depth %d", it.depth(), depth);
        }
        std::sort(out.begin(), out.end());
        return out;
    }
    M read(const T& t) { return collect(t.search(ext(all()), ST::overlap), -1); }

    Box rnd_box(bool query)
    {
        Box b;
        bool p = chance(1, 4);
        for (size_t i = 0; i < D; ++i)
        {
            int lo = (int)range(-2, span), len = p ? 0 : (int)choose_small(query ? (uint32_t)span + 2 : 1 + span / 2);
            b[i] = lo;
            b[D + i] = lo + len;
        }
        return b;
    }
    std::optional<typename T::const_search_results> keep; // results of an earlier search, maybe of another tree
    void query(const Slot& x, int depth)
    {
        Box q = rnd_box(true);
        if (!x.m.empty() && chance(1, 2))
            q = x.m[choose((uint32_t)x.m.size())].b;
        bool ispt = is_point(q), as_pt = ispt && chance(1, 2), match = chance(1, 2), con = chance(1, 2);
        M e;
        for (auto& i : x.m)
            if (match ? i.b == q : overlap(i.b, q))
                e.push_back(i);
        ST st = match ? ST::match : ST::overlap;
        const T& ct = *x.t;
        T& mt = *x.t;
        M g;
        if (as_pt)
            g = con ? collect(ct.search(pt(q.data()), st), depth) : collect(mt.search(pt(q.data()), st), depth);
        else
            g = con ? collect(ct.search(ext(q), st), depth) : collect(mt.search(ext(q), st), depth);
        SIM_CHECK(g == e, sig("rtree:search"), "%s search %s gave %zu values, expected %zu", match ? "exact" : "overlap", str(q).c_str(), g.size(), e.size());
        auto r = ct.search(ext(q), st);
        auto b = r.cbegin(), it = r.cend();
        size_t n = 0;
        while (!(it == b))
        {
            if (n % 2)
                --it;
            else
                it--;
            ++n;
        }
        SIM_CHECK(n == e.size(), sig("rtree:search"), "backward iteration over the results gave %zu values", n);
        if (chance(1, 2))
        {
            M seq;
            for (auto i = r.cbegin(); !(i == r.cend()); i++)
                seq.push_back({box(i.extent()), Val<V>::id(*i)});
            auto at = [&](auto& i, size_t p) {
                SIM_CHECK(box(i.extent()) == seq[p].b && Val<V>::id(*i) == seq[p].id && Val<V>::id(*i.operator->()) == seq[p].id, sig("rtree:walk"), "an iterator at place %zu of %zu shows another value", p, seq.size());
            };
            if (chance(1, 4))
            {
                auto r2 = r; // results can be copied, moved and assigned
                if (!keep) keep.emplace(std::move(r2));
                else if (chance(1, 2)) *keep = r;
                else *keep = std::move(r2);
                size_t p = 0;
                for (auto i = keep->begin(); !(i == keep->end()); ++i, ++p)
                {
                    SIM_CHECK(p < seq.size(), sig("rtree:reused-result"), "a copied result has more than %zu values", seq.size());
                    at(i, p);
                }
                SIM_CHECK(p == seq.size(), sig("rtree:reused-result"), "a copied result has %zu values, expected %zu", p, seq.size());
            }
            if (con)
                wander(sig("rtree:walk"), r.cbegin(), r.cend(), seq.size(), at);
            else
            {
                auto mr = mt.search(ext(q), st);
                M ms;
                for (auto i = mr.begin(); !(i == mr.end()); ++i)
                    ms.push_back({box(i.extent()), Val<V>::id(*i)});
                SIM_CHECK(ms == seq, sig("rtree:walk"), "the searches of the tree and of the const tree give different orders");
                wander(sig("rtree:walk"), mr.begin(), mr.end(), seq.size(), at);
            }
        }
        count("searches");
    }
    void expect(const Slot& x, bool full)
    {
        const T& t = *x.t;
        SIM_CHECK(t.empty() == x.m.empty(), sig("rtree:empty"), "empty()=%d with %zu values expected", t.empty(), x.m.size());
        if (!full)
        {
            SIM_CHECK(box(t.extent()) == bounds(x.m), sig("rtree:total-extent"), "extent() is %s, the values span %s", str(box(t.extent())).c_str(), str(bounds(x.m)).c_str());
            return;
        }
        SIM_CHECK(t.size() == x.m.size(), sig("rtree:size"), "size()=%zu expected %zu", t.size(), x.m.size());
        // The structure is read on a third of the steps (damage stays), and always after a failure.
        std::vector<Node> ns;
        int depth = -1;
        if (tag || last_failed || chance(1, 3))
        {
            ns = structure(t);
            depth = check_structure(x, ns);
        }
        SIM_CHECK(box(t.extent()) == bounds(x.m), sig("rtree:total-extent"), "extent() is %s, the values span %s", str(box(t.extent())).c_str(), str(bounds(x.m)).c_str());
        M got = collect(t.search(ext(all()), ST::overlap), depth);
        SIM_CHECK(got == x.m, sig("rtree:content"), "the tree holds %zu values that differ from the %zu inserted and not erased", got.size(), x.m.size());
        uint64_t h = 1;
        for (auto& n : ns)
            h = mix(h, (uint64_t)n.level * 7 + n.type);
        if (depth >= 0)
            state(h);
        for (int i = 0; i < 3; ++i)
            query(x, depth);
        if (chance(1, 8) || tag)
        {
            typename T::integrity_check_properties p;
            p.error_on_min_node_size = !x.loose;
            NullBuf nb;
            auto* old = std::cout.rdbuf(&nb);
            std::string why;
            try { t.check_integrity(p); } catch (const mdds::integrity_error& e) { why = e.what(); }
            std::cout.rdbuf(old);
            SIM_CHECK(why.empty(), sig("rtree:integrity"), "check_integrity: %s", why.c_str());
        }
        if (D == 2 && depth >= 0 && chance(1, 20))
        {
            auto a = t.export_tree(T::export_tree_type::extent_as_obj), b = t.export_tree(T::export_tree_type::extent_as_svg);
            size_t n = 0, p = 0;
            for (p = 0; (p = a.find("o extent ", p)) != std::string::npos; ++p)
                ++n;
            SIM_CHECK(n == ns.size(), sig("rtree:export"), "the .obj export holds %zu of %zu nodes", n, ns.size());
            n = 0;
            for (p = 0; (p = b.find("<rect", p)) != std::string::npos; ++p)
                ++n;
            for (p = 0; (p = b.find("<circle", p)) != std::string::npos; ++p)
                ++n;
            SIM_CHECK(n + 1 == ns.size(), sig("rtree:export"), "the SVG export holds %zu of %zu nodes", n, ns.size() - 1);
        }
    }
    Box bounds(const M& m)
    {
        Box b;
        b.fill(c(K()));
        if (m.empty())
            return b;
        b = m[0].b;
        for (auto& i : m)
            for (size_t d = 0; d < D; ++d)
            {
                b[d] = std::min(b[d], i.b[d]);
                b[D + d] = std::max(b[D + d], i.b[D + d]);
            }
        return b;
    }
    // ------------------------------------------------------------ acting
    template<typename F>
    bool act(const char* what, std::initializer_list<Slot*> xs, std::initializer_list<const M*> neu, F op, const char* weak = nullptr, bool arm = true)
    {
        FaultPlan p{};
        if (faults && arm && (!weak || chance(1, 12)))
            p = choose_faults(3, 4, true, true, weak ? 40 : 12);
        std::vector<M> old;
        for (Slot* x : xs)
            old.push_back(x->m);
        bool ok = true;
        last_failed = false;
        {
            Sut in(p);
            try { op(); }
            catch (const std::bad_alloc&) { ok = false; }
            catch (const Injected&) { ok = false; }
            catch (const std::exception& e) { fail("rtree:unexpected-throw", "%s threw: %s", what, e.what()); }
            if (!ok && !in.fired())
                fail("rtree:unexpected-throw", "%s threw although nothing failed", what);
        }
        if (!ok)
        {
            nontrivial();
            count("operations_failed_by_fault");
            note("  -> failed by an injected fault");
            tag = weak;
            last_failed = true;
            size_t i = 0;
            auto n = neu.begin();
            for (Slot* x : xs)
            {
                M got;
                try { got = read(*x->t); } catch (const std::exception& e) { fail(sig("rtree:half-done"), "%s failed, and searching the tree then throws: %s", what, e.what()); }
                const M* want = n != neu.end() ? *n++ : nullptr;
                SIM_CHECK(got == old[i] || (want && got == *want), sig("rtree:half-done"), "%s failed and left %zu values, neither the old (%zu) nor the new content", what, got.size(), old[i].size());
                x->m = got;
                expect(*x, true);
                ++i;
            }
            tag = nullptr;
        }
        return ok;
    }
    static void add(M& m, const Item& i) { m.insert(std::upper_bound(m.begin(), m.end(), i), i); }
    static void del(M& m, const Item& i) { m.erase(std::lower_bound(m.begin(), m.end(), i)); }

    // Does this change do more than touch one leaf directory?  Tried out on a copy, without faults.
    template<typename F>
    bool complex_change(const T& t, bool inserting, F op)
    {
        if constexpr (copyable)
        {
            auto leaves = [&](const T& u) {
                std::vector<std::vector<int>> r;
                auto ns = structure(u);
                auto res = u.search(ext(all()), ST::overlap);   // same order as the walk
                auto it = res.begin();
                for (auto& n : ns)
                {
                    if (n.type == (int)T::node_type::directory_leaf)
                        r.emplace_back();
                    if (n.type == (int)T::node_type::value)
                    {
                        r.back().push_back(Val<V>::id(*it));
                        ++it;
                    }
                }
                return r;
            };
            T u(t);
            auto a = leaves(u);
            {
                Sut in;
                op(u);
            }
            // A value that overflows its directory may, after re-insertion, end up where a simple insertion
            // would have put it; the memory that took gives it away (a value and at most two blocks otherwise).
            if (inserting && last_allocs() > 3)
                return true;
            auto b = leaves(u);
            if (a.size() != b.size())
                return true;
            size_t diff = 0;
            for (size_t i = 0; i < a.size(); ++i)
            {
                if (a[i] == b[i])
                    continue;
                ++diff;
                auto& lo = a[i].size() < b[i].size() ? a[i] : b[i];
                auto& hi = a[i].size() < b[i].size() ? b[i] : a[i];
                size_t j = 0;
                for (int v : hi)
                    if (j < lo.size() && lo[j] == v)
                        ++j;
                if (j != lo.size() || hi.size() != lo.size() + 1)
                    return true;
            }
            return diff != 1;
        }
        else
            return true;
    }
    template<typename Tree>
    static bool erase_in(Tree& t, const Item& i, uint32_t how)
    {
        if (how & 1)
        {
            auto r = t.search(ext(i.b), (how & 2) ? ST::match : ST::overlap);
            for (auto it = r.begin(); !(it == r.end()); ++it)
                if (Val<V>::id(*it) == i.id)
                {
                    t.erase(it);
                    return true;
                }
        }
        else
        {
            const Tree& ct = t;
            auto r = ct.search(ext(i.b), (how & 2) ? ST::match : ST::overlap);
            for (auto it = r.cbegin(); !(it == r.cend()); ++it)
                if (Val<V>::id(*it) == i.id)
                {
                    t.erase(it);
                    return true;
                }
        }
        return false;
    }
    void insert(Slot& x, const Item& i)
    {
        uint32_t how = choose(copyable ? 4 : 2);        // bit 0: as a point if possible, bit 1: copy
        bool point = (how & 1) && is_point(i.b);
        note("t%zu: insert %s %d%s%s", (size_t)(&x - s.data()), str(i.b).c_str(), i.id, point ? " as a point" : "", how & 2 ? " copied" : "");
        M n = x.m;
        add(n, i);
        const char* weak = nullptr;
        V tmp = Val<V>::mk(i.id);
        bool arm = faults && chance(1, 2);
        if (arm && complex_change(*x.t, true, [&](T& u) { u.insert(ext(i.b), std::move(tmp)); }))
            weak = "rtree:failed-insert-overflow";
        V val = Val<V>::mk(i.id);
        bool ok = act("insert", {&x}, {&n}, [&] {
            if constexpr (copyable)
                if (how & 2)
                {
                    const V& cv = val;
                    if (point)
                        x.t->insert(pt(i.b.data()), cv);
                    else
                        x.t->insert(ext(i.b), cv);
                    return;
                }
            if (point)
                x.t->insert(pt(i.b.data()), std::move(val));
            else
                x.t->insert(ext(i.b), std::move(val));
        }, weak, arm);
        if (ok)
            x.m = n;
        if (ok && (how & 2))
            SIM_CHECK(Val<V>::id(val) == i.id, "rtree:argument", "insert changed the value it copies");
    }
    void erase(Slot& x, const Item& i)
    {
        uint32_t how = choose(4);
        note("t%zu: erase %s %d", (size_t)(&x - s.data()), str(i.b).c_str(), i.id);
        M n = x.m;
        del(n, i);
        const char* weak = nullptr;
        bool arm = faults && chance(1, 2);
        if (arm && complex_change(*x.t, false, [&](T& u) { erase_in(u, i, how); }))
            weak = "rtree:failed-erase-dissolve";
        bool found = false;
        if (act("erase", {&x}, {&n}, [&] { found = erase_in(*x.t, i, how); }, weak, arm))
        {
            SIM_CHECK(found, "rtree:search", "the value to erase was not found by its box");
            x.m = n;
        }
        nontrivial();
    }
    // A point may be written with fewer coordinates than the tree has dimensions, but not with more.
    void points()
    {
        alignas(Pt) unsigned char mem[sizeof(Pt)];
        memset(mem, 0x5a, sizeof mem);
        int v[4];
        for (int& q : v)
            q = (int)range(1, 90);
        uint32_t n = choose(5);
        try
        {
            Pt* p = n == 0 ? new (mem) Pt{} : n == 1 ? new (mem) Pt{k(v[0])} : n == 2 ? new (mem) Pt{k(v[0]), k(v[1])} : n == 3 ? new (mem) Pt{k(v[0]), k(v[1]), k(v[2])} : new (mem) Pt{k(v[0]), k(v[1]), k(v[2]), k(v[3])};
            SIM_CHECK(n <= D, "rtree:point", "a point with %u coordinates was accepted in %zu dimensions", n, D);
            for (size_t i = 0; i < D; ++i)
                SIM_CHECK(p->d[i] == (i < n ? k(v[i]) : K()), "rtree:point", "coordinate %zu of a point built from %u coordinates is wrong", i, n);
        }
        catch (const std::range_error&)
        {
            SIM_CHECK(n > D, "rtree:point", "a point with %u coordinates was rejected in %zu dimensions", n, D);
        }
    }
    Item rnd_item(const Slot& x)
    {
        Item i{rnd_box(false), next_id++};
        if (!x.m.empty() && chance(1, 8))
            i.b = x.m[choose((uint32_t)x.m.size())].b;
        return i;
    }
    void run()
    {
        span = 2 + (int)choose(24);
        unit = 1;
        if (chance(1, 3))
        {
            if constexpr (std::is_floating_point_v<K>) { static const K u[] = {K(0x1p-500), K(0x1p200), K(0x1p600)}; unit = u[choose(3)]; }
            else { static const K u[] = {K(100), K(10000), K(1000000)}; unit = u[choose(3)]; }
            note("keys in units of %g", (double)unit);
        }
        s.resize(1 + choose(2));
        for (auto& x : s)
        {
            Sut in;
            x.t = std::make_unique<T>();
        }
        points();
        uint32_t len = 30 + choose(40);
        uint32_t bulky = Tr::max_node_size > 20 ? Tr::max_node_size : 3 * Tr::max_node_size;
        uint32_t grow = 20 + choose(30);
        uint32_t ops = 0;
        while (more(len) && ops < 200)
        {
            ++ops;
            Slot& x = s[choose((uint32_t)s.size())];
            Slot& y = s[choose((uint32_t)s.size())];
            int xi = (int)(&x - s.data()), yi = (int)(&y - s.data());
            bool check_all = false;
            switch (weighted({grow, 25, 8, 6, 2, 2, 2, 2, 2, 2, 1, 2, 2}))
            {
                case 0:
                    if (x.m.size() < (size_t)size_cap)
                        insert(x, rnd_item(x));
                    break;
                case 1:
                    if (!x.m.empty())
                        erase(x, x.m[choose((uint32_t)x.m.size())]);
                    break;
                case 2:
                {
                    // a burst of insertions
                    uint32_t n = 1 + choose(bulky);
                    for (uint32_t j = 0; j < n && x.m.size() < (size_t)size_cap; ++j)
                    {
                        Item i = rnd_item(x);
                        V val = Val<V>::mk(i.id);
                        Sut in;
                        x.t->insert(ext(i.b), std::move(val));
                        add(x.m, i);
                    }
                    note("t%d: %u insertions", xi, n);
                    break;
                }
                case 3:
                {
                    // erase many: everything in a region
                    Box q = rnd_box(true);
                    M hit;
                    for (auto& i : x.m)
                        if (overlap(i.b, q))
                            hit.push_back(i);
                    note("t%d: erase %zu values overlapping %s one by one", xi, hit.size(), str(q).c_str());
                    for (auto& i : hit)
                    {
                        Sut in;
                        bool f = erase_in(*x.t, i, choose(4));
                        SIM_CHECK(f, "rtree:search", "the value to erase was not found by its box");
                        del(x.m, i);
                        nontrivial();
                    }
                    break;
                }
                case 4:
                {
                    // bulk load
                    M n;
                    uint32_t cnt = choose(4) ? choose(bulky * 2 + 1) : choose((uint32_t)size_cap + 1);
                    note("t%d: bulk load of %u", xi, cnt);
                    std::vector<V> vals;
                    for (uint32_t j = 0; j < cnt; ++j)
                    {
                        Item i{rnd_box(false), next_id++};
                        n.push_back(i);
                        vals.push_back(Val<V>::mk(i.id));
                    }
                    bool twice = chance(1, 6);
                    uint32_t how = choose(copyable ? 4 : 2);
                    bool ok = act("bulk load", {}, {}, [&] {
                        typename T::bulk_loader ld;
                        for (uint32_t j = 0; j < cnt; ++j)
                        {
                            bool p = (how & 1) && is_point(n[j].b);
                            if constexpr (copyable)
                                if (how & 2)
                                {
                                    const V& cv = vals[j];
                                    if (p)
                                        ld.insert(pt(n[j].b.data()), cv);
                                    else
                                        ld.insert(ext(n[j].b), cv);
                                    continue;
                                }
                            if (p)
                                ld.insert(pt(n[j].b.data()), std::move(vals[j]));
                            else
                                ld.insert(ext(n[j].b), std::move(vals[j]));
                        }
                        T nt = ld.pack();
                        if (twice)
                        {
                            T e = ld.pack();
                            SIM_CHECK(e.empty() && e.size() == 0, "rtree:bulk-twice", "a second pack() of the same loader gives values again");
                        }
                        auto holder = std::make_unique<T>(std::move(nt));
                        x.t.swap(holder);
                    });
                    if (ok)
                    {
                        std::sort(n.begin(), n.end());
                        x.m = n;
                        x.loose = true;
                    }
                    break;
                }
                case 5:
                    if constexpr (copyable)
                    {
                        note("t%d: assigned to t%d", xi, yi);
                        M o = y.m, nw = x.m;
                        if (act("assignment", {&y, &x}, {&o}, [&] { *y.t = *x.t; }))
                        {
                            y.m = nw;
                            y.loose = x.loose;
                        }
                        check_all = true;
                    }
                    break;
                case 6:
                    if constexpr (copyable)
                    {
                        note("t%d: replaced by a copy of itself", xi);
                        std::unique_ptr<T> n;
                        if (act("copy construction", {&x}, {}, [&] { n = std::make_unique<T>(*x.t); }))
                        {
                            Sut in;
                            x.t.swap(n);
                            n.reset();
                        }
                        else
                        {
                            Sut in;
                            n.reset();
                        }
                    }
                    break;
                case 7:
                {
                    note("t%d: moved out and back", xi);
                    M none, old = x.m;
                    std::unique_ptr<T> n;
                    if (act("move construction", {&x}, {}, [&] { n = std::make_unique<T>(std::move(*x.t)); }))
                    {
                        Sut in;
                        SIM_CHECK(x.t->empty() && x.t->size() == 0, "rtree:moved-from", "a tree that was moved from is not empty");
                        x.t->insert(ext(Box{}), Val<V>::mk(1));     // still usable
                        x.t.swap(n);
                        n.reset();
                    }
                    else
                    {
                        Sut in;
                        n.reset();
                    }
                    break;
                }
                case 8:
                {
                    if (&x == &y)
                        break;
                    note("t%d: moved into t%d", xi, yi);
                    if (act("move assignment", {&x, &y}, {}, [&] { *y.t = std::move(*x.t); }))
                    {
                        y.m.swap(x.m);
                        x.m.clear();
                        y.loose = x.loose;
                        x.loose = false;
                    }
                    check_all = true;
                    break;
                }
                case 9:
                {
                    note("swap t%d t%d", xi, yi);
                    Sut in;
                    x.t->swap(*y.t);
                    if (&x != &y)
                    {
                        std::swap(x.m, y.m);
                        std::swap(x.loose, y.loose);
                    }
                    check_all = true;
                    break;
                }
                case 10:
                {
                    note("t%d: clear", xi);
                    M none;
                    if (act("clear", {&x}, {&none}, [&] { x.t->clear(); }))
                    {
                        x.m.clear();
                        x.loose = false;
                    }
                    break;
                }
                case 11:
                    if (!x.m.empty())
                    {
                        // change a value in place through a search result
                        Item i = x.m[choose((uint32_t)x.m.size())];
                        int nid = next_id++;
                        note("t%d: value %d becomes %d", xi, i.id, nid);
                        V nv = Val<V>::mk(nid);
                        Sut in;
                        auto r = x.t->search(ext(i.b), ST::match);
                        for (auto it = r.begin(); !(it == r.end()); ++it)
                            if (Val<V>::id(*it) == i.id)
                            {
                                *it = std::move(nv);
                                break;
                            }
                        del(x.m, i);
                        add(x.m, {i.b, nid});
                    }
                    break;
                case 12:
                    if (faults)
                    {
                        M o = x.m;
                        act("reading", {&x}, {&o}, [&] {
                            auto r = x.t->search(ext(all()), ST::overlap);
                            const T& ct = *x.t;
                            auto q = ct.search(pt(all().data()), ST::match);
                            (void)r;
                            (void)q;
                            typename T::integrity_check_properties p;
                            p.error_on_min_node_size = false;
                            if (!x.loose)
                                p.error_on_min_node_size = true, x.t->check_integrity(p);
                            (void)x.t->export_tree(T::export_tree_type::formatted_node_properties);
                        });
                    }
                    break;
            }
            for (auto& z : s)
                expect(z, &z == &x || (check_all && &z == &y));
        }
        for (auto& x : s)
        {
            Sut in;
            x.t.reset();
        }
    }
};

template<int N> void go(bool faults);
#if PART > 0
template<typename K, typename V, typename Tr>
void play(const char* name, bool f, int cap)
{
    note("types %s", name);
    cmp_faults = false;
    World<K, V, Tr> w;
    w.faults = f;
    w.size_cap = cap;
    w.run();
}
template<> void go<PART - 1>(bool f)
{
#if PART == 1
    if (choose(2))
        play<int, Tok, Traits<2, 2, 4, true, 2>>("2 dimensions, nodes of 2..4, values", f, 40);
    else
        play<int, HeapTok, Traits<2, 2, 5, false, 0>>("2 dimensions, nodes of 2..5, no re-insertion", f, 50);
#elif PART == 2
    if (choose(2))
        play<double, Tok, Traits<1, 1, 3, true, 1>>("1 dimension, nodes of 1..3", f, 30);
    else
        play<int, SlowTok, Traits<3, 3, 7, true, 2>>("3 dimensions, nodes of 3..7", f, 60);
#elif PART == 3
    if (choose(2))
        play<int, std::unique_ptr<Tok>, Traits<2, 2, 4, true, 1>>("2 dimensions, move-only values", f, 40);
    else
        play<int, int, mdds::detail::rtree::default_rtree_traits>("2 dimensions, default node sizes", f, 400);
#else
    if (choose(2))
        play<double, std::string, Traits<2, 2, 6, true, 3>>("2 dimensions, strings, nodes of 2..6", f, 60);
    else
        play<unsigned, int, Traits<2, 2, 4, false, 0>>("2 dimensions, nodes of 2..4, unsigned keys, ints", f, 60);
#endif
}
#else
template<> void go<0>(bool);
template<> void go<1>(bool);
template<> void go<2>(bool);
template<> void go<3>(bool);
void dispatch(bool f)
{
    switch (choose(4))
    {
        case 0: return go<0>(f);
        case 1: return go<1>(f);
        case 2: return go<2>(f);
        default: return go<3>(f);
    }
}
#endif
} // namespace hrtree
#if PART == 0
const std::vector<Prop>& sim::properties()
{
    static const std::vector<Prop> p{
        {"R01", [] { hrtree::dispatch(false); }, 10000, 800000, "a seeded history that erases at least one stored value"},
        {"R02", [] { hrtree::dispatch(true); }, 10000, 800000, "a seeded history that erases a stored value or in which an operation was failed by an injected fault"},
    };
    return p;
}
#endif
