// C01: segment, quad and spatial trees read by several threads at once.
#include "conc_common.hpp"
#include <mdds/flat_segment_tree.hpp>
#include <mdds/segment_tree.hpp>
#include <mdds/point_quad_tree.hpp>
#include <mdds/rtree.hpp>

namespace hconc {
template<typename V> V mkv(int i)
{
    if constexpr (std::is_same_v<V, std::string>)
        return i % 3 ? "v" + std::to_string(i) : "v" + std::to_string(i) + "-longer-than-the-small-buffer";
    else
        return V(i);
}
template<typename V> void put(Sink& o, const V& v)
{
    if constexpr (std::is_same_v<V, std::string>)
        o.text(v);
    else
        o.add((int64_t)v);
}
using Seq = std::vector<std::array<int, 5>>;
static Seq history(int n, int span)
{
    Seq s;
    for (int i = 0; i < n; ++i)
    {
        step();
        s.push_back({(int)choose(8), (int)choose(span), (int)choose(span), (int)choose(5), (int)choose(4)});
    }
    return s;
}

// ------------------------------------------------------------ flat_segment_tree
template<typename V> struct Fst {
    using T = mdds::flat_segment_tree<int, V>;
    static constexpr int span = 24;
    static std::unique_ptr<T> build(const Seq& h, bool index)
    {
        auto t = std::make_unique<T>(0, span, mkv<V>(0));
        for (auto& e : h)
        {
            int a = std::min(e[1], e[2]), b = std::max(e[1], e[2]) + 1;
            switch (e[0])
            {
                case 0: case 1: case 2: t->insert_front(a, b, mkv<V>(e[3])); break;
                case 3: case 4: t->insert_back(a, b, mkv<V>(e[3])); break;
                case 5: t->insert(t->begin(), a, b, mkv<V>(e[3])); break;
                case 6: t->shift_left(a, b); break;
                case 7: t->shift_right(a, e[4], true); break;
            }
        }
        if (index)
            t->build_tree();
        return t;
    }
    static void all(const T& t, Sink& o)
    {
        for (const auto& p : t)
        {
            o.add(p.first);
            put(o, p.second);
        }
    }
    static Job<T> reader()
    {
        int k = (int)range(-1, span + 1), h = (int)choose(span);
        switch (choose(13))
        {
            case 0: return {"iterate", [](const T& t, Sink& o) { all(t, o); }, {}};
            case 1: return {"iterate backwards", [](const T& t, Sink& o) { for (auto it = t.rbegin(); it != t.rend(); ++it) { o.add((*it).first); put(o, (*it).second); } }, {}};
            case 2: return {"segment_range", [](const T& t, Sink& o) { for (const auto& s : t.segment_range()) { o.add(s.start); o.add(s.end); put(o, s.value); } }, {}};
            case 3: return {"begin_segment", [](const T& t, Sink& o) { for (auto it = t.begin_segment(); it != t.end_segment(); ++it) { o.add(it->start); o.add(it->end); put(o, it->value); } }, {}};
            case 4: return {"search with values", [k](const T& t, Sink& o) {
                V v{};
                int a = -7, b = -7;
                auto r = t.search(k, v, &a, &b);
                o.add(r.second); o.add(a); o.add(b); put(o, v);
            }, {}};
            case 5: return {"search", [k](const T& t, Sink& o) { auto it = t.search(k); o.add(it == t.end()); if (it != t.end()) { o.add((*it).first); put(o, (*it).second); } }, {}};
            case 6: return {"search with hint", [k, h](const T& t, Sink& o) {
                auto hint = t.search(h);
                auto it = t.search(hint, k);
                o.add(it == t.end());
                if (it != t.end()) { o.add((*it).first); put(o, (*it).second); }
            }, {}};
            case 7: return {"search_tree with values", [k](const T& t, Sink& o) {
                V v{};
                int a = -7, b = -7;
                if (!t.valid_tree()) { o.add(-1); return; }
                auto r = t.search_tree(k, v, &a, &b);
                o.add(r.second); o.add(a); o.add(b); put(o, v);
            }, {}};
            case 8: return {"search_tree", [k](const T& t, Sink& o) {
                if (!t.valid_tree()) { o.add(-1); return; }
                auto it = t.search_tree(k);
                o.add(it == t.end());
                if (it != t.end()) { o.add((*it).first); put(o, (*it).second); }
            }, {}};
            case 9: return {"copy and change the copy", [k](const T& t, Sink& o) { T c(t); c.insert_front(std::max(0, k - 3), std::min(span, k + 2), mkv<V>(9)); all(c, o); }, {}};
            case 10: return {"compare with a copy", [](const T& t, Sink& o) { T c(t); o.add(c == t); o.add(t == c); }, {}};
            case 11: return {"bounds", [](const T& t, Sink& o) { o.add(t.min_key()); o.add(t.max_key()); put(o, t.default_value()); o.add(t.leaf_size()); o.add(t.valid_tree()); }, {}};
            default: return {"segment of a position", [k](const T& t, Sink& o) { auto it = t.search(k); if (it != t.end() && k < span) { auto s = it.to_segment(); o.add(s->start); o.add(s->end); put(o, s->value); } }, {}};
        }
    }
    static Job<T> writer()
    {
        Seq h = history(1 + (int)choose_small(6), span);
        bool ix = choose(2);
        return {"build, read and drop a tree of its own", {}, [h, ix](Sink& o) { auto t = build(h, ix); all(*t, o); }};
    }
    static void go()
    {
        Seq h = history((int)choose_small(14), span);
        bool ix = chance(3, 4);
        std::unique_ptr<T> a, b;
        { Sut s; a = build(h, ix); b = build(h, ix); }
        play<T>(*a, *b, reader, writer);
    }
};

// ------------------------------------------------------------ segment_tree
template<typename V> struct St {
    using T = mdds::segment_tree<int, V>;
    static constexpr int span = 20;
    static std::unique_ptr<T> build(const Seq& h, bool index)
    {
        auto t = std::make_unique<T>();
        for (auto& e : h)
        {
            int a = std::min(e[1], e[2]), b = std::max(e[1], e[2]) + 1;
            if (e[0] < 6)
                t->insert(a, b, mkv<V>(e[3]));
            else
                t->erase_if([&](int x, int y, const V&) { return x == a || y == b; });
        }
        if (index)
            t->build_tree();
        return t;
    }
    static void hits(const T& t, int k, Sink& o)
    {
        auto r = t.search(k);
        o.add(r.size());
        o.add(r.empty());
        size_t at = o.v.size();
        for (const auto& s : r)
        {
            Sink one;
            put(one, s.value);
            o.add(s.start * 1000003 + s.end * 997 + one.v[0] % 1000);
            conc::Quiet q;
            one = Sink();
        }
        o.sort_from(at);
    }
    static Job<T> reader()
    {
        int k = (int)range(-1, span + 1), k2 = (int)range(0, span);
        switch (choose(7))
        {
            case 0: case 1: return {"search", [k](const T& t, Sink& o) { if (t.valid_tree()) hits(t, k, o); }, {}};
            case 2: return {"search twice", [k, k2](const T& t, Sink& o) { if (t.valid_tree()) { hits(t, k, o); hits(t, k2, o); } }, {}};
            case 3: return {"boundary_keys", [](const T& t, Sink& o) { for (int x : t.boundary_keys()) o.add(x); }, {}};
            case 4: return {"sizes", [](const T& t, Sink& o) { o.add(t.size()); o.add(t.empty()); o.add(t.leaf_size()); o.add(t.valid_tree()); }, {}};
            case 5: return {"copy and change the copy", [k2](const T& t, Sink& o) { T c(t); c.insert(k2, k2 + 4, mkv<V>(7)); c.build_tree(); hits(c, k2 + 1, o); }, {}};
            default: return {"compare with a copy", [](const T& t, Sink& o) { T c(t); o.add(c == t); }, {}};
        }
    }
    static Job<T> writer()
    {
        Seq h = history(1 + (int)choose_small(6), span);
        int k = (int)choose(span);
        return {"build, search and drop a tree of its own", {}, [h, k](Sink& o) { auto t = build(h, true); hits(*t, k, o); }};
    }
    static void go()
    {
        Seq h = history((int)choose_small(14), span);
        bool ix = chance(7, 8);
        std::unique_ptr<T> a, b;
        { Sut s; a = build(h, ix); b = build(h, ix); }
        play<T>(*a, *b, reader, writer);
    }
};

// ------------------------------------------------------------ point_quad_tree
template<typename V> struct Pqt {
    using T = mdds::point_quad_tree<int, V>;
    static constexpr int span = 12;
    static std::unique_ptr<T> build(const Seq& h)
    {
        auto t = std::make_unique<T>();
        for (auto& e : h)
        {
            if (e[0] < 7)
                t->insert(e[1], e[2], mkv<V>(e[3]));
            else
                t->remove(e[1], e[2]);
        }
        return t;
    }
    static void walk(const typename T::node_access& n, Sink& o)
    {
        if (!n)
        {
            o.add(-1);
            return;
        }
        o.add(n.x());
        o.add(n.y());
        put(o, n.data());
        walk(n.northwest(), o); walk(n.southwest(), o); walk(n.northeast(), o); walk(n.southeast(), o);
    }
    static Job<T> reader()
    {
        int a = (int)range(-1, span), b = (int)range(-1, span), c = a + (int)choose(span), d = b + (int)choose(span);
        switch (choose(8))
        {
            case 0: case 1: return {"find", [a, b](const T& t, Sink& o) { try { put(o, t.find(a, b)); } catch (const typename T::data_not_found&) { o.add(-5); } }, {}};
            case 2: case 3: return {"search_region", [=](const T& t, Sink& o) {
                size_t at = o.v.size();
                auto r = t.search_region(a, b, c, d);
                for (auto it = r.begin(); it != r.end(); ++it) { Sink one; put(one, it->second); o.add(it->first.x * 1000003 + it->first.y * 997 + one.v[0] % 1000); conc::Quiet q; one = Sink(); }
                o.sort_from(at);
            }, {}};
            case 4: return {"search_region into a vector", [=](const T& t, Sink& o) {
                typename T::data_array_type r;
                t.search_region(a, b, c, d, r);
                size_t at = o.v.size();
                for (auto& v : r) put(o, v);
                o.sort_from(at);
            }, {}};
            case 5: return {"walk the nodes", [](const T& t, Sink& o) { walk(t.get_node_access(), o); }, {}};
            case 6: return {"sizes", [](const T& t, Sink& o) { o.add(t.size()); o.add(t.empty()); }, {}};
            default: return {"copy, change and compare", [=](const T& t, Sink& o) { T cp(t); o.add(cp == t); cp.insert(a, b, mkv<V>(8)); o.add(cp == t); o.add(cp.size()); }, {}};
        }
    }
    static Job<T> writer()
    {
        Seq h = history(1 + (int)choose_small(6), span);
        return {"build, read and drop a tree of its own", {}, [h](Sink& o) { auto t = build(h); o.add(t->size()); walk(t->get_node_access(), o); }};
    }
    static void go()
    {
        Seq h = history((int)choose_small(20), span);
        std::unique_ptr<T> a, b;
        { Sut s; a = build(h); b = build(h); }
        play<T>(*a, *b, reader, writer);
    }
};

// ------------------------------------------------------------ rtree
struct SmallNodes {
    static constexpr size_t dimensions = 2, min_node_size = 2, max_node_size = 4, max_tree_depth = 100, reinsertion_size = 1;
    static constexpr bool enable_forced_reinsertion = true;
};
template<typename V> struct Rt {
    using T = mdds::rtree<int, V, SmallNodes>;
    using ST = typename T::search_type;
    static constexpr int span = 14;
    static std::unique_ptr<T> build(const Seq& h, bool bulk)
    {
        if (bulk)
        {
            typename T::bulk_loader l;
            for (auto& e : h)
                l.insert({{e[1], e[2]}, {e[1] + e[4], e[2] + e[3]}}, mkv<V>(e[3] * 100 + e[0]));
            return std::make_unique<T>(l.pack());
        }
        auto t = std::make_unique<T>();
        for (auto& e : h)
        {
            if (e[0] < 7)
                t->insert({{e[1], e[2]}, {e[1] + e[4], e[2] + e[3]}}, mkv<V>(e[3] * 100 + e[0]));
            else
            {
                auto r = t->search({{e[1], e[2]}, {e[1] + 3, e[2] + 3}}, ST::overlap);
                if (r.begin() != r.end())
                    t->erase(r.begin());
            }
        }
        return t;
    }
    template<typename R> static void results(R&& r, Sink& o)
    {
        size_t at = o.v.size();
        for (auto it = r.begin(); it != r.end(); ++it)
        {
            Sink one;
            put(one, *it);
            auto& e = it.extent();
            o.add(((e.start.d[0] * 64 + e.start.d[1]) * 64 + e.end.d[0]) * 64 + e.end.d[1] + (one.v[0] % 1000) * 100000000ll + it.depth() * 7);
            conc::Quiet q;
            one = Sink();
        }
        o.sort_from(at);
    }
    static Job<T> reader()
    {
        int a = (int)range(-1, span), b = (int)range(-1, span), c = a + (int)choose(8), d = b + (int)choose(8);
        ST st = choose(2) ? ST::overlap : ST::match;
        switch (choose(8))
        {
            case 0: case 1: return {"search a box", [=](const T& t, Sink& o) { results(t.search({{a, b}, {c, d}}, st), o); }, {}};
            case 2: return {"search a point", [=](const T& t, Sink& o) { results(t.search({a, b}, st), o); }, {}};
            case 3: return {"walk", [](const T& t, Sink& o) { t.walk([&](const typename T::node_properties& np) { o.add((int)np.type); o.add(np.extent.start.d[0]); o.add(np.extent.end.d[1]); }); }, {}};
            case 4: return {"sizes", [](const T& t, Sink& o) { o.add(t.size()); o.add(t.empty()); if (!t.empty()) { o.add(t.extent().start.d[0]); o.add(t.extent().end.d[1]); } }, {}};
            case 5: return {"check_integrity", [](const T& t, Sink& o) { typename T::integrity_check_properties p; p.throw_on_first_error = true; p.error_on_min_node_size = false; t.check_integrity(p); o.add(1); }, {}};
            case 6: return {"export", [](const T& t, Sink& o) { o.text(t.export_tree(T::export_tree_type::extent_as_obj)); }, {}};
            default: return {"copy and change the copy", [=](const T& t, Sink& o) { T cp(t); cp.insert({{a, b}, {c, d}}, mkv<V>(777)); o.add(cp.size()); results(cp.search({{a, b}, {c, d}}, ST::overlap), o); }, {}};
        }
    }
    static Job<T> writer()
    {
        Seq h = history(1 + (int)choose_small(8), span);
        bool bulk = choose(2);
        return {"build, search and drop a tree of its own", {}, [h, bulk](Sink& o) { auto t = build(h, bulk); o.add(t->size()); results(std::as_const(*t).search({{0, 0}, {40, 40}}, ST::overlap), o); }};
    }
    static void go()
    {
        Seq h = history((int)choose_small(20), span);
        bool bulk = choose(3) == 0;
        std::unique_ptr<T> a, b;
        { Sut s; a = build(h, bulk); b = build(h, bulk); }
        play<T>(*a, *b, reader, writer);
    }
};

void trees()
{
    switch (choose(7))
    {
        case 0: note("flat_segment_tree<int,int>"); return Fst<int>::go();
        case 1: note("flat_segment_tree<int,string>"); return Fst<std::string>::go();
        case 2: note("segment_tree<int,int>"); return St<int>::go();
        case 3: note("segment_tree<int,string>"); return St<std::string>::go();
        case 4: note("point_quad_tree<int,int>"); return Pqt<int>::go();
        case 5: note("point_quad_tree<int,string>"); return Pqt<std::string>::go();
        default: note("rtree<int,string>"); return Rt<std::string>::go();
    }
}
} // namespace hconc
