// C03: tries, packed tries and sorted string maps read by several threads at once.
#include "conc_common.hpp"
#include <mdds/trie_map.hpp>
#include <mdds/sorted_string_map.hpp>
#include <map>
#include <optional>
#include <sstream>

namespace hconc {
using Entry = std::pair<std::string, int>;
static std::string some_key(int most = 5)
{
    std::string k;
    for (int i = 0, n = (int)choose(most + 1); i < n; ++i)
        k += "abc\xc3z"[choose(5)];
    return k;
}
static std::vector<Entry> some_entries()
{
    std::vector<Entry> e;
    for (int i = 0, n = (int)choose_small(16); i < n; ++i)
    {
        step();
        e.push_back({some_key(), (int)choose(6)});
    }
    return e;
}
template<typename V> V val(int i)
{
    if constexpr (std::is_same_v<V, std::string>)
        return i % 3 ? "v" + std::to_string(i) : "v" + std::to_string(i) + "-longer-than-the-small-buffer";
    else
        return V(i);
}
template<typename V> void putv(Sink& o, const V& v)
{
    if constexpr (std::is_same_v<V, std::string>)
        o.text(v);
    else
        o.add((int64_t)v);
}
template<typename V> struct Tries {
    using T = mdds::trie_map<std::string, V>;
    using P = typename T::packed_type;
    struct Box {
        T t;
        P p;
    };
    static std::unique_ptr<Box> build(const std::vector<Entry>& e)
    {
        auto b = std::make_unique<Box>();
        for (size_t i = 0; i < e.size(); ++i)
        {
            if (i % 5 == 4)
                b->t.erase(e[i - 2].first);
            b->t.insert(e[i].first, val<V>(e[i].second));
        }
        b->p = P(b->t);
        return b;
    }
    template<typename C> static void all(const C& c, Sink& o)
    {
        for (auto it = c.begin(), e = c.end(); it != e; ++it)
        {
            o.text(it->first);
            putv(o, it->second);
        }
    }
    template<typename C> static void back(const C& c, Sink& o)
    {
        for (auto it = c.end(), e = c.begin(); it != e;)
        {
            --it;
            o.text(it->first);
            putv(o, it->second);
        }
    }
    template<typename C> static void find(const C& c, const std::string& k, Sink& o)
    {
        auto it = c.find(k);
        o.add(it == c.end());
        if (it != c.end())
        {
            o.text(it->first);
            putv(o, it->second);
        }
    }
    template<typename C> static void prefix(const C& c, const std::string& k, Sink& o)
    {
        auto r = c.prefix_search(k);
        for (auto it = r.begin(), e = r.end(); it != e; ++it)
        {
            o.text(it->first);
            putv(o, it->second);
        }
    }
    template<typename N> static void nodes(N n, Sink& o, int depth)
    {
        o.add(n.valid());
        if (!n.valid())
            return;
        o.add(n.has_value());
        o.add(n.has_child());
        if (n.has_value())
            putv(o, n.value());
        if (depth < 3)
            for (char u : {'a', 'b', 'z'})
                nodes(n.child(u), o, depth + 1);
    }
    static Job<Box> reader()
    {
        std::string k = some_key();
        bool p = choose(2);
        switch (choose(11))
        {
            case 0: case 1: return {p ? "find in the packed map" : "find", [=](const Box& b, Sink& o) { p ? find(b.p, k, o) : find(b.t, k, o); }, {}};
            case 2: case 3: return {p ? "prefix search in the packed map" : "prefix search", [=](const Box& b, Sink& o) { p ? prefix(b.p, k, o) : prefix(b.t, k, o); }, {}};
            case 4: return {p ? "iterate the packed map" : "iterate", [=](const Box& b, Sink& o) { p ? all(b.p, o) : all(b.t, o); }, {}};
            case 5: return {p ? "iterate the packed map backwards" : "iterate backwards", [=](const Box& b, Sink& o) { p ? back(b.p, o) : back(b.t, o); }, {}};
            case 6: return {"sizes", [](const Box& b, Sink& o) { o.add(b.t.size()); o.add(b.p.size()); o.add(b.t.empty()); o.add(b.p.empty()); }, {}};
            case 7: return {p ? "copy the packed map and compare" : "copy, change and compare", [=](const Box& b, Sink& o) {
                if (p) { P c(b.p); o.add(c == b.p); all(c, o); }
                else { T c(b.t); o.add(c == b.t); c.insert(k, val<V>(9)); all(c, o); }
            }, {}};
            case 8: return {"pack", [](const Box& b, Sink& o) { P c(b.t); o.add(c == b.p); all(c, o); }, {}};
            case 9: return {"save", [](const Box& b, Sink& o) { std::ostringstream os; b.p.save_state(os); o.text(os.str()); }, {}};
            default: return {p ? "walk the nodes of the packed map" : "walk the nodes", [=](const Box& b, Sink& o) { p ? nodes(b.p.root_node(), o, 0) : nodes(b.t.root_node(), o, 0); }, {}};
        }
    }
    static Job<Box> writer()
    {
        auto e = some_entries();
        return {"build, read, save and load maps of its own", {}, [e](Sink& o) {
            auto b = build(e);
            all(b->t, o);
            std::ostringstream os;
            b->p.save_state(os);
            std::istringstream is(os.str());
            P q;
            q.load_state(is);
            all(q, o);
        }};
    }
    static void go()
    {
        auto e = some_entries();
        std::unique_ptr<Box> a, b;
        { Sut s; a = build(e); b = build(e); }
        play<Box>(*a, *b, reader, writer);
        Sut s;
        a.reset();
        b.reset();
    }
};

template<typename V, template<typename> class Finder> struct Ssm {
    using T = mdds::sorted_string_map<V, Finder>;
    using E = typename T::entry_type;
    struct Box {
        std::vector<std::string> keys;
        std::vector<E> e;
        std::optional<T> m;
    };
    static std::unique_ptr<Box> build(const std::vector<Entry>& in)
    {
        auto b = std::make_unique<Box>();
        std::map<std::string, int> m(in.begin(), in.end());
        for (auto& [k, v] : m)
            b->keys.push_back(k);
        int i = 0;
        for (auto& k : b->keys)
            b->e.push_back(E{k, val<V>(++i)});   // values are unique, so that reverse lookup is specified
        b->m.emplace(std::span<const E>(b->e), val<V>(0));
        return b;
    }
    static Job<Box> reader()
    {
        std::string k = some_key();
        int v = (int)choose(18);
        switch (choose(5))
        {
            case 0: case 1: return {"find", [=](const Box& b, Sink& o) { putv(o, b.m->find(k)); }, {}};
            case 2: return {"find every key", [](const Box& b, Sink& o) { for (auto& k : b.keys) putv(o, b.m->find(k)); o.add(b.m->size()); }, {}};
            default: return {"find_key", [=](const Box& b, Sink& o) { o.text(std::string(b.m->find_key(val<V>(v)))); }, {}};
        }
    }
    static Job<Box> writer()
    {
        auto e = some_entries();
        return {"build and read a map of its own", {}, [e](Sink& o) { auto b = build(e); for (auto& k : b->keys) putv(o, b->m->find(k)); o.text(std::string(b->m->find_key(val<V>(2)))); }};
    }
    static void go()
    {
        auto e = some_entries();
        std::unique_ptr<Box> a, b;
        { Sut s; a = build(e); b = build(e); }
        play<Box>(*a, *b, reader, writer);
        Sut s;
        a.reset();
        b.reset();
    }
};

void tries()
{
    switch (choose(6))
    {
        case 0: case 1: note("trie_map<string,int>"); return Tries<int>::go();
        case 2: case 3: note("trie_map<string,string>"); return Tries<std::string>::go();
        case 4: note("sorted_string_map<int>"); return Ssm<int, mdds::ssmap::linear_key_finder>::go();
        default: note("sorted_string_map<string>, hashed values"); return Ssm<std::string, mdds::ssmap::hash_key_finder>::go();
    }
}
} // namespace hconc
