// sorted_string_map under simulated histories of construction, copies, moves and lookups, with failing
// allocations and throwing value callbacks, compared with the entries it was given.
#include "sim.hpp"
#include "tok.hpp"
#include <mdds/sorted_string_map.hpp>
#include <algorithm>
#include <memory>
#include <optional>
#include <set>

using namespace sim;
namespace hssm {

template<typename V> struct Val { static V mk(int i) { return V(i); } static int id(const V& v) { return (int)v; } };
template<> struct Val<std::string> {
    static std::string mk(int i) { return i ? "value " + std::to_string(i) + " beyond the small buffer" : std::string(); }
    static int id(const std::string& s) { return s.empty() ? 0 : atoi(s.c_str() + 6); }
};
template<> struct Val<std::string_view> {
    static std::string_view mk(int i)
    {
        static const char* t[] = {"", "zero", "one", "two", "three", "four", "five", "six", "seven", "eight"};
        return t[i];
    }
    static int id(std::string_view s) { for (int i = 0; i < 10; ++i) if (mk(i) == s) return i; return -1; }
};
template<bool A, bool B> struct Val<BasicTok<A, B>> {
    static BasicTok<A, B> mk(int i) { return BasicTok<A, B>(i); }
    static int id(const BasicTok<A, B>& v) { v.alive("read"); return v.v; }
};
std::string show(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
        if (c >= 32 && c < 127)
            r += (char)c;
        else
        {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
    return r + "\"";
}
std::string random_key()
{
    static const char alpha[] = {'a', 'b', '\0', '\xff', 'z', '\x80', '\x7f', ' '};
    std::string r;
    uint32_t mode = choose(3), n = mode == 0 ? choose_small(4) : mode == 1 ? choose_small(12) : 1 + choose(2);
    for (uint32_t i = 0; i < n; ++i)
        r += alpha[choose(mode == 1 ? 2 : 8)];
    return r;
}

template<typename V, template<typename> class Finder> struct World {
    using Map = mdds::sorted_string_map<V, Finder>;
    using Entry = typename Map::entry_type;
    struct Table { std::vector<std::string> keys; std::vector<int> vals; std::vector<Entry> entries; };
    struct Obj { std::unique_ptr<Map> m; size_t t; int null; };
    std::vector<std::unique_ptr<Table>> tables;
    std::vector<Obj> objs;
    bool faults;

    void make_table()
    {
        auto t = std::make_unique<Table>();
        std::set<std::string> keys;
        uint32_t n = choose(4) ? choose_small(10) : choose(40);
        for (uint32_t i = 0; i < n; ++i)
            keys.insert(random_key());
        t->keys.assign(keys.begin(), keys.end());
        bool unique = chance(1, 2);
        for (size_t i = 0; i < t->keys.size(); ++i)
            t->vals.push_back(unique && t->keys.size() <= 9 ? (int)i + 1 : 1 + choose(8));
        t->entries.reserve(t->keys.size());
        for (size_t i = 0; i < t->keys.size(); ++i)
            t->entries.push_back(Entry{t->keys[i], Val<V>::mk(t->vals[i])});
        tables.push_back(std::move(t));
    }
    FaultPlan plan() { return faults ? choose_faults(1, 2, true, true, 10) : FaultPlan(); }

    // builds a map; a failure leaves no trace
    template<typename F> void build(size_t ti, int null, F f)
    {
        std::unique_ptr<Map> r;
        FaultPlan p = plan();
        uint64_t live = live_allocs();
        int64_t toks = tok.live;
        bool failed = false;
        {
            Sut g(p);
            try { r.reset(f()); }
            catch (const std::bad_alloc&) { if (!g.fired()) throw; failed = true; }
            catch (const Injected&) { failed = true; }
        }
        if (failed)
        {
            nontrivial();
            count("fault.failed_operations");
            note("  failed");
            SIM_CHECK(live_allocs() == live && tok.live == toks, "ssm:failed-build-leaks", "a failed construction left memory or values behind");
            return;
        }
        objs.push_back(Obj{std::move(r), ti, null});
    }
    void lookup(const Obj& o, const std::string& key)
    {
        const Table& t = *tables[o.t];
        auto it = std::lower_bound(t.keys.begin(), t.keys.end(), key);
        bool have = it != t.keys.end() && *it == key;
        int want = have ? t.vals[it - t.keys.begin()] : o.null, got = 0;
        FaultPlan p = plan();
        bool old_api = chance(1, 4), failed = false;
        const V* v = nullptr;
        {
            Sut g(p);
            try { v = old_api ? &o.m->find(key.data(), key.size()) : &o.m->find(key); }
            catch (const std::bad_alloc&) { if (!g.fired()) throw; failed = true; }
            catch (const Injected&) { failed = true; }
        }
        note("find %s in table %zu: %s", show(key).c_str(), o.t, failed ? "failed" : have ? "present" : "absent");
        if (failed)
        {
            nontrivial();
            return;
        }
        got = Val<V>::id(*v);
        SIM_CHECK(got == want, "ssm:find", "find(%s) gives %d, expected %d", show(key).c_str(), got, want);
        if (have && !t.keys.empty())
            nontrivial();
    }
    void reverse(const Obj& o, int val)
    {
        const Table& t = *tables[o.t];
        V v = Val<V>::mk(val);
        FaultPlan p = plan();
        bool failed = false;
        std::string_view k;
        {
            Sut g(p);
            try { k = o.m->find_key(v); }
            catch (const std::bad_alloc&) { if (!g.fired()) throw; failed = true; }
            catch (const Injected&) { failed = true; }
        }
        note("find_key %d in table %zu: %s", val, o.t, failed ? "failed" : show(std::string(k)).c_str());
        if (failed)
        {
            nontrivial();
            return;
        }
        auto it = std::lower_bound(t.keys.begin(), t.keys.end(), std::string(k));
        bool any = std::find(t.vals.begin(), t.vals.end(), val) != t.vals.end();
        if (!any)
            SIM_CHECK(k.empty(), "ssm:find-key", "find_key(%d) gives %s, but no key has that value", val, show(std::string(k)).c_str());
        else
            SIM_CHECK(it != t.keys.end() && *it == k && t.vals[it - t.keys.begin()] == val, "ssm:find-key", "find_key(%d) gives %s, which does not have that value", val, show(std::string(k)).c_str());
        if (any)
            nontrivial();
    }
    void run()
    {
        faults = choose(3) == 0;
        for (uint32_t i = 0, n = 1 + choose(2); i < n; ++i)
            make_table();
        while (more(16))
        {
            step();
            uint32_t op = objs.empty() ? 0 : weighted({2, 2, 2, 10, 6, 2, 1});
            if (op == 0)
            {
                size_t ti = choose(tables.size());
                int null = choose(10);
                const Table& t = *tables[ti];
                bool old_api = chance(1, 4);
                note("build from table %zu (%zu entries), null %d", ti, t.keys.size(), null);
                V nv = Val<V>::mk(null);
                build(ti, null, [&] { return old_api ? new Map(t.entries.data(), t.entries.size(), std::move(nv)) : new Map(t.entries, std::move(nv)); });
                continue;
            }
            size_t oi = choose(objs.size());
            Obj& o = objs[oi];
            const Table& t = *tables[o.t];
            if (op == 1)
            {
                note("copy of %zu", oi);
                size_t ti = o.t;
                int null = o.null;
                build(ti, null, [&] { return new Map(*objs[oi].m); });
            }
            else if (op == 2)
            {
                note("move of %zu", oi);
                std::unique_ptr<Map> r;
                {
                    Sut g;
                    r = std::make_unique<Map>(std::move(*o.m));
                    o.m.reset();
                }
                o.m = std::move(r);
            }
            else if (op == 3)
            {
                std::string key = t.keys.empty() || chance(1, 3) ? random_key() : pick(t.keys);
                if (chance(1, 5))
                    key += "a";
                else if (!key.empty() && chance(1, 5))
                    key.pop_back();
                lookup(o, key);
            }
            else if (op == 4)
                reverse(o, choose(10));
            else if (op == 5)
            {
                for (size_t i = 0; i < t.keys.size(); ++i)
                {
                    lookup(o, t.keys[i]);
                    reverse(o, t.vals[i]);
                }
            }
            else
            {
                note("drop %zu", oi);
                Sut g;
                objs.erase(objs.begin() + oi);
            }
            uint64_t h = objs.size();
            for (auto& x : objs)
            {
                SIM_CHECK(x.m->size() == tables[x.t]->keys.size(), "ssm:size", "size()=%zu, expected %zu", (size_t)x.m->size(), tables[x.t]->keys.size());
                h = mix(h, x.t * 16 + x.null);
            }
            for (auto& x : tables)
                for (size_t i = 0; i < x->keys.size(); ++i)
                    h = mix(h, std::hash<std::string>()(x->keys[i]) * 10 + x->vals[i]);
            state(h);
        }
        {
            Sut g;
            objs.clear();
        }
        for (auto& x : tables)
            for (size_t i = 0; i < x->keys.size(); ++i)
                SIM_CHECK(x->entries[i].key == x->keys[i] && Val<V>::id(x->entries[i].value) == x->vals[i], "ssm:entries", "an entry of the caller's table was changed");
    }
};
template<typename V> void both(const char* name)
{
    bool hash = choose(2);
    note("values: %s, %s key finder", name, hash ? "hash" : "linear");
    if (hash)
        World<V, mdds::ssmap::hash_key_finder>().run();
    else
        World<V, mdds::ssmap::linear_key_finder>().run();
}
void run()
{
    switch (choose(6))
    {
        case 0: return both<int>("int");
        case 1: return both<std::string>("string");
        case 2: return both<std::string_view>("string_view");
        case 3: return both<Tok>("counted");
        case 4: return both<HeapTok>("counted, owning memory");
        case 5: return both<SlowTok>("counted, throwing moves");
    }
}
} // namespace hssm

namespace sim {
const std::vector<Prop>& properties()
{
    static const std::vector<Prop> p = {
        {"L01", hssm::run, 150000, 20000000, "a lookup found an entry, or a fault made an operation fail"},
    };
    return p;
}
}
