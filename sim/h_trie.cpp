// trie_map and packed_trie_map under simulated histories, devices and failures, compared with an ordered map.
#include "sim.hpp"
#include "wander.hpp"
#include "tok.hpp"
#include "io.hpp"
#include <mdds/trie_map.hpp>
#include <map>
#include <memory>
#include <optional>
#include <algorithm>

#ifndef PART
#define PART 0
#endif

using namespace sim;
namespace htrie {

template<typename V> struct Val { static V mk(int i) { return V(i); } static int id(const V& v) { return (int)v; } };
template<> struct Val<std::string> {
    static std::string mk(int i) { return i ? "v" + std::to_string(i) + (i % 2 ? "-padding-beyond-the-small-buffer" : "") : ""; }
    static int id(const std::string& s) { return s.empty() ? 0 : atoi(s.c_str() + 1); }
};
template<> struct Val<HeapTok> {
    static HeapTok mk(int i) { return HeapTok(i); }
    static int id(const HeapTok& v) { v.alive("read"); return v.v; }
};
template<> struct Val<SlowTok> {
    static SlowTok mk(int i) { return SlowTok(i); }
    static int id(const SlowTok& v) { v.alive("read"); return v.v; }
};
template<> struct Val<std::vector<int16_t>> {
    static std::vector<int16_t> mk(int i) { std::vector<int16_t> v(i % 5 + (i ? 1 : 0), (int16_t)i); return v; }
    static int id(const std::vector<int16_t>& v) { for (auto x : v) if (x != v[0] || (int)v.size() != x % 5 + 1) return -12345; return v.empty() ? 0 : v[0]; }
};

// key units: a small alphabet with awkward members
template<typename U> struct Units { static U at(int i) { static const U t[] = {U('a'), U('b'), U('c'), U(0), U(200), U('z'), U(127), U(1)}; return t[i & 7]; } };
template<> struct Units<uint16_t> { static uint16_t at(int i) { static const uint16_t t[] = {7, 8, 9, 0, 0xFFFF, 300, 0x8000, 1}; return t[i & 7]; } };
template<> struct Units<char16_t> { static char16_t at(int i) { static const char16_t t[] = {u'a', u'b', u'c', 0, 0xFFFF, 300, 0x8000, 1}; return t[i & 7]; } };
template<> struct Units<int> { static int at(int i) { static const int t[] = {7, -8, 9, 0, -1, 300, 100000, 1}; return t[i & 7]; } };

// a key type of the documented shape: built from a pointer and a size
template<typename U>
struct Seq : std::vector<U> {
    Seq() = default;
    Seq(const U* p, size_t n) : std::vector<U>(p, p + n) {}
    template<typename It> Seq(It a, It b) : std::vector<U>(a, b) {}
};
struct Tr32 : mdds::trie::default_traits { using pack_value_type = uint32_t; };
struct Tr16 : mdds::trie::default_traits { using pack_value_type = uint16_t; };
struct Tr8 : mdds::trie::default_traits { using pack_value_type = uint8_t; };

template<typename K, typename V, typename TR, bool SAVE>
struct World {
    using T = mdds::trie_map<K, V, TR>;
    using P = mdds::packed_trie_map<K, V, TR>;
    using U = typename K::value_type;
    struct Less { bool operator()(const K& a, const K& b) const { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](U x, U y) { return x < y; }); } };
    using M = std::map<K, int, Less>;
    using KV = typename T::key_view_type;
    struct Slot { std::unique_ptr<T> t; M m; bool moved = false; };
    struct PSlot { std::unique_ptr<P> p; M m; bool moved = false; };
    std::vector<Slot> s;
    std::vector<PSlot> ps;
    enum Mode { Map, Pack, Save, Load, Fault } mode;
    int alpha, maxlen, nvals;

    bool faults() const { return mode == Fault; }
    K key()
    {
        K k;
        int n = (int)choose(maxlen + 1);
        for (int i = 0; i < n; ++i)
            k.push_back(Units<U>::at((int)choose(alpha)));
        return k;
    }
    static std::string str(const K& k)
    {
        std::string o = "\"";
        for (auto u : k)
        {
            char b[16];
            if (u >= 'a' && u <= 'z')
                snprintf(b, sizeof b, "%c", (char)u);
            else
                snprintf(b, sizeof b, "\\%x", (unsigned)(std::make_unsigned_t<U>)u);
            o += b;
        }
        return o + "\"";
    }
    // a key derived from a stored one: itself, shorter, longer or changed at the end
    K near(const M& m)
    {
        if (m.empty() || chance(1, 5))
            return key();
        auto it = std::next(m.begin(), choose((uint32_t)m.size()));
        K k = it->first;
        switch (choose(5))
        {
            case 0: case 1: break;
            case 2: if (!k.empty()) k.pop_back(); break;
            case 3: k.push_back(Units<U>::at((int)choose(alpha))); break;
            case 4: if (!k.empty()) k.back() = Units<U>::at((int)choose(alpha)); break;
        }
        return k;
    }
    static KV view(const K& k) { return KV(k.data(), k.size()); }

    template<typename R>
    void walk(const char* what, R&& r, const std::vector<std::pair<K, int>>& e)
    {
        auto it = r.begin(), ite = r.end();
        size_t n = 0;
        for (; it != ite; ++it, ++n)
        {
            SIM_CHECK(n < e.size(), "trie:iterate", "%s: iteration visits more than the %zu stored entries", what, e.size());
            SIM_CHECK((*it).first == e[n].first, "trie:iterate", "%s: key %s at %zu, expected %s", what, str(K((*it).first)).c_str(), n, str(e[n].first).c_str());
            SIM_CHECK(Val<V>::id((*it).second) == e[n].second, "trie:iterate", "%s: value %d for key %s, expected %d", what, Val<V>::id((*it).second), str(e[n].first).c_str(), e[n].second);
        }
        SIM_CHECK(n == e.size(), "trie:iterate", "%s: iteration visits %zu of %zu entries", what, n, e.size());
        for (; n-- > 0;)
        {
            --it;
            SIM_CHECK((*it).first == e[n].first && Val<V>::id((*it).second) == e[n].second, "trie:iterate-backward",
                      "%s: backward iteration gives %s at %zu, expected %s", what, str(K((*it).first)).c_str(), n, str(e[n].first).c_str());
        }
        SIM_CHECK(it == r.begin(), "trie:iterate-backward", "%s: backward iteration does not arrive at the first entry", what);
        if (chance(1, 8))
            wander("trie:walk", r.begin(), r.end(), e.size(), [&](auto& it2, size_t i) {
                SIM_CHECK((*it2).first == e[i].first && Val<V>::id((*it2).second) == e[i].second && it2->first == e[i].first && Val<V>::id(it2->second) == e[i].second, "trie:walk",
                          "%s: an iterator at place %zu of %zu shows %s", what, i, e.size(), str(K((*it2).first)).c_str());
            });
        if (e.size() > 1) // zigzag
        {
            size_t pos = 0;
            uint64_t z = e.size() * 2654435761u;
            for (int i = 0; i < 12; ++i)
            {
                z = mix(z, i);
                if (z % 2 && pos < e.size())
                    ++it, ++pos;
                else if (pos > 0)
                    --it, --pos;
                if (pos < e.size())
                    SIM_CHECK((*it).first == e[pos].first && Val<V>::id((*it).second) == e[pos].second, "trie:iterate-zigzag",
                              "%s: mixed forward and backward steps give %s at %zu, expected %s", what, str(K((*it).first)).c_str(), pos, str(e[pos].first).c_str());
                else
                    SIM_CHECK(it == ite, "trie:iterate-zigzag", "%s: end not reached", what);
            }
        }
    }
    std::optional<typename T::search_results> keep_t;
    std::optional<typename P::search_results> keep_p;
    template<typename C>
    void expect(const char* kind, const C& c, const M& m, const std::vector<K>& probes)
    {
        SIM_CHECK(c.size() == m.size() && c.empty() == m.empty(), "trie:size", "%s: size()=%zu empty()=%d, expected %zu", kind, (size_t)c.size(), c.empty(), m.size());
        std::vector<std::pair<K, int>> all(m.begin(), m.end());
        walk(kind, c, all);
        auto lookup = [&](const K& k) {
            auto it = c.find(view(k));
            auto mi = m.find(k);
            bool found = it != c.end();
            SIM_CHECK(found == (mi != m.end()), "trie:find", "%s: find(%s) %s", kind, str(k).c_str(), found ? "finds a key that is not stored" : "does not find a stored key");
            if (found)
            {
                SIM_CHECK((*it).first == k && Val<V>::id((*it).second) == mi->second, "trie:find", "%s: find(%s) gives %s=%d, expected %d", kind, str(k).c_str(), str(K((*it).first)).c_str(), Val<V>::id((*it).second), mi->second);
                // neighbours of a found entry
                auto up = it;
                ++up;
                auto nx = std::next(mi);
                if (nx == m.end())
                    SIM_CHECK(up == c.end(), "trie:find-next", "%s: stepping on from the last entry %s does not give end()", kind, str(k).c_str());
                else
                    SIM_CHECK(up != c.end() && (*up).first == nx->first, "trie:find-next", "%s: the entry after find(%s) is wrong", kind, str(k).c_str());
                if (mi != m.begin())
                {
                    auto dn = it;
                    --dn;
                    SIM_CHECK((*dn).first == std::prev(mi)->first && Val<V>::id((*dn).second) == std::prev(mi)->second, "trie:find-previous", "%s: the entry before find(%s) is %s, expected %s", kind, str(k).c_str(), str(K((*dn).first)).c_str(), str(std::prev(mi)->first).c_str());
                }
            }
            // node by node
            auto n = c.root_node();
            for (auto u : k)
                n = n.child(u);
            bool any = m.lower_bound(k) != m.end() && m.lower_bound(k)->first.size() >= k.size() && std::equal(k.begin(), k.end(), m.lower_bound(k)->first.begin());
            SIM_CHECK(n.valid() == (any || k.empty()), "trie:node", "%s: node for %s valid=%d", kind, str(k).c_str(), n.valid());
            if (n.valid())
            {
                SIM_CHECK(n.has_value() == (mi != m.end()), "trie:node", "%s: node %s has_value=%d", kind, str(k).c_str(), n.has_value());
                if (n.has_value())
                    SIM_CHECK(Val<V>::id(n.value()) == mi->second, "trie:node", "%s: node %s has another value", kind, str(k).c_str());
            }
        };
        for (auto& [k, v] : m)
            lookup(k);
        for (auto& k : probes)
        {
            lookup(k);
            std::vector<std::pair<K, int>> e;
            for (auto it = m.lower_bound(k); it != m.end() && it->first.size() >= k.size() && std::equal(k.begin(), k.end(), it->first.begin()); ++it)
                e.emplace_back(*it);
            walk("prefix search", c.prefix_search(view(k)), e);
            auto r1 = c.prefix_search(view(k));
            auto r2 = r1; // results can be copied
            if (!e.empty() || r1.begin() == r1.end())
                walk("copied prefix search result", r2, e);
            auto reuse = [&](auto& keep) { // a variable that held the results of an earlier search, maybe of another map
                if (!keep) keep.emplace(std::move(r2));
                else if (chance(1, 2)) *keep = r1;
                else *keep = std::move(r2);
                walk("reused prefix search result", *keep, e);
            };
            if constexpr (std::is_same_v<C, T>) reuse(keep_t);
            else reuse(keep_p);
            count("prefix_searches");
        }
    }
    std::vector<K> probes(const M& m)
    {
        std::vector<K> v{K()};
        uint32_t n = 2 + choose(3);
        for (uint32_t i = 0; i < n; ++i)
            v.push_back(near(m));
        return v;
    }
    void expect(Slot& x) { expect("trie", *x.t, x.m, probes(x.m)); }
    void expect(PSlot& x) { expect("packed", *x.p, x.m, probes(x.m)); }
    static uint64_t hash(const M& m)
    {
        uint64_t h = m.size();
        for (auto& [k, v] : m)
        {
            for (auto u : k)
                h = mix(h, (uint64_t)u);
            h = mix(h, v + 1000);
        }
        return h;
    }
    template<typename C>
    static M content(const C& c)
    {
        M m;
        size_t n = 0;
        for (auto it = c.begin(), ite = c.end(); it != ite; ++it)
        {
            m[K((*it).first)] = Val<V>::id((*it).second);
            SIM_CHECK(++n < 100000, "trie:iterate", "iteration does not end");
        }
        SIM_CHECK(m.size() == n && c.size() == n, "trie:size", "iteration visits %zu entries (%zu distinct), size() is %zu", n, m.size(), (size_t)c.size());
        return m;
    }
    template<typename C, typename F>
    bool act(const char* what, C* c, M* cur, const M& neu, F op)
    {
        bool may = faults();
        // moving and swapping whole maps is not claimed to survive values whose own moves fail
        if (std::is_same_v<V, SlowTok> && strcmp(what, "insert") && strcmp(what, "erase") && !strstr(what, "copy"))
            may = false;
        FaultPlan p = may ? choose_faults(1, 2, true, true, 24) : FaultPlan{};
        bool ok = true;
        {
            Sut in(p);
            try { op(); }
            catch (const std::bad_alloc&) { ok = false; }
            catch (const Injected&) { ok = false; }
            catch (const mdds::size_error&) { ok = false; throw; }
            catch (const std::exception& e) { fail("trie:unexpected-throw", "%s threw: %s", what, e.what()); }
            if (!ok && !in.fired())
                fail("trie:unexpected-throw", "%s threw although nothing failed", what);
        }
        if (!ok)
        {
            nontrivial();
            count("operations_failed_by_fault");
            note("  -> failed by an injected fault");
            if (c)
            {
                M got = content(*c);
                SIM_CHECK(got == *cur || got == neu, "trie:half-done", "%s failed and left neither the old nor the new entries", what);
                *cur = got;
            }
        }
        else if (cur)
            *cur = neu;
        return ok;
    }
    // how many units the packed form of m needs
    static size_t packed_size(const M& m)
    {
        std::map<K, int, Less> nodes;
        nodes[K()] = 0;
        for (auto& [k, v] : m)
            for (size_t i = 0; i <= k.size(); ++i)
                nodes[K(k.begin(), k.begin() + i)] = 0;
        return 1 + 2 * nodes.size() + 2 * (nodes.size() - 1);
    }
    static bool fits(const M& m)
    {
        using pv = typename TR::pack_value_type;
        if (sizeof(pv) >= 4)
            return true;
        return packed_size(m) <= (size_t)std::numeric_limits<pv>::max() && m.size() < (size_t)std::numeric_limits<pv>::max() - 1;
    }
    void pack_into(PSlot& y, Slot& x)
    {
        if (!fits(x.m))
            return; // see P02 in the documentation of the pack value type: positions have to fit as well
        M m = x.m;
        std::unique_ptr<P> n;
        uint32_t how = choose(3);
        bool ok = false;
        nontrivial();
        if (how == 0)
        {
            note("pack a copy of %zu entries", m.size());
            ok = act("packing a copy", x.t.get(), &x.m, m, [&] { n = std::make_unique<P>(*x.t); });
        }
        else if (how == 1)
        {
            note("pack() %zu entries", m.size());
            ok = act("pack()", x.t.get(), &x.m, m, [&] { n.reset(new P(x.t->pack())); /* allocates before it packs */ });
            if (ok)
                x.moved = true;
        }
        else
        {
            bool us = chance(1, 2);
            note("pack %zu entries from a list%s", m.size(), us ? " sorted by unsigned units" : "");
            std::vector<typename P::entry> es;
            std::vector<std::pair<K, int>> all(m.begin(), m.end());
            if (us)
                std::sort(all.begin(), all.end(), [](auto& a, auto& b) {
                    return std::lexicographical_compare(a.first.begin(), a.first.end(), b.first.begin(), b.first.end(), [](U p, U q) { return (std::make_unsigned_t<U>)p < (std::make_unsigned_t<U>)q; });
                });
            for (auto& [k, v] : all)
                es.emplace_back(k.data(), k.size(), Val<V>::mk(v));
            ok = act("packing a list", x.t.get(), &x.m, m, [&] { n = std::make_unique<P>(std::span<const typename P::entry>(es)); });
        }
        if (ok)
        {
            Sut in;
            y.p = std::move(n);
            y.m = m;
            y.moved = false;
        }
        if (n)
        {
            Sut in;
            n.reset();
        }
    }
    // ------------------------------------------------------------ storage
    std::vector<char> save_plain(const P& p)
    {
        std::vector<char> data;
        if constexpr (SAVE)
        {
            DevPlan d;
            d.chunk = chance(1, 2) ? 1 + choose(9) : 0;
            d.buffered = chance(1, 3);
            Device dev(data, d);
            bool good;
            {
                Sut in;
                std::ostream os(&dev);
                p.save_state(os);
                os.flush();
                good = os.good();
            }
            SIM_CHECK(good, "trie:save", "saving to a healthy device fails");
        }
        return data;
    }
    // 0 loaded, 1 rejected
    int load(P& p, std::vector<char>& data, const DevPlan& d, const FaultPlan& fp, std::string& why, bool exc_mask, size_t at = 0, P* second = nullptr)
    {
        int rc = 0;
        if constexpr (SAVE)
        {
            Device dev(data, d);
            uint64_t base = live_bytes();
            {
                Sut in(fp);
                std::istream is(&dev);
                try
                {
                    if (exc_mask)
                        is.exceptions(std::ios::badbit | std::ios::failbit | std::ios::eofbit);
                    if (at)
                        is.seekg((std::streamoff)at);
                    p.load_state(is);
                    if (second)
                        second->load_state(is);
                }
                catch (const Injected& e) { rc = 1; Pause q; why = e.what; }
                catch (const std::exception& e) { rc = 1; Pause q; why = e.what(); }
            }
            uint64_t used = peak_request() - base;
            SIM_CHECK(used < (1u << 20) + 64 * data.size(), "trie:load-memory", "loading %zu bytes asked for %llu bytes of memory", data.size(), (unsigned long long)used);
        }
        return rc;
    }
    static M contentp(const P& p) { return content(p); }

    void roundtrip(PSlot& x, PSlot& y)
    {
        std::vector<char> data;
        DevPlan d;
        d.chunk = chance(1, 2) ? 1 + choose(9) : 0;
        d.buffered = chance(1, 2);
        bool fault = mode == Save && chance(3, 4);
        size_t full = 0;
        if (fault)
        {
            full = save_plain(*x.p).size();
            d.by_exception = chance(1, 3);
            switch (choose(4))
            {
                case 0: d.write_fail_at = choose((uint32_t)full); break;
                case 1: d.writes_before_fail = choose((uint32_t)(full * 2)); break;
                case 2: d.seekable = false; break;
                case 3: d.flush_fails = true; break;
            }
        }
        note("save %zu entries (fail at %lld, after %lld, seekable %d, buffered %d, chunk %u)", x.m.size(), (long long)d.write_fail_at, (long long)d.writes_before_fail, d.seekable, d.buffered, d.chunk);
        if constexpr (SAVE)
        {
            bool visible = false, threw = false;
            bool mask = chance(1, 4);
            // the state may go into the middle of what the device already holds, and another one may follow it
            size_t at = 0;
            bool plain = true;
            bool pair = !fault && mode == Save && !y.moved && chance(1, 4);
            if (d.seekable && !fault && chance(1, 2))
            {
                uint32_t len = choose(300);
                plain = false;
                for (uint32_t i = 0; i < len; ++i)
                    data.push_back((char)(i * 37 + 11));
                at = choose(len + 1);
                note("  at offset %zu of %u bytes that are already there", at, len);
            }
            Device dev(data, d);
            {
                Sut in;
                std::ostream os(&dev);
                try
                {
                    if (mask)
                        os.exceptions(std::ios::badbit | std::ios::failbit);
                    if (at)
                        os.seekp((std::streamoff)at);
                    x.p->save_state(os);
                    if (pair)
                        y.p->save_state(os);
                    os.flush();
                }
                catch (const std::exception&) { threw = true; }
                catch (const Injected&) { threw = true; }
                visible = threw || !os.good();
            }
            if (fault)
            {
                nontrivial();
                count(visible ? "save_failed_visibly" : "save_succeeded_despite_fault_plan");
            }
            else
                SIM_CHECK(!visible, "trie:save", "saving to a healthy device fails");
            SIM_CHECK(contentp(*x.p) == x.m, "trie:save-changes", "saving changed the saved map");
            // what is on the device now?
            P* target = y.p.get();
            M old = y.m;
            DevPlan rd;
            rd.chunk = chance(1, 2) ? 1 + choose(9) : 0;
            rd.seekable = at || chance(1, 2);
            bool rfault = mode == Save && plain && !pair && chance(1, 4) && !data.empty();
            if (rfault)
            {
                rd.read_fail_at = choose((uint32_t)data.size());
                rd.by_exception = chance(1, 2);
            }
            std::string why;
            FaultPlan fp;
            if (mode == Fault)
                fp = choose_faults(1, 2, true, true, 30);
            std::unique_ptr<P> second;
            if (pair && !rfault)
            {
                Sut in;
                second = std::make_unique<P>();
            }
            int rc = load(*target, data, rd, fp, why, chance(1, 4), at, second.get());
            if (second)
            {
                SIM_CHECK(!rc && content(*second) == old, "trie:roundtrip-second", "a state saved right after another one is not loaded as it was saved");
                count("states_in_a_row");
                Sut in;
                second.reset();
            }
            note("load %zu bytes: %s", data.size(), rc ? "rejected" : "accepted");
            if (rc)
            {
                SIM_CHECK(visible || rfault || (mode == Fault && fault_fired()), "trie:load", "a complete saved state is rejected: %s", why.c_str());
                M got = contentp(*target);
                SIM_CHECK(got == old, "trie:load-half-done", "a failed load changed the map");
                count("loads_rejected");
            }
            else
            {
                SIM_CHECK(!rfault, "trie:load-short", "loading succeeded although the device failed in the middle");
                M got = contentp(*target);
                SIM_CHECK(got == x.m, visible ? "trie:save-wrong" : "trie:roundtrip", "the loaded map differs from the saved one (%zu vs %zu entries)", got.size(), x.m.size());
                y.m = x.m;
                y.moved = false;
                SIM_CHECK(*y.p == *x.p, "trie:roundtrip-equal", "the loaded map does not compare equal to the saved one");
                count("round_trips");
            }
        }
    }
    // Changes the node table of a saved state and keeps everything around it consistent, so that the
    // loader gets to see it.
    static bool damage_nodes(std::vector<char>& data)
    {
        size_t w = 8, n = 0, blob = 0;
        auto get = [&](size_t at) { uint64_t v = 0; memcpy(&v, &data[at], w); return v; };
        auto put = [&](size_t at, uint64_t v) { memcpy(&data[at], &v, w); };
        auto count_at = [&](size_t at) { uint64_t v; memcpy(&v, &data[at], 8); return v; };
        auto set_count = [&] { uint64_t v = n; memcpy(&data[blob - 8], &v, 8); };
        for (size_t e : {8, 4, 2, 1})
            for (size_t k = 3; e * k + 10 <= data.size() && !blob; ++k)
                if (size_t at = data.size() - 1 - e * k; count_at(at - 8) == k && (size_t)data[at - 9] == e)
                    w = e, n = k, blob = at;
        if (!blob)
            return false;
        for (uint32_t i = 0, m = 1 + choose_small(4); i < m && n; ++i)
        {
            size_t at = blob + w * choose((uint32_t)n);
            switch (choose(8))
            {
                case 0: put(at, get(at) + 1); break;
                case 1: put(at, get(at) - 1); break;
                case 2: put(at, get(at) + (chance(1, 2) ? 2 : -2)); break;
                case 3: put(at, choose_small((uint32_t)n + 2)); break;
                case 4: put(at, chance(1, 2) ? ~0ull : (1ull << (8 * w - 1)) + choose(4)); break;
                case 5: put(at, get(blob + w * choose((uint32_t)n))); break;
                case 6: // one entry more
                {
                    uint64_t v = chance(1, 2) ? get(at) : choose_small((uint32_t)n + 2);
                    data.insert(data.begin() + at, w, 0);
                    put(at, v);
                    ++n;
                    set_count();
                    break;
                }
                case 7: // one entry less, or the tail gone
                {
                    size_t k = chance(1, 2) ? 1 : (blob + w * n - at) / w;
                    data.erase(data.begin() + at, data.begin() + at + w * k);
                    n -= k;
                    set_count();
                    break;
                }
            }
        }
        count("fault.node_table_damage");
        return true;
    }
    void damaged(PSlot& x, PSlot& y)
    {
        if constexpr (SAVE)
        {
            std::vector<char> data = save_plain(*x.p), orig = data;
            bool cut = chance(1, 3);
            if (cut)
            {
                data.resize(choose((uint32_t)data.size()));
                note("load of a state cut off at byte %zu of %zu", data.size(), orig.size());
                count("fault.truncated_file");
            }
            else if (chance(1, 2) && damage_nodes(data))
                note("load of a state of %zu bytes with a damaged node table", orig.size());
            else
            {
                uint32_t n = 1 + choose_small(4);
                for (uint32_t i = 0; i < n; ++i)
                {
                    uint32_t at = choose((uint32_t)data.size());
                    switch (choose(5))
                    {
                        case 0: data[at] ^= 1 << choose(8); count("fault.bit_flip"); break;
                        case 1: data[at] = (char)choose(256); count("fault.byte_damage"); break;
                        case 2: data[at] = (char)0xFF; count("fault.byte_damage"); break;
                        case 3: data.erase(data.begin() + at); count("fault.byte_lost"); if (data.empty()) data.push_back(0); break;
                        case 4: // a sector from elsewhere (misdirected write)
                        {
                            uint32_t from = choose((uint32_t)data.size()), len = 1 + choose(16);
                            for (uint32_t j = 0; j < len && from + j < data.size() && at + j < data.size(); ++j)
                                data[at + j] = orig[from + j < orig.size() ? from + j : 0];
                            count("fault.misdirected_write");
                            break;
                        }
                    }
                }
                note("load of a state of %zu bytes damaged in %u places", orig.size(), n);
            }
            nontrivial();
            M old = y.m;
            DevPlan rd;
            rd.chunk = chance(1, 2) ? 1 + choose(9) : 0;
            std::string why;
            int rc = load(*y.p, data, rd, FaultPlan{}, why, chance(1, 8));
            note("  -> %s", rc ? "rejected" : "accepted");
            count(rc ? "damaged_state_rejected" : "damaged_state_loaded");
            if (rc)
            {
                SIM_CHECK(contentp(*y.p) == old, "trie:load-half-done", "a rejected load changed the map");
                expect(y);
                return;
            }
            SIM_CHECK(!cut, "trie:load-truncated", "a state cut off at byte %zu of %zu was accepted", data.size(), orig.size());
            // whatever was loaded has to be safe to use
            const P& p = *y.p;
            size_t n = 0;
            std::vector<K> keys;
            for (auto it = p.begin(), ite = p.end(); it != ite; ++it)
            {
                SIM_CHECK(n++ <= data.size(), "trie:load-cycle", "iteration over a map loaded from damaged data visits more entries than the data has bytes");
                volatile int v = Val<V>::id((*it).second);
                (void)v;
                keys.push_back(K((*it).first));
            }
            size_t b = 0;
            for (auto it = p.end(); it != p.begin(); ++b)
            {
                SIM_CHECK(b <= data.size(), "trie:load-cycle", "backward iteration does not end");
                --it;
            }
            SIM_CHECK(b == n, "trie:load-insane", "a map loaded from damaged data has %zu entries forwards and %zu backwards", n, b);
            for (auto& k : keys)
            {
                auto it = p.find(view(k));
                if (it != p.end())
                    SIM_CHECK((*it).first == k, "trie:load-insane", "find(%s) gives another key", str(k).c_str());
                size_t r = 0;
                auto res = p.prefix_search(view(k));
                for (auto i = res.begin(), e = res.end(); i != e; ++i)
                    SIM_CHECK(r++ <= n, "trie:load-cycle", "a prefix search does not end");
            }
            for (auto& [k, v] : old)
                p.find(view(k));
            std::unique_ptr<P> c;
            {
                Sut in;
                c = std::make_unique<P>(p);
            }
            if constexpr (!std::is_floating_point_v<V>) // a damaged value may be a NaN
                SIM_CHECK(*c == p, "trie:load-insane", "a copy of a map loaded from damaged data is not equal to it");
            {
                Sut in;
                c.reset();
            }
            // start over with a sane one
            load(*y.p, orig, DevPlan{}, FaultPlan{}, why, false);
            y.m = x.m;
            y.moved = false;
        }
    }
    void overflow_known()
    {
        // a packed form whose positions do not fit into the pack value type
        if constexpr (sizeof(typename TR::pack_value_type) == 1 && std::is_same_v<K, std::string>)
        {
            M m;
            std::unique_ptr<T> t;
            std::unique_ptr<P> p;
            {
                Sut in;
                t = std::make_unique<T>();
            }
            uint32_t n = 20 + choose(60);
            for (uint32_t i = 0; i < n; ++i)
            {
                K k;
                int l = 1 + (int)choose(4);
                for (int j = 0; j < l; ++j)
                    k.push_back((char)('a' + choose(20)));
                m[k] = (int)choose(nvals);
                Sut in;
                t->insert(view(k), Val<V>::mk(m[k]));
            }
            note("pack %zu entries into bytes (%zu needed)", m.size(), packed_size(m));
            bool rejected = false;
            {
                Sut in;
                try { p = std::make_unique<P>(*t); } catch (const mdds::size_error&) { rejected = true; }
            }
            if (!fits(m) && !rejected && m.size() < 254)
            {
                // the root position is the first thing that wraps
                std::map<U, int> first;
                for (auto& [k, v] : m)
                    first[k[0]] = 1;
                size_t root_pos = packed_size(m) - 2 - 2 * first.size();
                bool same = root_pos <= 255;
                Sut in;
                t.reset();
                p.reset();
                if (!same)
                {
                    Pause q;
                    fail("trie:pack-overflow", "packing %zu entries puts the root node at position %zu, which an 8-bit pack value cannot hold, and is not rejected", m.size(), root_pos);
                }
            }
            Sut in;
            t.reset();
            p.reset();
        }
    }
    void run()
    {
        alpha = 2 + (int)choose(6);
        maxlen = 2 + (int)choose(5);
        nvals = 2 + (int)choose(20);
        if constexpr (sizeof(typename TR::pack_value_type) == 1)
            if (mode == Pack && chance(1, 50))
                return overflow_known();
        s.resize(1 + choose(2));
        for (auto& x : s)
        {
            Sut in;
            x.t = std::make_unique<T>();
        }
        if (mode != Map)
        {
            ps.resize(2);
            for (auto& x : ps)
            {
                Sut in;
                x.p = std::make_unique<P>();
            }
        }
        uint32_t len = mode == Map ? 40 : 30;
        len = 10 + choose(len);
        while (more(len))
        {
            uint32_t xi = choose((uint32_t)s.size());
            Slot& x = s[xi];
            Slot& y = s[choose((uint32_t)s.size())];
            if (x.moved)
            {
                note("t%u: cleared after its content was moved away", xi);
                Sut in;
                if (chance(1, 2))
                    x.t->clear();
                else
                    *x.t = T();
                x.moved = false;
                x.m.clear();
                continue;
            }
            if (mode != Map && chance(1, 3))
            {
                PSlot& px = ps[choose(2)];
                PSlot& py = ps[choose(2)];
                packed_step(x, px, py);
                for (auto& z : ps)
                    if (!z.moved)
                        expect(z);
                continue;
            }
            M n = x.m;
            switch (weighted({40, 14, 3, 1, 3, 3, 3, 3, 3}))
            {
                case 0:
                {
                    K k = chance(1, 3) ? near(x.m) : key();
                    int v = (int)choose(nvals);
                    note("t%u: insert %s=%d", xi, str(k).c_str(), v);
                    n[k] = v;
                    V vv = Val<V>::mk(v);
                    act("insert", x.t.get(), &x.m, n, [&] { x.t->insert(view(k), vv); });
                    break;
                }
                case 1:
                {
                    K k = near(x.m);
                    note("t%u: erase %s", xi, str(k).c_str());
                    bool there = n.erase(k), r = false;
                    nontrivial();
                    if (act("erase", x.t.get(), &x.m, n, [&] { r = x.t->erase(view(k)); }))
                        SIM_CHECK(r == there, "trie:erase", "erase(%s) returned %d, expected %d", str(k).c_str(), r, there);
                    break;
                }
                case 2: // change a value through an iterator
                {
                    K k = near(x.m);
                    auto it = x.t->find(view(k));
                    bool there = x.m.count(k);
                    SIM_CHECK((it != x.t->end()) == there, "trie:find", "mutable find(%s) is wrong", str(k).c_str());
                    if (!there)
                        break;
                    int v = (int)choose(nvals);
                    note("t%u: %s set to %d through an iterator", xi, str(k).c_str(), v);
                    {
                        Sut in;
                        it->second = Val<V>::mk(v);
                    }
                    x.m[k] = v;
                    break;
                }
                case 3:
                {
                    note("t%u: clear", xi);
                    Sut in;
                    x.t->clear();
                    x.m.clear();
                    break;
                }
                case 4:
                {
                    if (y.moved) break;
                    note("t%zu = t%u", (size_t)(&y - s.data()), xi);
                    M m = x.m;
                    if (act("assignment", y.t.get(), &y.m, m, [&] { *y.t = *x.t; }))
                        SIM_CHECK(*y.t == *x.t, "trie:copy-equal", "a copy does not compare equal");
                    break;
                }
                case 5:
                {
                    std::unique_ptr<T> c;
                    note("t%u replaced by a copy", xi);
                    if (act("copy construction", x.t.get(), &x.m, n, [&] { c = std::make_unique<T>(*x.t); }))
                    {
                        Sut in;
                        SIM_CHECK(*c == *x.t, "trie:copy-equal", "a copy does not compare equal");
                        x.t = std::move(c);
                    }
                    break;
                }
                case 6:
                {
                    if (&y == &x) break;
                    note("t%zu = move(t%u)", (size_t)(&y - s.data()), xi);
                    {
                        Sut in;
                        if (chance(1, 2))
                            *y.t = std::move(*x.t);
                        else
                            y.t = std::make_unique<T>(std::move(*x.t));
                    }
                    y.m = x.m;
                    y.moved = false;
                    x.moved = true;
                    break;
                }
                case 7:
                {
                    if (y.moved) break;
                    note("swap");
                    Sut in;
                    x.t->swap(*y.t);
                    std::swap(x.m, y.m);
                    break;
                }
                case 8:
                {
                    if (y.moved) break;
                    bool e = *x.t == *y.t;
                    SIM_CHECK(e == (x.m == y.m), "trie:equality", "operator== gives %d, expected %d", e, x.m == y.m);
                    break;
                }
            }
            for (auto& z : s)
                if (!z.moved)
                {
                    state(hash(z.m));
                    if (mode == Map || mode == Fault || chance(1, 6))
                        expect(z);
                }
        }
        for (auto& x : s)
        {
            Sut in;
            x.t.reset();
        }
        for (auto& x : ps)
        {
            Sut in;
            x.p.reset();
        }
    }
    void packed_step(Slot& x, PSlot& px, PSlot& py)
    {
        if (px.moved || chance(1, 3))
        {
            if (&px == &py || chance(1, 2) || px.moved)
                pack_into(px, x);
            if (px.moved)
            {
                Sut in;
                *px.p = P();
                px.m.clear();
                px.moved = false;
            }
            return;
        }
        if (SAVE && mode == Save && chance(2, 3))
            return roundtrip(px, py.moved ? px : py);
        if (SAVE && mode == Load && chance(2, 3))
            return damaged(px, py.moved ? px : py);
        if (SAVE && mode == Fault && chance(1, 3))
            return roundtrip(px, py.moved ? px : py);
        switch (choose(5))
        {
            case 0:
            {
                if (py.moved) break;
                note("packed assignment");
                M m = px.m;
                if (act("packed assignment", py.p.get(), &py.m, m, [&] { *py.p = *px.p; }))
                    SIM_CHECK(*py.p == *px.p, "trie:copy-equal", "a packed copy does not compare equal");
                break;
            }
            case 1:
            {
                if (&px == &py) break;
                bool assign = chance(1, 2);
                note("packed move%s", assign ? " assignment" : "");
                M m = px.m, none;
                bool ok;
                if (assign)
                    ok = act("packed move", px.p.get(), &px.m, none, [&] { *py.p = std::move(*px.p); });
                else
                    ok = act("packed move", px.p.get(), &px.m, none, [&] { auto* q = new P(std::move(*px.p)); py.p.reset(q); });
                if (!ok)
                {
                    SIM_CHECK(px.m == m && content(*py.p) == py.m, "trie:half-done", "a failed move changed the maps");
                    break;
                }
                py.m = m;
                py.moved = false;
                px.moved = true;
                if (chance(1, 2))
                {
                    // documented by its move constructor: the source becomes a valid empty map
                    px.moved = false;
                    px.m.clear();
                    Pause q;
                    expect(px);
                }
                break;
            }
            case 2:
            {
                if (py.moved) break;
                note("packed swap");
                Sut in;
                px.p->swap(*py.p);
                std::swap(px.m, py.m);
                break;
            }
            case 3:
            {
                if (py.moved) break;
                bool e = *px.p == *py.p;
                SIM_CHECK(e == (px.m == py.m), "trie:equality", "operator== of packed maps gives %d, expected %d", e, px.m == py.m);
                break;
            }
            case 4:
            {
                std::unique_ptr<P> c;
                note("packed copy");
                M m = px.m;
                if (act("packed copy construction", px.p.get(), &px.m, m, [&] { c = std::make_unique<P>(*px.p); }))
                {
                    Sut in;
                    px.p = std::move(c);
                }
                break;
            }
        }
    }
};

template<int N> struct Cfg;
template<> struct Cfg<0> { using W = World<std::string, int, mdds::trie::default_traits, true>; static constexpr const char* name = "string -> int"; };
template<> struct Cfg<1> { using W = World<std::string, std::string, Tr32, true>; static constexpr const char* name = "string -> string, 32-bit"; };
template<> struct Cfg<2> { using W = World<Seq<uint16_t>, double, Tr16, true>; static constexpr const char* name = "uint16 sequence -> double, 16-bit"; };
template<> struct Cfg<3> { using W = World<std::u16string, std::vector<int16_t>, mdds::trie::default_traits, true>; static constexpr const char* name = "u16string -> vector"; };
template<> struct Cfg<4> { using W = World<std::string, int, Tr8, true>; static constexpr const char* name = "string -> int, 8-bit"; };
template<> struct Cfg<5> { using W = World<Seq<int>, HeapTok, mdds::trie::default_traits, false>; static constexpr const char* name = "int sequence -> value"; };
template<> struct Cfg<6> { using W = World<std::string, SlowTok, mdds::trie::default_traits, false>; static constexpr const char* name = "string -> value whose moves may fail"; };
constexpr int kCfgs = 7;

template<int N> void go(int mode);
template<int N> void go_impl(int mode)
{
    typename Cfg<N>::W w;
    note("types %s", Cfg<N>::name);
    w.mode = (decltype(w.mode))mode;
    w.run();
}
} // namespace htrie

#if PART > 0
template<> void htrie::go<PART - 1>(int mode) { go_impl<PART - 1>(mode); }
#else
namespace htrie {
template<> void go<0>(int);
template<> void go<1>(int);
template<> void go<2>(int);
template<> void go<3>(int);
template<> void go<4>(int);
template<> void go<5>(int);
template<> void go<6>(int);
void dispatch(int mode, bool saveable)
{
    cmp_faults = false;
    switch (choose(saveable ? kCfgs - 2 : kCfgs))
    {
        case 0: return go<0>(mode);
        case 1: return go<1>(mode);
        case 2: return go<2>(mode);
        case 3: return go<3>(mode);
        case 4: return go<4>(mode);
        case 5: return go<5>(mode);
        default: return go<6>(mode);
    }
}
}
const std::vector<Prop>& sim::properties()
{
    static const std::vector<Prop> p{
        {"T01", [] { htrie::dispatch(0, false); }, 20000, 3000000, "a seeded history that erases keys"},
        {"T02", [] { htrie::dispatch(1, false); }, 30000, 3000000, "a seeded history in which a map is packed"},
        {"T03", [] { htrie::dispatch(2, true); }, 30000, 3000000, "a seeded history that saves to a device that fails"},
        {"T04", [] { htrie::dispatch(3, true); }, 30000, 3000000, "a seeded history that loads truncated or damaged state"},
        {"T05", [] { htrie::dispatch(4, false); }, 30000, 3000000, "a seeded history in which an operation was failed by an injected fault, or which erases or packs"},
    };
    return p;
}
#endif
