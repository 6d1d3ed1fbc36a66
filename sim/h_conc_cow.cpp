// M08: vectors that share blocks copy-on-write, each owned by one thread.
#include "conc_mtv.hpp"

namespace hconc {
struct TrRef : mtv::default_traits {
    using block_funcs = mtv::element_block_funcs<mtv::int32_element_block, mtv::string_element_block, mtv::boolean_element_block, mtv::double_element_block, ObjBlk>;
};
struct TrShared : TrRef {
    static constexpr bool enable_cow = true;
};
using Cow = mtv::soa::multi_type_vector<TrShared>;
using Ref = mtv::soa::multi_type_vector<TrRef>;

struct Act {
    int kind;        // 0: history step, 1: read, 2: copy and drop, 3: detach, 4: clone over side, 5: move, 6: drop side, 7: give the copy up early
    Step s;
    uint64_t fail;   // the n-th allocation of this act fails (0: none)
};
const char* kActs[] = {"change", "read", "copy and drop the copy", "detach", "replace the other by a clone", "move there and back", "empty the other", "exchange the two"};

template<typename T> struct Owner {
    std::unique_ptr<T> v, side;
    // `failed`: read in the reference run, written in the concurrent one
    void act(const Act& a, bool& failed, bool reference, Sink& o)
    {
        if (reference && failed)
        {
            v->clear();
            side->clear();
            return;
        }
        if (!reference && a.fail)
            conc::arm_alloc(a.fail);
        try
        {
            switch (a.kind)
            {
                case 0: apply(*v, *side, a.s); break;
                case 1: dump(*v, o); break;
                case 2: { T c(*v); T d(c); o.add(d.size()); break; }
                case 3: if constexpr (std::is_same_v<T, Cow>) v->detach(); break;
                case 4: { T c = v->clone(); side->swap(c); break; }
                case 5: { T c(std::move(*v)); *v = std::move(c); break; }
                case 6: { T c; side->swap(c); break; }
                case 7: std::swap(v, side); break;
            }
        }
        catch (const std::bad_alloc&)
        {
            if (reference || !conc::alloc_fired())
                throw;
            failed = true;
        }
        if (!reference)
            conc::arm_alloc(0);
        // a change that failed part-way leaves a vector that can be cleared, not necessarily read (M11)
        if (failed)
        {
            v->clear();
            side->clear();
            return;
        }
        dump_blocks_of(*v, o);
        dump(*side, o);
    }
    static void dump_blocks_of(const T& v, Sink& o) { dump(v, o); }
};

void cow_threads()
{
    int n = 2 + (choose(3) == 0);
    Hist h = mtv_history((int)choose_small(10), true);
    size_t size = choose(8);
    std::vector<std::vector<Act>> acts(n);
    bool faults = chance(1, 4);
    for (int t = 0; t < n; ++t)
        for (int i = 0, k = 1 + (int)choose_small(6); i < k; ++i)
        {
            step();
            Act a{(int)weighted({10, 3, 4, 2, 2, 2, 1, 2}), {}, 0};
            a.s = {(int)choose(16), (int)choose(64), (int)choose(64), 1 + (int)choose(5), (int)choose(6), 1 + (int)choose_small(5)};
            if (faults && chance(1, 4))
            {
                a.fail = 1 + choose_small(24);
                if (a.s[3] == kMan)      // who owns the objects handed over in a call that failed is not defined
                    a.s[3] = kStr;
                if (a.s[0] == 15)        // (likewise for a transfer)
                    a.s[0] = 9;
            }
            acts[t].push_back(a);
            note("thread %d: %s (%d at %d,%d kind %d value %d x%d)%s", t + 1, kActs[a.kind], a.s[0], a.s[1], a.s[2], a.s[3], a.s[4], a.s[5], a.fail ? " with a failing allocation" : "");
        }
    bool keep = choose(2), chain = choose(2), others = choose(2);
    std::vector<Owner<Cow>> own(n);
    std::unique_ptr<Cow> src, src2;
    {
        Sut s;
        src = std::make_unique<Cow>(size);
        Cow side(4, 3);
        for (auto& x : h)
            apply(*src, side, x);
        src2 = std::make_unique<Cow>(others ? side : *src);
        for (int t = 0; t < n; ++t)
        {
            own[t].v = std::make_unique<Cow>(chain && t ? *own[t - 1].v : *src);
            own[t].side = std::make_unique<Cow>(*src2);
        }
        if (!keep)
        {
            src.reset();
            src2.reset();
        }
        else
        {
            // the original belongs to a thread, too
            std::swap(own[0].v, src);
            src.reset();
        }
    }
    std::vector<std::vector<Sink>> got(n);
    std::vector<std::deque<bool>> failed(n);
    std::vector<int> at(n, 0);
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < n; ++t)
    {
        got[t].resize(acts[t].size());
        failed[t].resize(acts[t].size());
        bodies.push_back([&, t] {
            for (size_t i = 0; i < acts[t].size(); ++i)
            {
                {
                    conc::Quiet q;
                    at[t] = 1 + acts[t][i].kind * 16 + acts[t][i].s[0];
                    uint64_t x = 5;
                    for (int k = 0; k < n; ++k)
                        x = mix(x, at[k]);
                    state(mix(x, conc::clock() / 64));
                }
                bool f = false;
                own[t].act(acts[t][i], f, false, got[t][i]);
                conc::Quiet q;
                failed[t][i] = f;
                if (f)
                    count("fault.failed_operations");
            }
            own[t].v.reset();
            own[t].side.reset();
        });
    }
    {
        Sut s;
        conc::run(bodies);
    }
    if (conc::overlap())
        nontrivial();
    // one thread, deep copies
    Sut s;
    src2.reset();
    Ref r(size), rside(4, 3);
    for (auto& x : h)
        apply(r, rside, x);
    for (int t = 0; t < n; ++t)
    {
        Owner<Ref> o{std::make_unique<Ref>(r), std::make_unique<Ref>(others ? rside : r)};
        for (size_t i = 0; i < acts[t].size(); ++i)
        {
            Sink e;
            bool f = failed[t][i];
            o.act(acts[t][i], f, true, e);
            if (!f)
                SIM_CHECK(e.v == got[t][i].v, "cow:content", "thread %d after act %zu (%s): [%s], a deep copy would give [%s]", t + 1, i + 1, kActs[acts[t][i].kind],
                          show(got[t][i]).c_str(), show(e).c_str());
            count("operations");
        }
    }
}
} // namespace hconc
