// Element kinds, managed objects and event ledger shared by the multi_type_vector harnesses.
#pragma once
#include "sim.hpp"
#include "wander.hpp"
#include "tok.hpp"
#include <mdds/multi_type_vector.hpp>
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <algorithm>
#include <stdexcept>

namespace sim {

// Objects owned through pointers.  Every live one is registered, so that the harness can tell at
// each step which objects still exist.
extern std::set<const void*> g_objs;
template<int N>
struct Obj : HeapTok {
    int order = -1;     // set by the cloner: how many values this cloner instance cloned before
    void reg() { Pause p; g_objs.insert(this); }
    Obj() { reg(); }
    Obj(int x) : HeapTok(x) { reg(); }
    Obj(const Obj& o) : HeapTok(o) { reg(); }
    ~Obj() { Pause p; g_objs.erase(this); }
    friend bool operator==(const Obj& a, const Obj& b) { return (const HeapTok&)a == (const HeapTok&)b; }
};
using ObjA = Obj<0>;   // managed, copyable, default store
using ObjB = Obj<1>;   // managed, not copyable but clonable, std::vector store
using ObjC = Obj<2>;   // managed, neither copyable nor clonable, default store
using ObjD = Obj<3>;   // managed, copyable, std::deque store
using ObjE = Obj<4>;   // managed, clonable, std::deque store
template<int N> struct ValT : HeapTok {
    using HeapTok::HeapTok;
    friend bool operator==(const ValT& a, const ValT& b) { return (const HeapTok&)a == (const HeapTok&)b; }
};
using VTok = ValT<0>;  // std::vector store
using DTok = ValT<1>;  // std::deque store

constexpr int kUser = mdds::mtv::element_type_user_start;
using HTokBlk = mdds::mtv::default_element_block<kUser, HeapTok>;
using VTokBlk = mdds::mtv::default_element_block<kUser + 1, VTok, std::vector>;
using DTokBlk = mdds::mtv::default_element_block<kUser + 2, DTok, std::deque>;
using ABlk = mdds::mtv::managed_element_block<kUser + 3, ObjA>;
using BBlk = mdds::mtv::noncopyable_managed_element_block<kUser + 4, ObjB, std::vector>;
using CBlk = mdds::mtv::noncopyable_managed_element_block<kUser + 5, ObjC>;
using DBlk = mdds::mtv::managed_element_block<kUser + 6, ObjD, std::deque>;
using EBlk = mdds::mtv::noncopyable_managed_element_block<kUser + 7, ObjE, std::deque>;

MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(HeapTok, kUser, HeapTok(), HTokBlk)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(VTok, kUser + 1, VTok(), VTokBlk)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(DTok, kUser + 2, DTok(), DTokBlk)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(ObjA, kUser + 3, nullptr, ABlk)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(ObjB, kUser + 4, nullptr, BBlk)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(ObjC, kUser + 5, nullptr, CBlk)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(ObjD, kUser + 6, nullptr, DBlk)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(ObjE, kUser + 7, nullptr, EBlk)

// What the owner of a vector sees of its blocks: each one announced and not yet released.
inline bool g_ledger_on = false;   // only the property about events judges the events
// A range set over the upper part of a block may put another block in its place without a word
// ("We intentionally don't trigger element block events here."): while one runs, blocks are told
// apart by their types only.
inline bool g_ledger_tol = false;
struct Ledger {
    using Block = mdds::mtv::base_element_block;
    std::multimap<const Block*, mdds::mtv::element_t> held;
    std::vector<mdds::mtv::element_t> unknown;
    Ledger() noexcept {}
    Ledger(const Ledger&) noexcept {}
    Ledger(Ledger&& o) noexcept { Pause p; held.swap(o.held); }
    void replaced(const Ledger& o)
    {
        if (g_ledger_on && this != &o && !held.empty())
            fail("mtv:event-lost", "an event handler was overwritten while it still had %zu blocks on its books", held.size());
    }
    Ledger& operator=(const Ledger& o) noexcept
    {
        replaced(o);
        return *this;
    }
    Ledger& operator=(Ledger&& o) noexcept
    {
        Pause p;
        replaced(o);
        held.swap(o.held);
        return *this;
    }
    ~Ledger()
    {
        Pause p;
        if (g_ledger_on && !held.empty())
            fail("mtv:event-unbalanced", "the container is gone but %zu blocks were never reported released", held.size());
    }
    void element_block_acquired(const Block* b)
    {
        if (!g_ledger_on)
            return;
        Pause p;
        count("events");
        if (!b)
            fail("mtv:event-null", "a null block was reported acquired");
        if (!g_ledger_tol && held.count(b))
            fail("mtv:event-twice", "a block was reported acquired twice");
        held.emplace(b, mdds::mtv::get_block_type(*b));
    }
    void element_block_released(const Block* b)
    {
        if (!g_ledger_on)
            return;
        Pause p;
        count("events");
        if (!b)
            fail("mtv:event-null", "a null block was reported released");
        auto t = mdds::mtv::get_block_type(*b);   // it must still exist
        auto it = held.find(b);
        if (it != held.end())
            held.erase(it);
        else if (g_ledger_tol)
            unknown.push_back(t);
        else
            fail("mtv:event-unknown", "a block was reported released that was never reported acquired, or twice");
    }
    // Compares the books with the blocks there are.
    void settle(const std::vector<std::pair<const Block*, mdds::mtv::element_t>>& blocks)
    {
        if (!g_ledger_on)
            return;
        std::map<mdds::mtv::element_t, int> open;
        auto left = held;
        for (auto& [b, t] : blocks)
        {
            auto it = left.find(b);
            if (it != left.end())
                left.erase(it);
            else if (g_ledger_tol)
                ++open[t];
            else
                fail("mtv:event-missing", "a block in the container was never reported acquired, or was reported released");
        }
        for (auto t : unknown)
            ++open[t];
        unknown.clear();
        for (auto& [b, t] : left)
        {
            --open[t];
            if (!g_ledger_tol)
                fail("mtv:event-stale", "a block is on the books that is no longer in the container");
        }
        for (auto& [t, n] : open)
            if (n)
                fail(n > 0 ? "mtv:event-missing" : "mtv:event-stale", "blocks of type %d: the events and the container differ by %d", (int)t, n);
        if (g_ledger_tol)
            held.clear(), held.insert(blocks.begin(), blocks.end());
    }
};

// ---------------------------------------------------------------- element kinds
template<typename TT, typename B> struct ValKind {
    using T = TT;
    using Blk = B;
    static constexpr bool managed = false, copyable = true, clonable = true;
    static const void* ptr(const T&) { return nullptr; }
    static void drop(T&) {}
};
struct KInt : ValKind<int32_t, mdds::mtv::int32_element_block> {
    static T make(int v) { return v * 1000 + 7; }
    static int val(const T& x) { return (x - 7) / 1000; }
};
struct KDbl : ValKind<double, mdds::mtv::double_element_block> {
    static T make(int v) { return v * 0.5; }
    static int val(const T& x) { return (int)(x * 2); }
};
// the other standard types, with values at an end of their range
#define SIM_STD_KIND(NAME, TYPE, BLK, FROM, UNIT) \
    struct NAME : ValKind<TYPE, mdds::mtv::BLK> { \
        static T make(int v) { return T(T(FROM) + T(T(v) * T(UNIT))); } \
        static int val(const T& x) { return int(T(x - T(FROM)) / T(UNIT)); } \
    };
SIM_STD_KIND(KI8, int8_t, int8_element_block, -60, 10)
SIM_STD_KIND(KU8, uint8_t, uint8_element_block, 60, 15)
SIM_STD_KIND(KI16, int16_t, int16_element_block, -16000, 2500)
SIM_STD_KIND(KU16, uint16_t, uint16_element_block, 30000, 2500)
SIM_STD_KIND(KU32, uint32_t, uint32_element_block, 2500000000u, 100000000u)
SIM_STD_KIND(KI64, int64_t, int64_element_block, -(1ll << 62), 1ll << 57)
SIM_STD_KIND(KU64, uint64_t, uint64_element_block, 1ull << 63, 1ull << 57)
SIM_STD_KIND(KFlt, float, float_element_block, 0.5f, 1e20f)
struct KBool : ValKind<bool, mdds::mtv::boolean_element_block> {
    static T make(int v) { return v & 1; }
    static int val(const T& x) { return x; }
};
struct KStr : ValKind<std::string, mdds::mtv::string_element_block> {
    static T make(int v) { return "s" + std::to_string(v) + (v % 3 ? "" : "-longer-than-the-small-string-buffer"); }
    static int val(const T& x) { return x.empty() ? -1 : atoi(x.c_str() + 1); }
};
template<typename TT, typename B> struct TokKind : ValKind<TT, B> {
    static TT make(int v) { return TT(v); }
    static int val(const TT& x) { x.alive("read"); return x.v; }
};
using KHTok = TokKind<HeapTok, HTokBlk>;
using KVTok = TokKind<VTok, VTokBlk>;
using KDTok = TokKind<DTok, DTokBlk>;
template<typename O, typename B, bool Copy, bool Clone> struct ObjKind {
    using T = O*;
    using Blk = B;
    static constexpr bool managed = true, copyable = Copy, clonable = Clone;
    static T make(int v) { return new O(v); }
    static int val(const T& x)
    {
        if (!x || !g_objs.count(x))
            fail("mtv:dead-object", "an element refers to an object that was deleted");
        x->alive("read");
        return x->v;
    }
    static const void* ptr(const T& x) { return x; }
    static void drop(T& x) { delete x; x = nullptr; }
};
using KA = ObjKind<ObjA, ABlk, true, true>;
using KB = ObjKind<ObjB, BBlk, false, true>;
using KC = ObjKind<ObjC, CBlk, false, false>;
using KD = ObjKind<ObjD, DBlk, true, true>;
using KE = ObjKind<ObjE, EBlk, false, true>;

} // namespace sim

// Clones in stored order, one cloner per block (documented): the cloner counts.
template<> struct mdds::mtv::clone_value<sim::ObjB*> {
    int n = 0;
    sim::ObjB* operator()(const sim::ObjB* p)
    {
        auto* q = new sim::ObjB(*p);
        q->order = n++;
        return q;
    }
};
template<> struct mdds::mtv::clone_value<sim::ObjE*> {
    int n = 0;
    sim::ObjE* operator()(const sim::ObjE* p)
    {
        auto* q = new sim::ObjE(*p);
        q->order = n++;
        return q;
    }
};
