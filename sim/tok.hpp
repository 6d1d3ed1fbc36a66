// Value types handed to the containers: they detect use of dead or never-built objects, count live
// instances, and their copy / assignment / comparison are callbacks the fault plan can make throw.
#pragma once
#include "sim.hpp"
#include <functional>
#include <memory>
#include <ostream>

namespace sim {

template<bool NoexceptMove, bool Heap>
struct BasicTok {
    static constexpr uint32_t kMagic = 0x70C0A11Eu;
    int v = 0;
    uint32_t magic = kMagic;
    int* heap = nullptr;

    void born()
    {
        magic = kMagic;
        ++tok.live;
    }
    int* dup(int x)
    {
        if constexpr (Heap)
            return new int(x);
        else
            return nullptr;
    }
    void alive(const char* op) const
    {
        if (magic != kMagic)
            fail("value:dead", "%s of a value that is not alive (destroyed, or never constructed)", op);
        if (Heap && heap && *heap != v)
            fail("value:corrupt", "%s of a value whose owned memory was changed by someone else", op);
    }
    BasicTok() { heap = dup(0); born(); }
    BasicTok(int x) : v(x) { heap = dup(x); born(); }
    BasicTok(const BasicTok& o)
    {
        o.alive("copy");
        user_point("copy construction");
        v = o.v;
        heap = dup(v);
        born();
    }
    BasicTok(BasicTok&& o) noexcept(NoexceptMove)
    {
        o.alive("move");
        if constexpr (!NoexceptMove)
            user_point("move construction");
        v = o.v;
        heap = o.heap;
        o.heap = nullptr;
        if (Heap)
            o.v = -77777;
        born();
    }
    BasicTok& operator=(const BasicTok& o)
    {
        alive("assignment");
        o.alive("assignment from");
        user_point("copy assignment");
        if (this != &o)
        {
            int* h = dup(o.v);
            delete heap;
            heap = h;
            v = o.v;
        }
        return *this;
    }
    BasicTok& operator=(BasicTok&& o) noexcept(NoexceptMove)
    {
        alive("move assignment");
        o.alive("move assignment from");
        if constexpr (!NoexceptMove)
            user_point("move assignment");
        if (this != &o)
        {
            std::swap(v, o.v);
            std::swap(heap, o.heap);
        }
        return *this;
    }
    ~BasicTok()
    {
        alive("destruction");
        delete heap;
        magic = 0xDEAD;
        --tok.live;
    }
    friend bool operator==(const BasicTok& a, const BasicTok& b)
    {
        a.alive("comparison");
        b.alive("comparison");
        if (cmp_faults)
            user_point("comparison");
        return a.v == b.v;
    }
    friend bool operator!=(const BasicTok& a, const BasicTok& b) { return !(a == b); }
    friend bool operator<(const BasicTok& a, const BasicTok& b)
    {
        a.alive("comparison");
        b.alive("comparison");
        if (cmp_faults)
            user_point("comparison");
        return a.v < b.v;
    }
    friend std::ostream& operator<<(std::ostream& os, const BasicTok& t) { return os << t.v; }
};
using Tok = BasicTok<true, false>;       // nothrow move
using HeapTok = BasicTok<true, true>;    // owns memory
using SlowTok = BasicTok<false, false>;  // moves may throw
} // namespace sim

template<bool A, bool B>
struct std::hash<sim::BasicTok<A, B>> {
    size_t operator()(const sim::BasicTok<A, B>& t) const { return std::hash<int>()(t.v); }
};
