// Histories on multi_type_vector for the concurrency harnesses.
#pragma once
#include "conc_common.hpp"
#include <mdds/multi_type_vector.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
#include <mdds/multi_type_vector/collection.hpp>
#include <array>
#include <deque>

namespace hconc {
namespace mtv = mdds::mtv;
struct Obj {                     // owned through pointers by the vectors
    int v;
    std::string pad;
    Obj(int x) : v(x), pad(x % 2 ? "short" : "longer than the small string buffer") {}
    friend bool operator==(const Obj& a, const Obj& b) { return a.v == b.v && a.pad == b.pad; }
};
constexpr int kObj = mtv::element_type_user_start;
using ObjBlk = mtv::managed_element_block<kObj, Obj>;
using DeqBlk = mtv::default_element_block<kObj + 1, int8_t, std::deque>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(Obj, kObj, nullptr, ObjBlk)

enum { kEmpty, kInt, kStr, kBool, kDbl, kMan, kKinds };
template<typename T> int64_t value_at(const T& v, size_t i)
{
    switch (v.get_type(i))
    {
        case mtv::element_type_empty: return 0;
        case mtv::element_type_int32: return v.template get<int32_t>(i) * 8 + 1;
        case mtv::element_type_boolean: return v.template get<bool>(i) * 8 + 2;
        case mtv::element_type_double: return (int64_t)(v.template get<double>(i) * 2) * 8 + 3;
        case mtv::element_type_string: { std::string s = v.template get<std::string>(i); return (s.empty() ? -1 : atoi(s.c_str() + 1)) * 8 + 4; }
        case kObj: { const Obj* o = v.template get<Obj*>(i); return o ? o->v * 8 + 5 : -5; }
    }
    return -99;
}
template<typename T> void dump(const T& v, Sink& o)
{
    o.add(v.size());
    for (size_t i = 0; i < v.size(); ++i)
        o.add(value_at(v, i));
}
// the same, through blocks
template<typename B> int64_t block_value(const B& b, size_t i)
{
    switch (b.type)
    {
        case mtv::element_type_empty: return 0;
        case mtv::element_type_int32: return mtv::int32_element_block::at(*b.data, i) * 8 + 1;
        case mtv::element_type_boolean: return mtv::boolean_element_block::get_value(*b.data, i) * 8 + 2;
        case mtv::element_type_double: return (int64_t)(mtv::double_element_block::at(*b.data, i) * 2) * 8 + 3;
        case mtv::element_type_string: { const std::string& s = mtv::string_element_block::at(*b.data, i); return (s.empty() ? -1 : atoi(s.c_str() + 1)) * 8 + 4; }
        case kObj: { const Obj* o = ObjBlk::at(*b.data, i); return o ? o->v * 8 + 5 : -5; }
    }
    return -99;
}
template<typename It> void dump_blocks(It it, It end, Sink& o)
{
    for (; it != end; ++it)
    {
        o.add(it->size);
        for (size_t i = 0; i < it->size; ++i)
            o.add(block_value(*it, i));
    }
}
inline std::string str_of(int v) { return "s" + std::to_string(v) + (v % 3 ? "" : "-longer-than-the-small-string-buffer"); }

template<typename F> auto with_values(int kind, int v, int n, F f)
{
    switch (kind)
    {
        case kInt: { std::vector<int32_t> x; for (int i = 0; i < n; ++i) x.push_back(v + i); return f(x); }
        case kStr: { std::vector<std::string> x; for (int i = 0; i < n; ++i) x.push_back(str_of(v + i)); return f(x); }
        case kBool: { std::deque<bool> x; for (int i = 0; i < n; ++i) x.push_back((v + i) & 1); return f(x); }
        case kDbl: { std::vector<double> x; for (int i = 0; i < n; ++i) x.push_back((v + i) * 0.5); return f(x); }
        default:
        {
            // the vector owns the objects only once the call has succeeded
            std::vector<std::unique_ptr<Obj>> own;
            std::vector<Obj*> x;
            for (int i = 0; i < n; ++i)
            {
                own.push_back(std::make_unique<Obj>(v + i));
                x.push_back(own.back().get());
            }
            f(x);
            for (auto& p : own)
                p.release();
            return;
        }
    }
}
using Step = std::array<int, 6>;   // operation, position, second position, kind, value, count
using Hist = std::vector<Step>;
inline Hist mtv_history(int n, bool managed)
{
    Hist h;
    for (int i = 0; i < n; ++i)
    {
        step();
        h.push_back({(int)choose(16), (int)choose(64), (int)choose(64), 1 + (int)choose(managed ? 5 : 4), (int)choose(6), 1 + (int)choose_small(5)});
    }
    return h;
}
// One operation of a history.  `side` is another vector of the same owner.
template<typename T> void apply(T& v, T& side, const Step& s)
{
    size_t sz = v.size(), p = sz ? s[1] % sz : 0, q = sz ? s[2] % sz : 0;
    size_t lo = std::min(p, q), hi = std::max(p, q);
    switch (s[0])
    {
        case 0: case 1:
            if (sz) with_values(s[3], s[4], 1, [&](auto& x) { v.set(p, x[0]); });
            break;
        case 2: case 3:
        {
            int n = (int)std::min<size_t>(s[5], sz - p);
            if (n > 0) with_values(s[3], s[4], n, [&](auto& x) { v.set(p, x.begin(), x.end()); });
            break;
        }
        case 4: case 5:
            if (sz) with_values(s[3], s[4], s[5], [&](auto& x) { v.insert(p, x.begin(), x.end()); });
            else with_values(s[3], s[4], 1, [&](auto& x) { v.push_back(x[0]); });
            break;
        case 6: with_values(s[3], s[4], 1, [&](auto& x) { v.push_back(x[0]); }); break;
        case 7: if (sz) v.insert_empty(p, s[5]); else v.push_back_empty(); break;
        case 8: if (sz) v.set_empty(lo, hi); break;
        case 9: if (sz) v.erase(lo, std::min(hi, lo + 3)); break;
        case 10: v.resize(s[1] % 12); break;
        case 11: if (s[1] % 4 == 0) v.clear(); else v.shrink_to_fit(); break;
        case 12: v.swap(side); break;
        case 13: side = v; break;
        case 14: v = side; break;
        case 15: if (sz && lo < side.size()) v.transfer(lo, std::min({hi, lo + 4, side.size() - 1}), side, lo); break;
    }
}
} // namespace hconc
