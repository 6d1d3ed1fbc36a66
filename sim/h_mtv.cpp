// multi_type_vector (both layouts) under simulated histories, compared with plain sequences.
#include "mtv_world.hpp"
using namespace sim;
#if PART == 0
std::set<const void*> sim::g_objs;
#endif
namespace hmtv {
namespace mtv = mdds::mtv;
template<mtv::lu_factor_t LU, typename... Ks> struct Tr : mtv::default_traits {
    using event_func = Ledger;
    static constexpr mtv::lu_factor_t loop_unrolling = LU;
    using block_funcs = mtv::element_block_funcs<typename Ks::Blk...>;
};
using L = mtv::lu_factor_t;
template<L LU, typename... Ks> using Soa = MtvWorld<mtv::soa::multi_type_vector<Tr<LU, Ks...>>, false, false, Ks...>;
template<L LU, typename... Ks> using Aos = MtvWorld<mtv::aos::multi_type_vector<Tr<LU, Ks...>>, false, false, Ks...>;

template<int N> struct Cfg;
template<> struct Cfg<0> { using W = Soa<L::lu16, KInt, KStr, KBool, KDbl>; static constexpr const char* name = "soa, values"; };
template<> struct Cfg<1> { using W = Soa<L::none, KHTok, KVTok, KDTok>; static constexpr const char* name = "soa, values in three kinds of stores"; };
template<> struct Cfg<2> { using W = Soa<L::lu8, KA, KB, KInt>; static constexpr const char* name = "soa, managed objects"; };
template<> struct Cfg<3> { using W = Soa<L::lu4, KStr, KC, KD, KE>; static constexpr const char* name = "soa, managed objects in other stores"; };
template<> struct Cfg<4> { using W = Aos<L::lu16, KInt, KStr, KBool, KHTok>; static constexpr const char* name = "aos, values"; };
template<> struct Cfg<5> { using W = Aos<L::lu8, KA, KB, KInt>; static constexpr const char* name = "aos, managed objects"; };
template<> struct Cfg<6> { using W = Aos<L::none, KDTok, KVTok, KC, KD>; static constexpr const char* name = "aos, mixed stores"; };
template<> struct Cfg<7> { using W = Soa<L::lu32, KHTok, KA>; static constexpr const char* name = "soa, values and managed objects"; };
struct TrStd : Tr<L::lu16, KInt> { using block_funcs = mtv::standard_element_blocks_traits::block_funcs; };
template<> struct Cfg<8> { using W = MtvWorld<mtv::soa::multi_type_vector<TrStd>, false, false, KI8, KU16, KU32, KI64>; static constexpr const char* name = "soa, standard types"; };
template<> struct Cfg<9> { using W = MtvWorld<mtv::aos::multi_type_vector<TrStd>, false, false, KU8, KI16, KU64, KFlt>; static constexpr const char* name = "aos, standard types"; };

template<int N> void go(int mode);
template<int N> void go_impl(int mode)
{
    typename Cfg<N>::W w;
    note("types %s", Cfg<N>::name);
    w.mode = mode;
    w.run();
}
} // namespace hmtv
#if PART > 0
template<> void hmtv::go<PART - 1>(int mode) { go_impl<PART - 1>(mode); }
#else
namespace hmtv {
template<> void go<0>(int);
template<> void go<1>(int);
template<> void go<2>(int);
template<> void go<3>(int);
template<> void go<4>(int);
template<> void go<5>(int);
template<> void go<6>(int);
template<> void go<7>(int);
template<> void go<8>(int);
template<> void go<9>(int);
void dispatch(int mode)
{
    cmp_faults = false;
    int c = (int)choose(mode == kManaged ? 8 : 10);
    if (mode == kManaged)
    {
        static const int m[] = {2, 3, 5, 6, 7, 2, 5, 3};
        c = m[c];
    }
    switch (c)
    {
        case 0: return go<0>(mode);
        case 1: return go<1>(mode);
        case 2: return go<2>(mode);
        case 3: return go<3>(mode);
        case 4: return go<4>(mode);
        case 5: return go<5>(mode);
        case 6: return go<6>(mode);
        case 7: return go<7>(mode);
        case 8: return go<8>(mode);
        default: return go<9>(mode);
    }
}
}
const std::vector<Prop>& sim::properties()
{
    static const std::vector<Prop> p{
        {"M01", [] { hmtv::dispatch(kContent); }, 60000, 4000000, "a seeded history that builds a vector of more than three blocks"},
        {"M02", [] { hmtv::dispatch(kHints); }, 60000, 4000000, "a seeded history with hinted writes"},
        {"M03", [] { hmtv::dispatch(kEvents); }, 60000, 4000000, "a seeded history with transfers or swaps between vectors"},
        {"M04", [] { hmtv::dispatch(kManaged); }, 60000, 4000000, "a seeded history that stores managed objects"},
        {"M05", [] { hmtv::dispatch(kFaults); }, 60000, 4000000, "a seeded history in which a copy or clone was failed by an injected fault or refused"},
        {"M11", [] { hmtv::dispatch(kBroken); }, 60000, 4000000, "a seeded history in which a change failed half-way"},
    };
    return p;
}
#endif
