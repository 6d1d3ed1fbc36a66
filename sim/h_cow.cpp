// Copy-on-write multi_type_vectors: families of containers that share blocks, under simulated
// histories and faults, compared with plain sequences.
#include "mtv_world.hpp"
using namespace sim;
#if PART == 0
std::set<const void*> sim::g_objs;
#endif
namespace hcow {
namespace mtv = mdds::mtv;
template<mtv::lu_factor_t LU, typename... Ks> struct Tr : mtv::default_traits {
    using event_func = Ledger;
    static constexpr bool enable_cow = true;
    static constexpr mtv::lu_factor_t loop_unrolling = LU;
    using block_funcs = mtv::element_block_funcs<typename Ks::Blk...>;
};
using L = mtv::lu_factor_t;
template<L LU, typename... Ks> using Soa = MtvWorld<mtv::soa::multi_type_vector<Tr<LU, Ks...>>, true, false, Ks...>;

template<int N> struct Cfg;
template<> struct Cfg<0> { using W = Soa<L::lu16, KInt, KStr, KBool>; static constexpr const char* name = "values"; };
template<> struct Cfg<1> { using W = Soa<L::none, KHTok, KVTok, KDTok>; static constexpr const char* name = "values in three kinds of stores"; };
template<> struct Cfg<2> { using W = Soa<L::lu8, KA, KB, KInt>; static constexpr const char* name = "managed objects"; };
template<> struct Cfg<3> { using W = Soa<L::lu4, KD, KE>; static constexpr const char* name = "managed objects in deques"; };
template<> struct Cfg<4> { using W = Soa<L::lu32, KHTok, KA>; static constexpr const char* name = "values and managed objects"; };

template<int N> void go(int mode);
template<int N> void go_impl(int mode)
{
    typename Cfg<N>::W w;
    note("types %s", Cfg<N>::name);
    w.mode = mode;
    w.run();
}
} // namespace hcow
#if PART > 0
template<> void hcow::go<PART - 1>(int mode) { go_impl<PART - 1>(mode); }
#else
namespace hcow {
template<> void go<0>(int);
template<> void go<1>(int);
template<> void go<2>(int);
template<> void go<3>(int);
template<> void go<4>(int);
void dispatch(int mode)
{
    cmp_faults = false;
    switch (choose(5))
    {
        case 0: return go<0>(mode);
        case 1: return go<1>(mode);
        case 2: return go<2>(mode);
        case 3: return go<3>(mode);
        default: return go<4>(mode);
    }
}
}
const std::vector<Prop>& sim::properties()
{
    static const std::vector<Prop> p{
        {"M06", [] { hcow::dispatch(kCow); }, 60000, 4000000, "a seeded history in which vectors came to share blocks"},
        {"M07", [] { hcow::dispatch(kCowFaults); }, 60000, 4000000, "a seeded history in which sharing or un-sharing was failed by an injected fault or refused"},
    };
    return p;
}
#endif
