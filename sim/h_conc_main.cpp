// Entry points of the concurrency harnesses that were linked in (WITH_*: one per property).
#include "conc_common.hpp"
namespace hconc {
void trees();
void vectors();
void tries();
void cow_threads();
void exec_threads();
}
const std::vector<sim::Prop>& sim::properties()
{
    static const char* rule = "a seeded schedule in which threads were switched while several had work left on their containers";
    static const std::vector<Prop> p{
#ifdef WITH_C01
        {"C01", hconc::trees, 100000, 3000000, rule},
#endif
#ifdef WITH_C02
        {"C02", hconc::vectors, 100000, 3000000, rule},
#endif
#ifdef WITH_C03
        {"C03", hconc::tries, 100000, 3000000, rule},
#endif
#ifdef WITH_M08
        {"M08", hconc::cow_threads, 100000, 3000000, rule},
#endif
#ifdef WITH_M09
        {"M09", hconc::exec_threads, 100000, 3000000, "a seeded schedule in which workers of one call were switched while several had work left"},
#endif
    };
    return p;
}
