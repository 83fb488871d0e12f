// Stateless explorer: enumerates every sequence of choices a scenario can make, by depth-first
// re-execution of the real code, in several worker processes that share one choice-tree.
#ifndef MC_EXPLORER_HPP
#define MC_EXPLORER_HPP
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <functional>

namespace mc {

// ---- failure categories; a check judges those in its scope, mismatches of other categories are only counted
enum Cat {
    CONTROL, EXEC, VALUE, BOOLV, EXC, UNWIND, LIFE, COPYMOVE, REFID, FUNCTOR, STACK, MOVE, INDEP,
    ITERIN, ITEROUT, ALIGN, FAILX, MODE, REPEAT, THREAD, ALLOC, LEAK, COST, HARNESS, NCAT
};
extern const char * const cat_name[NCAT];

struct Scenario {
    std::string name;
    std::string what;              // bounds, in words
    std::function< void() > run;
    int tier;                      // 0 quick, 1 thorough only
    int cut;                       // number of leading choices used to split the tree over the workers
};
void add_scenario( std::string name, std::string what, std::function< void() > run, int tier = 0, int cut = 4);

// ---- called by scenarios
int choose( int n);                                    // 0..n-1, every value explored
void fail( Cat c, const char * fmt, ...);              // oracle mismatch; returns only if out of scope
void fail_sig( Cat c, const std::string & sig, const char * fmt, ...); // same, may be a known finding
void note( const char * fmt, ...);                     // trace line (printed in replay mode)
bool verbose();
[[noreturn]] void abandon();                           // execution cannot be judged any further
void state( std::uint64_t h);                          // a state of the model was reached
void transition( std::uint64_t from, std::uint64_t op); // an operation was taken in a state
void observe( std::uint64_t v);                        // goes into the observation digest (compared between build modes)
// what an execution has exercised so far; a check may judge only executions that exercised what it is about
enum Rel { R_MOVE = 1, R_FAIL = 2, R_MULTI = 4, R_THREAD = 8, R_THROW = 16 };
void relevant( unsigned r);
void request_rerun(); bool is_rerun();                 // run the same execution once more (heap balance)
extern bool digests;
extern std::uint64_t n_checks;                         // individual oracle comparisons
// set to call a function at start/end of each execution
extern void ( * on_begin)(); extern void ( * on_end)();

inline std::uint64_t mix( std::uint64_t h, std::uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + ( h << 6) + ( h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 32;
    return h;
}

int explorer_main( int argc, char ** argv);
}
#endif
