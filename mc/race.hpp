// Happens-before race detection for translation units compiled with -fsanitize=thread but linked with the runtime in race.cpp
// instead of libtsan: exact vector clocks per byte, threads are those of the controlled scheduler, nothing depends on timing.
#ifndef MC_RACE_HPP
#define MC_RACE_HPP
#include <cstddef>
#include <cstdint>
namespace mc { namespace race {
enum { NT = 3 };
struct VC { std::uint32_t c[NT]; };
void begin();                                   // new execution
void enter( int t);                             // this OS thread now acts as model thread t; -1: not observed
void take( VC const& v);                        // everything before `v` happened before what the current thread does next
void give( VC & v);                             // v := everything the current thread has done
void ignore( const void * p, std::size_t n);    // state of the harness
void shared( bool on);                          // remember which library memory is touched by more than one thread
extern unsigned long accesses;
struct Report { bool any, write, write0; const void * addr; int t, t0; };
extern Report report;
int locks_held();
} }
#endif
