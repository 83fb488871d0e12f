// Coroutines and threads (C20): scripts with coroutines of their own run on several threads under a controlled scheduler.
// Every schedule within the bounds is executed; in each, every memory access of the library and the scripts is observed and
// accesses of different threads that nothing orders (the scheduler orders only the steps of one script) are data races.
#include "tasks.hpp"
#include "race.hpp"
#include <atomic>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
// memory of a mapping is new memory (protected_fixedsize_stack)
extern "C" void * mmap( void * a, size_t n, int prot, int flags, int fd, off_t o) noexcept {
    void * p = reinterpret_cast< void * >( syscall( SYS_mmap, a, n, prot, flags, fd, o));
    if ( p != MAP_FAILED && mc::on_malloc) mc::on_malloc( p, n);
    return p;
}
namespace mc {
namespace {
struct Th { pthread_t th; sem_t go; std::function< void() > job; bool busy; };
Th th[race::NT]; bool up = false; sem_t back;
// one script
struct Act { int k; Task * t; int pos; bool mid; int on; race::VC vc; };
Act act[3]; int nact = 0;
int budget = 0;            // preemptions left
int running = -1;          // script whose step is being executed

void * loop( void * p) { Th & t = * static_cast< Th * >( p); for (;;) { while ( sem_wait( & t.go)) {} t.job(); sem_post( & back); } return 0; }
void start() {
    if ( up) return;
    up = true;
    sem_init( & back, 0, 0);
    for ( int i = 0; i < race::NT; ++i) { sem_init( & th[i].go, 0, 0); th[i].busy = false; pthread_create( & th[i].th, 0, loop, & th[i]); }
    race::ignore( & W, sizeof W); race::ignore( & n_checks, sizeof n_checks); race::ignore( & sched_point, sizeof sched_point); race::ignore( & on_malloc, sizeof on_malloc);
}
struct Off { Off() { race::enter( -1); } };
// inside a step: may another script go on here?
__attribute__(( noinline)) void point() {
    if ( budget <= 0 || running < 0 || W.inject || W.fail_alloc) return;
    int me = running;
    bool other = false;
    for ( int i = 0; i < nact; ++i) if ( i != me && ( act[i].mid || act[i].pos < 5)) other = true;
    if ( ! other || race::locks_held()) return;
    int t = act[me].on;
    race::enter( -1);
    if ( choose( 2)) {
        --budget;
        note( "    (script %d is preempted)", me);
        sem_post( & back);                              // the scheduler goes on
        while ( sem_wait( & th[t].go)) {}               // until it picks this thread again
    }
    race::enter( t);
}
void verdict( int i) {
    ++n_checks;
    if ( race::report.any) {
        race::Report & r = race::report;
        fail( THREAD, "data race: thread %d %s memory that thread %d %s, though the two use different coroutines (or one coroutine, one after the other); address %p, during step %d of script \"%s\"",
              r.t, r.write ? "writes" : "reads", r.t0, r.write0 ? "wrote" : "read", r.addr, act[i].pos, tname[act[i].k]);
        r.any = false; abandon();
    }
    std::vector< long > const& l = act[i].t->log, & s = solo[act[i].k];
    ++n_checks;
    bool ok = l.size() <= s.size() && ( act[i].mid || act[i].pos < 5 || l.size() == s.size());
    for ( std::size_t j = 0; ok && j < l.size(); ++j) ok = l[j] == s[j];
    if ( ! ok) { fail( THREAD, "script \"%s\" observes [%s] when its steps run on several threads, next to other scripts, but [%s] in one thread alone", tname[act[i].k], show( l).c_str(), show( s).c_str()); abandon(); }
}
// lets script i go on (a new step on thread t, or the step it was preempted in) until the step ends or is preempted
void go( int i, int t) {
    running = i;
    Act & a = act[i];
    if ( a.mid) { t = a.on; note( "  script %d goes on on thread %d", i, t); }
    else {
        a.on = t; a.mid = true; th[t].busy = true;
        note( "  script %d (%s): step %d on thread %d", i, tname[a.k], a.pos, t);
        th[t].job = [i,t]() {
            Act & b = act[i];
            Task * x = b.t; int p = b.pos;
            race::enter( t); race::take( b.vc);
            x->step( p);
            race::give( b.vc); race::enter( -1);
            b.mid = false; ++b.pos; th[t].busy = false;
        };
    }
    sem_post( & th[t].go);
    while ( sem_wait( & back)) {}
    running = -1;
    verdict( i);
    std::uint64_t h = nact; for ( int j = 0; j < nact; ++j) h = mix( h, act[j].k * 64 + act[j].pos * 8 + act[j].mid * 4 + act[j].on);
    state( h); transition( h, i * 4 + t);
}
struct Cleanup { ~Cleanup() { sched_point = 0; on_malloc = 0; running = -1; for ( int i = 0; i < nact; ++i) { delete act[i].t; act[i].t = 0; } nact = 0; } };
void setup( int n, std::vector< int > const& kinds, int preempt) {
    start();
    for ( int i = 0; i < NT; ++i) alone( i);
    int lo = 0;
    for ( int i = 0; i < n; ++i) { lo += choose( (int) kinds.size() - lo); act[i].k = kinds[lo]; }
    for ( int i = 0; i < n; ++i) { act[i].t = make( act[i].k, i + 2); act[i].pos = 0; act[i].mid = false; act[i].on = 0; memset( & act[i].vc, 0, sizeof act[i].vc); }
    nact = n; budget = preempt;
    race::begin();
    sched_point = point;
}
void finish() { for ( int i = 0; i < nact; ++i) for ( long v : act[i].t->log) observe( v); }
// which thread executes step p of script i
int thread_for( int pattern, int i, int p) {
    switch ( pattern) {
    case 0: return i % race::NT;                              // always the same
    case 1: return ( i + p) % race::NT;                       // another one every time
    case 2: return ( i + ( p == 0)) % race::NT;               // constructed on another thread
    default: return ( i + ( p == 4 ? 2 : 0)) % race::NT;      // destroyed on another thread
    }
}
// every interleaving of the steps, every pattern of threads
void steps( int n, int group, std::vector< int > const& kinds) {
    Cleanup cl;
    setup( n, kinds, 0);
    int pat[3]; for ( int i = 0; i < n; ++i) pat[i] = choose( 4);
    for (;;) {
        int cand[3], nc = 0;
        for ( int i = 0; i < n; ++i) if ( act[i].pos < 5) cand[nc++] = i;
        if ( ! nc) break;
        int i = cand[choose( nc)];
        for ( int g = 0; g < group && act[i].pos < 5; ++g) go( i, thread_for( pat[i], i, act[i].pos));
    }
    finish();
}
// one script after the other, except for a bounded number of preemptions, which may happen inside operations of the library
void preempted( int n, int bound, std::vector< int > const& kinds) {
    Cleanup cl;
    setup( n, kinds, bound);
    int cur = choose( n);
    for (;;) {
        int cand[3], nc = 0;
        for ( int i = 0; i < n; ++i) if ( act[i].mid || act[i].pos < 5) cand[nc++] = i;
        if ( ! nc) break;
        bool can = act[cur].mid || act[cur].pos < 5;
        int b0 = budget;
        if ( ! can) cur = cand[choose( nc)];
        else if ( ! act[cur].mid && budget > 0 && nc > 1 && act[cur].pos > 0) { if ( choose( 2)) { --budget; b0 = -1; } }
        if ( b0 == -1) { int o[3], no = 0; for ( int j = 0; j < nc; ++j) if ( cand[j] != cur) o[no++] = cand[j]; cur = o[choose( no)]; }
        int before = act[cur].pos;
        go( cur, cur % race::NT);
        if ( act[cur].mid && act[cur].pos == before) {          // preempted inside the step: another one goes on
            int o[3], no = 0; for ( int i = 0; i < n; ++i) if ( i != cur && ( act[i].mid || act[i].pos < 5)) o[no++] = i;
            cur = o[choose( no)];
        }
    }
    finish();
}
// the detector itself: unordered accesses are found in every order, ordered ones are not
int g_plain; std::atomic< int > g_atomic;
void selftest() {
    start(); race::begin();
    struct X { ~X() { on_malloc = 0; } } x_;
    bool ordered = choose( 2); int a = choose( 3), b = choose( 3); bool swap = choose( 2), fresh = choose( 2);
    race::VC h = {};
    int * heap = new int( 0);
    auto touch = [&]( int how, int * p) { if ( how == 0) * static_cast< volatile int * >( p) = 1; else if ( how == 1) observe( * static_cast< volatile int * >( p)); else { g_atomic.fetch_add( 1); } };
    for ( int i = 0; i < 2; ++i) {
        int t = swap ? 1 - i : i, how = i ? b : a;
        if ( i && fresh) { delete heap; heap = new int( 0); }        // reused memory is not shared memory
        int * p = fresh ? heap : & g_plain;
        th[t].job = [&]() { race::enter( t); if ( ordered) race::take( h); touch( how, p); if ( ordered) race::give( h); race::enter( -1); };
        sem_post( & th[t].go); while ( sem_wait( & back)) {}
    }
    delete heap;
    bool want = ! ordered && ! fresh && a < 2 && b < 2 && ( a == 0 || b == 0);
    ++n_checks;
    state( a * 3 + b);
    if ( race::report.any != want) fail( HARNESS, "race detector: %s", want ? "race missed" : "false alarm");
}
struct Reg { Reg() {
    world_hooks();
    std::vector< int > all; for ( int i = 0; i < NT; ++i) all.push_back( i);
    std::vector< int > some = { 0, 1, 3, 4, 7, 9, 11, 12, 13, 15 };
    add_scenario( "threads.selftest", "pairs of accesses of two threads, ordered and not", selftest, 0, 1);
    add_scenario( "threads.pairs", "every pair of 28 scripts, every interleaving of their steps (in groups of two), each script on one thread, on alternating threads, constructed or destroyed on another thread", [all]() { steps( 2, 2, all); }, 0, 3);
    add_scenario( "threads.preempt", "every pair of 28 scripts on two threads, at most 2 preemptions, between or inside operations", [all]() { preempted( 2, 2, all); }, 0, 5);
    add_scenario( "threads.pairs.deep", "every pair of 28 scripts, every interleaving of their 5 steps, each script on one thread, on alternating threads, constructed or destroyed on another thread", [all]() { steps( 2, 1, all); }, 1, 4);
    add_scenario( "threads.preempt.deep", "every pair of 10 scripts on two threads, at most 3 preemptions, between or inside operations", [some]() { preempted( 2, 3, some); }, 1, 5);
    add_scenario( "threads.preempt3.deep", "every choice of 3 of 10 scripts on three threads, at most 1 preemption, between or inside operations", [some]() { preempted( 3, 1, some); }, 1, 5);
    add_scenario( "threads.triples.deep", "every choice of 3 of 10 scripts, every interleaving of 2 step groups, 3 threads", [some]() { steps( 3, 3, some); }, 1, 5);
} } reg;
}
}
