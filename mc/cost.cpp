// Cost of a context switch (C23): in every state of a bounded space, one resumption (there and back) is executed with the
// processor's single-step flag set; the number of instructions must be the same as in the simplest state, and nothing may be
// allocated.
#include "world.hpp"
#include <boost/coroutine2/all.hpp>
#include <memory>
#include <signal.h>
#include <vector>
namespace mc {
namespace {
namespace co = boost::coroutines2;

volatile unsigned long g_n = 0;
volatile unsigned long g_max = 2000000;
void on_trap( int, siginfo_t *, void * u) { if ( ++g_n > g_max) static_cast< ucontext_t * >( u)->uc_mcontext.gregs[REG_EFL] &= ~0x100L; }
void arm() {
    static bool done = false;
    if ( done) return;
    done = true;
    static char alt[65536];
    stack_t s; memset( & s, 0, sizeof s); s.ss_sp = alt; s.ss_size = sizeof alt; sigaltstack( & s, 0);
    struct sigaction a; memset( & a, 0, sizeof a); a.sa_sigaction = on_trap; a.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction( SIGTRAP, & a, 0);
}
__attribute__(( noinline)) void trap_on() { g_n = 0; asm volatile( "lea -128(%%rsp),%%rsp\n pushfq\n orq $0x100,(%%rsp)\n popfq\n lea 128(%%rsp),%%rsp" ::: "memory", "cc"); }
__attribute__(( noinline)) void trap_off() { asm volatile( "lea -128(%%rsp),%%rsp\n pushfq\n andq $~0x100,(%%rsp)\n popfq\n lea 128(%%rsp),%%rsp" ::: "memory", "cc"); }
struct Cost { unsigned long instr, mallocs; };
template< class F > Cost measure( F && f) {
    Cost c; unsigned long m0 = heap_allocations();
    trap_on(); f(); trap_off();
    c.instr = g_n; c.mallocs = heap_allocations() - m0;
    return c;
}

struct Pod { int v[64]; };
struct Cls { int v; explicit Cls( int i) : v( i) {} Cls( Cls const& o) : v( o.v) {} Cls( Cls && o) : v( o.v) { o.v = 0; } ~Cls() { v = -1; } };
template< class T > struct Val { static T mk( int i) { return T( i); } };
template<> struct Val< Pod > { static Pod mk( int i) { Pod p; for ( int j = 0; j < 64; ++j) p.v[j] = i; return p; } };

// one coroutine, type-erased; next() is one resumption: there and back
struct Any { virtual ~Any() {} virtual void next() = 0; virtual std::unique_ptr< Any > moved() = 0; };
template< class T > struct PullA : Any {
    typedef co::coroutine< T > C; typename C::pull_type c;
    static void rec( typename C::push_type & k, int d) { volatile char pad[200]; pad[0] = (char) d; if ( d) rec( k, d - 1); else { T v( Val< T >::mk( 1)); for (;;) k( v); } (void) pad[0]; }
    explicit PullA( int d) : c( Alloc( 1), [d]( typename C::push_type & k) { rec( k, d); }) {}
    explicit PullA( typename C::pull_type && o) : c( std::move( o)) {}
    void next() { c(); }
    std::unique_ptr< Any > moved() { return std::unique_ptr< Any >( new PullA( std::move( c))); }
};
template< class T > struct PushA : Any {
    typedef co::coroutine< T > C; typename C::push_type c; T v;
    static void rec( typename C::pull_type & k, int d) { volatile char pad[200]; pad[0] = (char) d; if ( d) rec( k, d - 1); else for (;;) k(); (void) pad[0]; }
    explicit PushA( int d) : c( Alloc( 1), [d]( typename C::pull_type & k) { rec( k, d); }), v( Val< T >::mk( 2)) {}
    explicit PushA( typename C::push_type && o) : c( std::move( o)), v( Val< T >::mk( 2)) {}
    void next() { c( v); }
    std::unique_ptr< Any > moved() { return std::unique_ptr< Any >( new PushA( std::move( c))); }
};
struct PullV : Any {
    typedef co::coroutine< void > C; C::pull_type c;
    static void rec( C::push_type & k, int d) { volatile char pad[200]; pad[0] = (char) d; if ( d) rec( k, d - 1); else for (;;) k(); (void) pad[0]; }
    explicit PullV( int d) : c( Alloc( 1), [d]( C::push_type & k) { rec( k, d); }) {}
    explicit PullV( C::pull_type && o) : c( std::move( o)) {}
    void next() { c(); }
    std::unique_ptr< Any > moved() { return std::unique_ptr< Any >( new PullV( std::move( c))); }
};
struct PushV : Any {
    typedef co::coroutine< void > C; C::push_type c;
    static void rec( C::pull_type & k, int d) { volatile char pad[200]; pad[0] = (char) d; if ( d) rec( k, d - 1); else for (;;) k(); (void) pad[0]; }
    explicit PushV( int d) : c( Alloc( 1), [d]( C::pull_type & k) { rec( k, d); }) {}
    explicit PushV( C::push_type && o) : c( std::move( o)) {}
    void next() { c(); }
    std::unique_ptr< Any > moved() { return std::unique_ptr< Any >( new PushV( std::move( c))); }
};
int g_obj = 5;
struct PullR : Any {
    typedef co::coroutine< int & > C; C::pull_type c;
    static void rec( C::push_type & k, int d) { volatile char pad[200]; pad[0] = (char) d; if ( d) rec( k, d - 1); else for (;;) k( g_obj); (void) pad[0]; }
    explicit PullR( int d) : c( Alloc( 1), [d]( C::push_type & k) { rec( k, d); }) {}
    explicit PullR( C::pull_type && o) : c( std::move( o)) {}
    void next() { c(); }
    std::unique_ptr< Any > moved() { return std::unique_ptr< Any >( new PullR( std::move( c))); }
};
struct PushR : Any {
    typedef co::coroutine< int & > C; C::push_type c;
    static void rec( C::pull_type & k, int d) { volatile char pad[200]; pad[0] = (char) d; if ( d) rec( k, d - 1); else for (;;) k(); (void) pad[0]; }
    explicit PushR( int d) : c( Alloc( 1), [d]( C::pull_type & k) { rec( k, d); }) {}
    explicit PushR( C::push_type && o) : c( std::move( o)) {}
    void next() { c( g_obj); }
    std::unique_ptr< Any > moved() { return std::unique_ptr< Any >( new PushR( std::move( c))); }
};
// resumption through iterators, pushing rvalues, move-only and large values
template< class T > struct PullIt : Any {
    typedef co::coroutine< T > C; typename C::pull_type c; typename C::pull_type::iterator it;
    explicit PullIt( int d) : c( Alloc( 1), [d]( typename C::push_type & k) { PullA< T >::rec( k, d); }), it( begin( c)) {}
    explicit PullIt( typename C::pull_type && o) : c( std::move( o)), it( begin( c)) {}
    void next() { ++it; }
    std::unique_ptr< Any > moved() { return std::unique_ptr< Any >( new PullIt( std::move( c))); }
};
template< class T > struct PushIt : Any {
    typedef co::coroutine< T > C; typename C::push_type c; typename C::push_type::iterator it; T v;
    explicit PushIt( int d) : c( Alloc( 1), [d]( typename C::pull_type & k) { PushA< T >::rec( k, d); }), it( begin( c)), v( Val< T >::mk( 2)) {}
    explicit PushIt( typename C::push_type && o) : c( std::move( o)), it( begin( c)), v( Val< T >::mk( 2)) {}
    void next() { * it = v; }
    std::unique_ptr< Any > moved() { return std::unique_ptr< Any >( new PushIt( std::move( c))); }
};
struct MvOnly { int v; explicit MvOnly( int i) : v( i) {} MvOnly( MvOnly && o) : v( o.v) { o.v = 0; } };
template< class T > struct PushRv : Any {
    typedef co::coroutine< T > C; typename C::push_type c;
    explicit PushRv( int d) : c( Alloc( 1), [d]( typename C::pull_type & k) { PushA< T >::rec( k, d); }) {}
    explicit PushRv( typename C::push_type && o) : c( std::move( o)) {}
    void next() { c( Val< T >::mk( 3)); }
    std::unique_ptr< Any > moved() { return std::unique_ptr< Any >( new PushRv( std::move( c))); }
};
template< class T > struct PullRv : Any {
    typedef co::coroutine< T > C; typename C::pull_type c;
    static void rec( typename C::push_type & k, int d) { volatile char pad[200]; pad[0] = (char) d; if ( d) rec( k, d - 1); else for (;;) k( Val< T >::mk( 1)); (void) pad[0]; }
    explicit PullRv( int d) : c( Alloc( 1), [d]( typename C::push_type & k) { rec( k, d); }) {}
    explicit PullRv( typename C::pull_type && o) : c( std::move( o)) {}
    void next() { c(); T t( c.get()); (void) t; }
    std::unique_ptr< Any > moved() { return std::unique_ptr< Any >( new PullRv( std::move( c))); }
};
struct PullCR : Any {
    typedef co::coroutine< Cls const& > C; C::pull_type c;
    static void rec( C::push_type & k, int d) { volatile char pad[200]; pad[0] = (char) d; if ( d) rec( k, d - 1); else { Cls a( 1); for (;;) k( a); } (void) pad[0]; }
    explicit PullCR( int d) : c( Alloc( 1), [d]( C::push_type & k) { rec( k, d); }) {}
    explicit PullCR( C::pull_type && o) : c( std::move( o)) {}
    void next() { c(); }
    std::unique_ptr< Any > moved() { return std::unique_ptr< Any >( new PullCR( std::move( c))); }
};
enum { NK = 19 };
const char * const kname[NK] = { "pull<void>", "push<void>", "pull<int&>", "push<int&>", "pull<int>", "push<int>", "pull<256 bytes>", "push<256 bytes>", "pull<class>", "push<class>", "pull<class const&>", "iterator over pull<int>", "iterator over pull<class>", "output iterator of push<int>", "output iterator of push<class>", "push<class> of rvalues", "push<move-only>", "pull<move-only> with get()", "pull<class> of rvalues with get()" };
std::unique_ptr< Any > make( int k, int depth) {
    Any * a;
    switch ( k) {
    case 0: a = new PullV( depth); break; case 1: a = new PushV( depth); break; case 2: a = new PullR( depth); break; case 3: a = new PushR( depth); break;
    case 4: a = new PullA< int >( depth); break; case 5: a = new PushA< int >( depth); break; case 6: a = new PullA< Pod >( depth); break; case 7: a = new PushA< Pod >( depth); break;
    case 9: a = new PushA< Cls >( depth); break; case 10: a = new PullCR( depth); break; case 11: a = new PullIt< int >( depth); break; case 12: a = new PullIt< Cls >( depth); break;
    case 13: a = new PushIt< int >( depth); break; case 14: a = new PushIt< Cls >( depth); break; case 15: a = new PushRv< Cls >( depth); break; case 16: a = new PushRv< MvOnly >( depth); break;
    case 17: a = new PullRv< MvOnly >( depth); break; case 18: a = new PullRv< Cls >( depth); break;
    default: a = new PullA< Cls >( depth); break;
    }
    return std::unique_ptr< Any >( a);
}
// the simplest state: one coroutine, resumed a few times before
unsigned long base_[NK]; bool stepping = true;
unsigned long base( int k) {
    if ( ! base_[k]) {
        std::unique_ptr< Any > a = make( k, 0);
        for ( int i = 0; i < 3; ++i) a->next();
        Cost c = { 0, 0 };
        for ( int i = 0; i < 3; ++i) c = measure( [&]() { a->next(); });
        base_[k] = c.instr;
        if ( c.instr < 20) { stepping = false; note( "single-stepping does not work here: only allocations are judged"); }
    }
    return base_[k];
}
void judge( int k, Cost c, const char * where) {
    n_checks += 2;
    unsigned long b = base( k);
    note( "  resumption of %s: %lu instructions, %lu allocations", kname[k], c.instr, c.mallocs);
    if ( c.mallocs) fail( COST, "resuming a %s allocates memory (%lu times) %s", kname[k], c.mallocs, where);
    if ( stepping && c.instr > b + b / 8 + 40) fail( COST, "resuming a %s takes %lu instructions %s, but %lu in the simplest state", kname[k], c.instr, where, b);
}
void nest( int d, std::function< void() > const& f) {
    if ( ! d) { f(); return; }
    co::coroutine< void >::push_type p( Alloc( 2), [d,& f]( co::coroutine< void >::pull_type &) { nest( d - 1, f); });
    p();
}
void deep( int d, std::function< void() > const& f) { volatile char pad[500]; pad[0] = 1; if ( d) deep( d - 1, f); else f(); (void) pad[0]; }

void grid( std::vector< int > counts, std::vector< int > switches, std::vector< int > depths, std::vector< int > nests) {
    arm();
    for ( int i = 0; i < NK; ++i) base( i);
    W.stack_size = 32 * 1024;
    int k = choose( NK), others = choose( 3);
    int n = counts[choose( counts.size())], sw = switches[choose( switches.size())], d = depths[choose( depths.size())], ne = nests[choose( nests.size())], md = depths[choose( depths.size())];
    int which = n ? choose( 3) : 0;           // the measured one is the oldest, in the middle, the newest
    bool mv = choose( 2) != 0;
    note( "%s; %d other coroutines (%s), %d earlier switches, %d frames on its stack, resumed from nesting depth %d, %d frames on the resumer's stack%s", kname[k], n, others == 0 ? "same type" : others == 1 ? "of all types" : "never resumed", sw, d, ne, md, mv ? ", moved before" : "");
    std::vector< std::unique_ptr< Any > > v;
    std::unique_ptr< Any > a;
    for ( int i = 0; i <= n; ++i) {
        if ( i == ( which == 0 ? 0 : which == 1 ? n / 2 : n)) a = make( k, d);
        if ( i < n) { v.push_back( make( others == 1 ? i % NK : k, 0)); if ( others != 2) v.back()->next(); }
    }
    for ( int i = 0; i < sw; ++i) a->next();
    if ( mv) a = a->moved();
    a->next(); a->next();
    Cost c = { 0, 0 };
    nest( ne, [&]() { deep( md, [&]() { a->next(); c = measure( [&]() { a->next(); }); }); });
    state( mix( mix( mix( k, n), mix( sw, d)), mix( mix( ne, which), md * 2 + mv)));
    transition( mix( mix( k, n), mix( sw, d)), mix( mix( ne, which), md * 2 + mv));
    judge( k, c, "in this state");
}
// every history of creations, destructions, moves and resumptions
void history( int L, int maxc) {
    arm();
    for ( int i = 0; i < NK; ++i) base( i);
    static const int kinds[] = { 0, 1, 3, 4, 12, 14 };
    struct E { std::unique_ptr< Any > a; int k; int used; };
    std::vector< E > v;
    L = 1 + choose( L);
    // the last operation is measured; the earlier ones are the last operation of a shorter history
    for ( int s = 0; s < L; ++s) {
        int nr = v.size(), nc = (int) v.size() < maxc ? 6 : 0;
        int o = choose( nr * 3 + nc);
        std::uint64_t h = 3; for ( auto & e : v) h = mix( h, e.k * 4 + ( e.used > 2 ? 2 : e.used));
        transition( h, o);
        if ( o < nr) {
            E & e = v[o];
            note( "  resume #%d", o);
            if ( s + 1 < L) { e.a->next(); ++e.used; continue; }
            Cost c = measure( [&]() { e.a->next(); });
            // the first resumption of a push coroutine enters the function
            if ( e.used++ || ( e.k != 1 && e.k != 3 && e.k != 14)) judge( e.k, c, "in this history");
            else { ++n_checks; if ( c.mallocs) fail( COST, "the first resumption of a %s allocates memory", kname[e.k]); }
        } else if ( o < nr * 2) { note( "  destroy #%d", o - nr); v.erase( v.begin() + ( o - nr)); }
        else if ( o < nr * 3) { note( "  move #%d", o - 2 * nr); v[o - 2 * nr].a = v[o - 2 * nr].a->moved(); }
        else { int k = kinds[o - nr * 3]; note( "  create %s", kname[k]); E e; e.k = k; e.used = 0; e.a = make( k, 0); v.push_back( std::move( e)); }
        h = 3; for ( auto & e : v) h = mix( h, e.k * 4 + ( e.used > 2 ? 2 : e.used));
        state( h);
    }
    // many switches later, if nothing but that happened at the end
    if ( L == 3) {
        for ( auto & e : v) for ( int i = 0; i < 40; ++i) e.a->next();
        for ( auto & e : v) { Cost c = measure( [&]() { e.a->next(); }); judge( e.k, c, "after many more resumptions"); }
    }
}
struct Reg { Reg() {
    world_hooks();
    add_scenario( "cost.states", "19 kinds x 0/1/8/50 others x 0/1/1000 earlier switches x 0/1/20 frames on both stacks x nesting 0/1/3 x age x moved or not", []() { grid( { 0, 1, 8, 50 }, { 0, 1, 1000 }, { 0, 20 }, { 0, 3 }); }, 0, 4);
    add_scenario( "cost.histories", "all histories of 5 creations, destructions, moves and resumptions of up to 3 coroutines", []() { history( 5, 3); }, 0, 3);
    add_scenario( "cost.states.deep", "19 kinds x 0/1/2/8/30/60 others x 0/1/2/100/10000 earlier switches x 0/1/20/50 frames on both stacks x nesting 0/1/2/4 x age x moved or not", []() { grid( { 0, 1, 2, 8, 30, 58 }, { 0, 1, 2, 100, 10000 }, { 0, 1, 20, 50 }, { 0, 1, 2, 4 }); }, 1, 5);
    add_scenario( "cost.histories.deep", "all histories of 7 creations, destructions, moves and resumptions of up to 3 coroutines", []() { history( 7, 3); }, 1, 4);
} } reg;
}
}
