// Storage layout (C16): payload size x payload alignment x callable size x callable alignment x stack size x address of
// the stack's top, both directions. Contents, addresses and everything around the stack are checked.
#ifndef MC_LAYOUT_HPP
#define MC_LAYOUT_HPP
#include "world.hpp"
#include <boost/coroutine2/all.hpp>
#include <memory>
#include <sys/mman.h>
#include <cstdio>
namespace mc { namespace lay {
namespace co = boost::coroutines2;

// ---- an allocator whose stacks start and end wherever the exploration says, with red zones around them
struct Area { char * map; std::size_t len; char * base, * top; bool live; int allocs, frees; };
extern Area A_;
enum { REDZ = 1024 };
void area_prepare( std::size_t size, unsigned residue);
bool area_intact();
struct OddAlloc {
    boost::context::stack_context allocate() { boost::context::stack_context s; s.sp = A_.top; s.size = A_.top - A_.base; A_.live = true; ++A_.allocs; return s; }
    void deallocate( boost::context::stack_context & s) {
        ++n_checks; ++A_.frees; A_.live = false;
        if ( s.sp != A_.top || s.size != std::size_t( A_.top - A_.base)) fail( STACK, "deallocate() got another stack than was allocated");
        if ( ! area_intact()) fail( ALIGN, "memory outside the stack was written");
    }
};
extern long alive;
template< std::size_t S, std::size_t Al > struct alignas( Al) Blob {
    unsigned char b[S];
    static unsigned char at( int v, std::size_t i) { return (unsigned char)( v * 37 + i * 11 + S); }
    explicit Blob( int v) { ++alive; for ( std::size_t i = 0; i < S; ++i) b[i] = at( v, i); }
    void al( const char * w) const { ++n_checks; if ( reinterpret_cast< std::uintptr_t >( this) % Al) fail( ALIGN, "object of size %d, alignment %d %s at an address that is %d modulo %d", (int) S, (int) Al, w, (int)( reinterpret_cast< std::uintptr_t >( this) % Al), (int) Al); }
    Blob( Blob const& o) { ++alive; memcpy( b, o.b, S); al( "constructed"); }
    Blob( Blob && o) { ++alive; memcpy( b, o.b, S); memset( o.b, 0xCD, S); al( "constructed"); }
    Blob & operator=( Blob const& o) { memcpy( b, o.b, S); return * this; }
    ~Blob() { --alive; memset( b, 0xEE, S); }
    bool is( int v) const { for ( std::size_t i = 0; i < S; ++i) if ( b[i] != at( v, i)) return false; return true; }
};
void burn( int n);      // uses stack
struct Par { int nval, how; bool boom; };
extern Par P_;

// what main and the function do with the payload
template< class T > struct Io {
    template< class H > static void push( H & h, int v) { T t( v); if ( P_.how & 1) h( std::move( t)); else h( t); }
    template< class H > static void look( H & h, int v, bool last = true) {
        typename H::iterator it = h.begin();
        T & t = * it;
        t.al( "stored");
        ++n_checks; if ( ! t.is( v)) fail( ALIGN, "the stored value is damaged");
        if ( last && ( P_.how & 2)) { T c( h.get()); ++n_checks; if ( ! c.is( v)) fail( ALIGN, "the value read is damaged"); }
    }
};
template<> struct Io< void > { template< class H > static void push( H & h, int) { h(); } template< class H > static void look( H &, int, bool = true) {} };
extern long refs[64];
template<> struct Io< long & > {
    template< class H > static void push( H & h, int v) { refs[v & 63] = v; h( refs[v & 63]); }
    template< class H > static void look( H & h, int v, bool = true) { long & r = h.get(); ++n_checks; if ( & r != & refs[v & 63] || r != v) fail( ALIGN, "another object is referred to"); }
};
template< class T, bool Pull > struct Dir;
template< class T > struct Dir< T, true > { typedef typename co::coroutine< T >::pull_type own; typedef typename co::coroutine< T >::push_type oth; };
template< class T > struct Dir< T, false > { typedef typename co::coroutine< T >::push_type own; typedef typename co::coroutine< T >::pull_type oth; };
template< class T, bool Pull > struct Side;
template< class T > struct Side< T, true > {
    template< class C > static void fn( C & self, typename Dir< T, true >::oth & s) {
        for ( int i = 1; i <= P_.nval; ++i) { self.chk(); Io< T >::push( s, i); burn( 1 + i); self.chk(); }
        if ( P_.boom) throw AppExc( 5);
    }
    static void drive( std::unique_ptr< typename Dir< T, true >::own > & p, int stop) {
        for ( int i = 1; * p && i <= stop; ++i) { burn( 2); Io< T >::look( * p, i, false); burn( 1); Io< T >::look( * p, i); ( * p)(); }
    }
};
template< class T > struct Side< T, false > {
    template< class C > static void fn( C & self, typename Dir< T, false >::oth & s) {
        for ( int i = 1; i <= P_.nval && s; ++i) { self.chk(); Io< T >::look( s, i, false); burn( 1 + i); Io< T >::look( s, i); self.chk(); s(); }
        if ( P_.boom) throw AppExc( 5);
    }
    static void drive( std::unique_ptr< typename Dir< T, false >::own > & p, int stop) {
        for ( int i = 1; * p && i <= stop; ++i) Io< T >::push( * p, i);
    }
};
template< class T, bool Pull, std::size_t S, std::size_t Al > struct alignas( Al) Callable {
    unsigned char c[S];
    Callable() { for ( std::size_t i = 0; i < S; ++i) c[i] = (unsigned char)( i * 7 + S); }
    void chk() const { ++n_checks; for ( std::size_t i = 0; i < S; ++i) if ( c[i] != (unsigned char)( i * 7 + S)) { fail( ALIGN, "the callable's data is damaged (size %d, alignment %d)", (int) S, (int) Al); return; } }
    void operator()( typename Dir< T, Pull >::oth & s) {
        chk();
        ++n_checks; if ( reinterpret_cast< std::uintptr_t >( this) % Al) fail( ALIGN, "callable with alignment %d at a misaligned address", (int) Al);
        const char * here = static_cast< const char * >( __builtin_frame_address( 0));
        ++n_checks; if ( here < A_.base || here >= A_.top) fail( STACK, "the function does not run on the given stack");
        Side< T, Pull >::fn( * this, s);
        chk();
    }
};
// one execution
template< class T, bool Pull, class C > void one( std::size_t payload, bool deep) {
    static const unsigned rq[] = { 0, 1, 8, 16, 24, 63, 64, 72, 128, 192, 200, 255 };
    unsigned residue = deep ? choose( 256) : rq[choose( 12)];
    static const std::size_t sz[] = { 0, 137, 4096, 60007, 1000000 };
    std::size_t size = 24 * 1024 + payload * 10 + sizeof( C) * 6 + sz[choose( deep ? 5 : 4)];
    P_.nval = 1 + choose( deep ? 3 : 2); P_.how = choose( 4); P_.boom = choose( 2);
    int stop = choose( P_.nval + 2);
    note( "payload %d bytes, callable %d bytes; stack of %d bytes, top is %d modulo 256; %d values, pushed as %s, read by %s; %s; destroyed after %d transfers", (int) payload, (int) sizeof( C), (int) size, (int) residue, P_.nval, P_.how & 1 ? "rvalue" : "lvalue", P_.how & 2 ? "iterator and get" : "iterator", P_.boom ? "throws" : "returns", stop);
    area_prepare( size, residue);
    alive = 0;
    transition( mix( sizeof( C), payload), mix( residue, mix( size, mix( P_.how * 8 + P_.nval, P_.boom * 8 + stop))));
    std::unique_ptr< typename Dir< T, Pull >::own > p;
    ExcInfo e = catching( [&]() { p.reset( new typename Dir< T, Pull >::own( OddAlloc(), C())); if ( ! A_.live) fail( STACK, "no stack allocated"); if ( ! area_intact()) fail( ALIGN, "memory outside the stack was written"); Side< T, Pull >::drive( p, stop); });
    ++n_checks;
    bool thrown = P_.boom && stop >= ( Pull ? P_.nval : P_.nval + 1);
    if ( ( e.kind == X_APP) != thrown) fail( EXC, "exception of the function: %d, expected %d", e.kind, thrown);
    if ( A_.live && ! area_intact()) fail( ALIGN, "memory outside the stack was written");
    p.reset();
    n_checks += 2;
    if ( alive) fail( LIFE, "%ld payload objects are left", alive);
    if ( A_.live || A_.allocs != A_.frees) fail( STACK, "the stack was not given back");
    state( mix( mix( residue, size), mix( payload, sizeof( C))));
    observe( mix( e.kind, alive));
}
template< class T, bool Pull, std::size_t S, std::size_t Al > void add( std::size_t payload, std::string pn) {
    typedef Callable< T, Pull, S, Al > C;
    for ( int t = 0; t < 2; ++t)
        add_scenario( std::string( "lay.") + ( Pull ? "pull." : "push.") + pn + ".fn" + std::to_string( S) + "a" + std::to_string( Al) + ( t ? ".deep" : ""),
            t ? "256 positions of the stack top x 5 stack sizes x 1..3 values x lvalue/rvalue x reads x ending x point of destruction" : "12 positions of the stack top x 4 stack sizes x 1..2 values x lvalue/rvalue x reads x ending x point of destruction",
            [payload, t]() { one< T, Pull, C >( payload, t); }, t, 3);
}
template< std::size_t Al, std::size_t S > void pay() {
    typedef Blob< S, Al > T;
    std::string n = "p" + std::to_string( S) + "a" + std::to_string( Al);
    add< T, true, 8, 8 >( S, n); add< T, false, 8, 8 >( S, n);
    add< T, true, 320, 64 >( S, n); add< T, false, 320, 64 >( S, n);
}
template< class T, std::size_t Sz > void calls( std::string n) {
#define C_( S, A) add< T, true, S, A >( Sz, n); add< T, false, S, A >( Sz, n);
    C_( 1, 1) C_( 3, 1) C_( 4, 4) C_( 16, 16) C_( 31, 1) C_( 32, 32) C_( 64, 64) C_( 65, 1) C_( 100, 4) C_( 128, 64) C_( 248, 8) C_( 1000, 8) C_( 4096, 64) C_( 5001, 1)
#undef C_
}
}}
#endif
