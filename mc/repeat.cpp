// Repeated reads of the current value (C19): every sequence of reads up to a length, for every payload type, on the
// owner's side and in the coroutine-function, at every position of a short stream.
#include "world.hpp"
#include <boost/coroutine2/all.hpp>
#include <memory>
#include <vector>
#include <array>
namespace mc {
namespace {
namespace co = boost::coroutines2;
struct Pod { int a; double b; char c[20]; };
struct CopyAssignOnly { int v; explicit CopyAssignOnly( int x) : v( x) {} CopyAssignOnly( CopyAssignOnly const& o) : v( o.v) {} };
struct Small { short s; explicit Small( int x) : s( (short) x) {} };
template< class T > struct G;
#define G_( T, NAME, MK, IS) template<> struct G< T > { static const char * name() { return NAME; } static T make( int i) { return MK; } static bool is( T const& x, int i) { return IS; } };
G_( int, "int", i * 11, x == i * 11)
G_( double, "double", i / 4.0, x == i / 4.0)
G_( const char *, "pointer", reinterpret_cast< const char * >( (std::uintptr_t) i * 64), x == reinterpret_cast< const char * >( (std::uintptr_t) i * 64))
G_( Small, "trivial class", Small( i), x.s == i)
G_( CopyAssignOnly, "copy-only class", CopyAssignOnly( i), x.v == i)
G_( Cpy, "tracked copy-only class", Cpy( i), x.get() == i)
G_( Trk, "class with a move constructor", Trk( i), x.get() == i)
G_( std::string, "std::string", std::string( 40, 'a' + i), x == std::string( 40, 'a' + i))
typedef std::array< long, 5 > Ar;
template<> struct G< Pod > { static const char * name() { return "POD"; } static Pod make( int i) { Pod p; p.a = i; p.b = i * 2; memset( p.c, i, 20); return p; } static bool is( Pod const& p, int i) { return p.a == i && p.b == i * 2 && p.c[0] == i && p.c[19] == i; } };
template<> struct G< Ar > { static const char * name() { return "std::array"; } static Ar make( int i) { Ar a; a.fill( i); return a; } static bool is( Ar const& a, int i) { return a[0] == i && a[4] == i; } };
Trk * robj[4];
template<> struct G< Trk & > { static const char * name() { return "reference"; } static Trk & make( int i) { return * robj[i]; } static bool is( Trk const& x, int i) { return & x == robj[i] && x.get() == i; } };
template<> struct G< Trk const& > { static const char * name() { return "const reference"; } static Trk const& make( int i) { return * robj[i]; } static bool is( Trk const& x, int i) { return & x == robj[i] && x.get() == i; } };

static const char * const rn[] = { "get", "iterator", "iterator", "iterator", "algorithm" };
template< class T, class P > bool one( P & p, int i, int how) {
    switch ( how) {
    case 0: { auto && v = p.get(); return G< T >::is( v, i); }
    case 1: return G< T >::is( * p.begin(), i);
    case 2: { typename P::iterator it( & p); return G< T >::is( * it.operator->(), i); }
    case 3: { typename P::iterator it = boost::coroutines2::detail::begin( p); typename P::iterator j = it; return G< T >::is( * it, i) && G< T >::is( * j, i); }
    default: { for ( auto & v : p) return G< T >::is( v, i); return false; }
    }
}
template< class T, class P > bool reads( P & p, int i, int len) {
    // len reads of value i; returns false if a known finding makes further reads meaningless
    int got = 0; std::string first;
    for ( int r = 0; r < len; ++r) {
        int how = choose( 5);
        note( "  value %d, read %d by %s", i, r + 1, rn[how]);
        transition( mix( i, r), mix( how, got));
        if ( ! p) { fail( BOOLV, "reading value %d made the coroutine invalid", i); return false; }
        bool ok = one< T >( p, i, how);
        ++n_checks;
        observe( ok);
        state( mix( mix( i, r + 1), mix( how, got)));
        if ( ! ok) {
            std::string sig = std::string( "repeat payload=") + G< T >::name() + " reads=" + ( got ? "get," : "") + ( how ? "iterator" : "get");
            fail_sig( REPEAT, sig, "%s: read number %d of value %d (%s) does not show the value; reads before: %s", G< T >::name(), r + 1, i, rn[how], r == 0 ? "none" : got ? "some by get()" : "by iterator only");
            return false;
        }
        if ( how == 0) got = 1;
    }
    return true;
}
template< class T > void run( bool pull, int n, int maxlen) {
    Trk a( 0), b( 1), c( 2), d( 3); robj[0] = & a; robj[1] = & b; robj[2] = & c; robj[3] = & d;
    int at = 1 + choose( n), len = 2 + choose( maxlen - 1);     // which value is read repeatedly
    note( "%s<%s>: %d values, value %d is read %d times", pull ? "pull" : "push", G< T >::name(), n, at, len);
    if ( pull) {
        typename co::coroutine< T >::pull_type p( Alloc( 1), [&]( typename co::coroutine< T >::push_type & s) { for ( int i = 1; i <= n; ++i) s( G< T >::make( i)); });
        for ( int i = 1; p; p(), ++i) if ( i == at) reads< T >( p, i, len); else if ( i < at) one< T >( p, i, 1);
    } else {
        typename co::coroutine< T >::push_type s( Alloc( 1), [&]( typename co::coroutine< T >::pull_type & p) { for ( int i = 1; p; p(), ++i) if ( i == at) reads< T >( p, i, len); else if ( i < at) one< T >( p, i, 1); });
        for ( int i = 1; i <= n; ++i) s( G< T >::make( i));
    }
}
template< class T > void add() {
    for ( int d = 0; d < 2; ++d) for ( int t = 0; t < 2; ++t) {
        bool pull = d == 0; int ml = t ? 7 : 5;
        add_scenario( std::string( "repeat.") + ( d ? "push." : "pull.") + G< T >::name() + ( t ? ".deep" : ""), "every sequence of 2.." + std::to_string( ml) + " reads (get, *it, it->, copied iterator, range-for) of each value of a stream of 3", [pull, ml]() { run< T >( pull, 3, ml); }, t, 3);
    }
}
struct Reg { Reg() {
    world_hooks();
    add< int >(); add< double >(); add< const char * >(); add< Small >(); add< CopyAssignOnly >(); add< Cpy >(); add< Pod >(); add< Ar >(); add< Trk & >(); add< Trk const& >();
    add< std::string >(); add< Trk >();
} } reg;
}
}
