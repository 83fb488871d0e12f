#ifndef MC_STREAMS_HPP
#define MC_STREAMS_HPP
// Streams of every length over unusual payload types (C01, C09, C07, C08): for every payload type, direction, way of
// pushing, way of reading, every subset of values left unread (short streams) and every length up to a bound, plus long ones.
#include "world.hpp"
#include <boost/coroutine2/all.hpp>
#include <array>
#include <deque>
#include <map>
#include <memory>
#include <vector>
#include <functional>
namespace mc {
namespace {
namespace co = boost::coroutines2;

// ---- payload types
struct Amp { int v; explicit Amp( int x = 0) : v( x) {} int * operator&() const { return nullptr; } };       // overloaded address-of
struct Comma { int v; explicit Comma( int x = 0) : v( x) {} };
template< class X > void operator,( Comma const&, X const&) { std::abort(); }
template< class X > void operator,( X const&, Comma const&) { std::abort(); }
struct NoAssign { const int v; explicit NoAssign( int x) : v( x) {} NoAssign( NoAssign const&) = default; NoAssign & operator=( NoAssign const&) = delete; };
struct RefMember { int & r; explicit RefMember( int & x) : r( x) {} };
struct Empty {};
struct Greedy { int v; Greedy( int x) : v( x) {} template< class T, class = typename std::enable_if< ! std::is_same< typename std::decay< T >::type, Greedy >::value && ! std::is_arithmetic< typename std::decay< T >::type >::value >::type > Greedy( T &&) : v( -77) {} };
struct IList { std::vector< int > v; IList( std::initializer_list< int > l) : v( l) {} IList( std::initializer_list< IList > l) : v( 1, -5) { (void) l; } IList( IList const&) = default; IList( IList &&) = default; };  // T{t} would pick the second
struct NewOp { int v; explicit NewOp( int x) : v( x) {} static void * operator new( std::size_t) { std::abort(); } static void operator delete( void *) {} };   // class-specific allocation functions must not be used
struct Base { int a; explicit Base( int x) : a( x) {} virtual ~Base() {} virtual int id() const { return a; } };
struct Other { long o; virtual ~Other() {} virtual int oid() const { return 1; } Other() : o( 9) {} };
struct Derived : Other, Base { int b; explicit Derived( int x) : Base( x), b( x * 2) {} int id() const { return b + 1000; } };
struct Abstract { virtual ~Abstract() {} virtual int id() const = 0; };
struct Impl : Other, Abstract { int v; explicit Impl( int x) : v( x) {} int id() const { return v; } };
struct Huge { int v; unsigned char pad[20000]; explicit Huge( int x) : v( x) { for ( unsigned i = 0; i < sizeof pad; ++i) pad[i] = (unsigned char)( x + i * 13); } bool ok() const { for ( unsigned i = 0; i < sizeof pad; ++i) if ( pad[i] != (unsigned char)( v + i * 13)) return false; return true; } };
struct Bits { unsigned a : 3; unsigned b : 13; unsigned long long c : 40; };
enum class En : short { A = -3, B = 17 };
union Un { int i; double d; };
struct Padded { char c; long long l; short s; };
struct ExplicitMove { std::unique_ptr< int > p; explicit ExplicitMove( int x) : p( new int( x)) {} ExplicitMove( ExplicitMove &&) = default; };

static int slots[64];
inline int & pool( int i) { slots[i & 63] = i; return slots[i & 63]; }

template< class T > struct G;   // make( i), is( x, i)
#define G_( T, MK, IS) template<> struct G< T > { static T make( int i) { (void) i; return MK; } static bool is( T const& x, int i) { (void) i; (void) x; return IS; } }
G_( int, i * 7 - 3, x == i * 7 - 3);
G_( bool, i % 3 == 1, x == ( i % 3 == 1));
G_( char, (char) i, x == (char) i);
G_( unsigned char, (unsigned char)( i * 37), x == (unsigned char)( i * 37));
G_( short, (short)( i * 257), x == (short)( i * 257));
G_( long long, ( (long long) i << 33) - i, x == ( (long long) i << 33) - i);
G_( double, i * 1.5, x == i * 1.5);
G_( float, i * 0.25f, x == i * 0.25f);
G_( long double, i * 3.25L, x == i * 3.25L);
G_( std::nullptr_t, nullptr, x == nullptr);
G_( En, (En)( i % 100), x == (En)( i % 100));
static void fn0() {} static void fn1() {} typedef void ( * Fp)(); typedef int Base::* Mp;
G_( Fp, i % 2 ? & fn0 : & fn1, x == ( i % 2 ? & fn0 : & fn1));
G_( const char *, reinterpret_cast< const char * >( (std::uintptr_t) i * 3), x == reinterpret_cast< const char * >( (std::uintptr_t) i * 3));
G_( void *, reinterpret_cast< void * >( (std::uintptr_t) i * 5), x == reinterpret_cast< void * >( (std::uintptr_t) i * 5));
G_( Amp, Amp( i), x.v == i);
G_( Comma, Comma( i), x.v == i);
G_( NoAssign, NoAssign( i), x.v == i);
G_( RefMember, RefMember( pool( i)), x.r == i && std::addressof( x.r) == & slots[i & 63]);
G_( Empty, Empty(), true);
G_( Greedy, Greedy( i), x.v == i);
G_( IList, ( IList{ i, i + 1 }), x.v.size() == 2 && x.v[0] == i && x.v[1] == i + 1);
G_( NewOp, NewOp( i), x.v == i);
G_( Base, Base( i), x.a == i && x.id() == i);
G_( Derived, Derived( i), x.a == i && x.id() == 2 * i + 1000 && x.oid() == 1 && x.o == 9);
G_( Huge, Huge( i), x.v == i && x.ok());
template<> struct G< Bits > { static Bits make( int i) { Bits b; b.a = i & 7; b.b = i & 0x1fff; b.c = (unsigned long long) i << 20; return b; } static bool is( Bits const& b, int i) { return b.a == ( (unsigned) i & 7u) && b.b == ( (unsigned) i & 0x1fffu) && b.c == ( ( (unsigned long long) i << 20) & ( ( 1ULL << 40) - 1)); } };
template<> struct G< Un > { static Un make( int i) { Un u; u.d = i * 0.5; return u; } static bool is( Un const& u, int i) { return u.d == i * 0.5; } };
template<> struct G< Padded > { static Padded make( int i) { Padded p; p.c = (char) i; p.l = (long long) i << 30; p.s = (short) i; return p; } static bool is( Padded const& p, int i) { return p.c == (char) i && p.l == (long long) i << 30 && p.s == (short) i; } };
typedef std::array< int, 9 > Arr; typedef std::pair< std::string, int > Pr; typedef std::vector< std::string > Vec; typedef std::map< int, std::string > Map; typedef std::function< int( int) > Fun;
template<> struct G< Arr > { static Arr make( int i) { Arr a; a.fill( i); a[8] = -i; return a; } static bool is( Arr const& a, int i) { for ( int k = 0; k < 8; ++k) if ( a[k] != i) return false; return a[8] == -i; } };
G_( Pr, Pr( std::to_string( i), i), x.first == std::to_string( i) && x.second == i);
template<> struct G< Vec > { static Vec make( int i) { return Vec( i % 4, std::string( 20 + i % 5, 'x')); } static bool is( Vec const& v, int i) { return v == make( i); } };
template<> struct G< Map > { static Map make( int i) { Map m; m[i] = std::to_string( i); m[-1] = "z"; return m; } static bool is( Map const& v, int i) { return v == make( i); } };
template<> struct G< Fun > { static Fun make( int i) { return [i]( int k) { return k + i; }; } static bool is( Fun const& f, int i) { return f && f( 3) == i + 3; } };
typedef std::shared_ptr< int > Sp; typedef std::unique_ptr< int > Up; typedef std::unique_ptr< Base > Ub; typedef std::tuple<> T0; typedef std::tuple< int, std::string, double > T3;
G_( Sp, std::make_shared< int >( i), x && * x == i);
G_( Up, Up( new int( i)), x && * x == i);
G_( Ub, Ub( new Derived( i)), x && x->id() == 2 * i + 1000);
G_( T0, T0(), true);
G_( T3, T3( i, std::to_string( i), i * 0.5), x == T3( i, std::to_string( i), i * 0.5));
G_( ExplicitMove, ExplicitMove( i), x.p && * x.p == i);
G_( std::reference_wrapper< int >, std::ref( pool( i)), & x.get() == & slots[i & 63] && x.get() == i);
// coroutines as payload of coroutines
typedef co::coroutine< int >::pull_type Cp; typedef co::coroutine< int >::push_type Cs;
template<> struct G< Cp > { static Cp make( int i) { return Cp( co::fixedsize_stack( 32768), [i]( co::coroutine< int >::push_type & s) { s( i); s( i + 1); }); } static bool is( Cp const& c, int i) { Cp & m = const_cast< Cp & >( c); return m && m.get() == i; } };
static int sunk;
template<> struct G< Cs > { static Cs make( int i) { return Cs( co::fixedsize_stack( 32768), [i]( co::coroutine< int >::pull_type & s) { for (;;) { sunk = s.get() + i; s(); } }); } static bool is( Cs const& c, int i) { Cs & m = const_cast< Cs & >( c); if ( ! m) return false; m( 100); return sunk == 100 + i; } };

template< class T, bool C = std::is_copy_constructible< T >::value && ! std::is_same< T, Cp >::value && ! std::is_same< T, Cs >::value > struct LV {
    template< class S > static void push( S & s, int i, int how) {
        if ( how == 0) { s( G< T >::make( i)); return; }
        if ( how == 4) { * boost::coroutines2::detail::begin( s) = G< T >::make( i); return; }
        T t( G< T >::make( i));
        if ( how == 5) { typename S::iterator it( boost::coroutines2::detail::begin( s)), e( boost::coroutines2::detail::end( s)); if ( it == e) fail( ITEROUT, "begin() of a usable push_type is end()"); * it = t; ++it; }
        else if ( how == 1) { s( t); }
        else if ( how == 2) { T const& c = t; s( c); }
        else { s( std::move( t)); return; }
        ++n_checks;
        if ( ! G< T >::is( t, i)) fail( COPYMOVE, "pushed lvalue changed by the push of element %d", i);
    }
};
template< class T > struct LV< T, false > {
    template< class S > static void push( S & s, int i, int how) {
        if ( how == 0) { s( G< T >::make( i)); return; }
        if ( how == 4) { * boost::coroutines2::detail::begin( s) = G< T >::make( i); return; }
        T t( G< T >::make( i));
        if ( how == 5) { typename S::iterator it( boost::coroutines2::detail::begin( s)); * it = std::move( t); ++it; }
        else s( std::move( t));
    }
};
template< class T, class P > void look( P & p, int i, int how, const char * side) {
    bool ok = true;
    if ( ! p) { fail( BOOLV, "%s: no value although element %d was pushed", side, i); return; }
    switch ( how) {
    case 0: { T v = p.get(); ok = G< T >::is( v, i); break; }
    case 1: { ok = G< T >::is( * p.begin(), i) && G< T >::is( * boost::coroutines2::detail::begin( p), i); T v( p.get()); ok = ok && G< T >::is( v, i); break; }
    case 2: { typename P::iterator it( p.begin()); ok = G< T >::is( * it, i) && G< T >::is( * it.operator->(), i); break; }
    case 3: { auto && v = p.get(); ok = G< T >::is( v, i); break; }
    }
    ++n_checks;
    observe( mix( i, how * 2 + ok));
    if ( ! ok) fail( VALUE, "%s: element %d of the stream is read with another value", side, i);
}

// pull: function pushes n values; reader reads those in mask (all if mask < 0) in the given way
template< class T > void go( bool pull, int n, int ph, int rh, int mask) {
    int sent = 0, seen = 0;
    if ( pull) {
        typename co::coroutine< T >::pull_type src( Alloc( 1), [&]( typename co::coroutine< T >::push_type & sink) {
            for ( int i = 0; i < n; ++i) { ++sent; LV< T >::push( sink, i + 1, ph); }
        });
        for (;;) {
            ++n_checks;
            bool v = static_cast< bool >( src);
            if ( v != ( seen < n)) { fail( VALUE, "after %d of %d values the pull_type is %s", seen, n, v ? "still valid" : "invalid"); break; }
            if ( ! v) break;
            ++seen;
            if ( sent != seen) fail( VALUE, "the function has pushed %d values when %d were taken", sent, seen);
            if ( mask < 0 || ( ( mask >> ( seen - 1)) & 1)) look< T >( src, seen, rh, "pull_type");
            src();
        }
    } else {
        bool ended = false;
        {
            typename co::coroutine< T >::push_type sink( Alloc( 1), [&]( typename co::coroutine< T >::pull_type & src) {
                for (;;) {
                    ++seen;
                    if ( seen != sent) fail( VALUE, "the function sees value number %d when %d were pushed", seen, sent);
                    if ( mask < 0 || ( ( mask >> ( seen - 1)) & 1)) look< T >( src, seen, rh, "function");
                    if ( seen == n) break;
                    src();
                }
                ended = true;
            });
            for ( int i = 0; i < n; ++i) { ++sent; LV< T >::push( sink, i + 1, ph); ++n_checks; if ( seen != sent) fail( VALUE, "value number %d was not delivered (the function has seen %d)", sent, seen); }
            ++n_checks;
            if ( static_cast< bool >( sink) != ( n == 0)) fail( BOOLV, "push_type valid=%d after the function ended", (int) static_cast< bool >( sink));
        }
        if ( n && ! ended) fail( EXEC, "the function did not run to its end");
    }
}

// ---- references: identity of arbitrary objects
template< class R, class O > void go_ref( bool pull, std::vector< O * > const& objs, int n, unsigned pat, int rh, bool viait) {
    // element i is object ( pat >> 2i) & 3
    typedef typename std::remove_reference< R >::type E;
    int at = 0;
    auto want = [&]( int i) -> E * { return static_cast< E * >( objs[( pat >> ( 2 * i)) & 3]); };
    auto look = [&]( typename co::coroutine< R >::pull_type & p, int i) {
        const volatile void * a;
        ++n_checks;
        if ( ! p) { fail( BOOLV, "no reference available"); return; }
        if ( rh == 0) { R r = p.get(); a = std::addressof( r); } else if ( rh == 1) { R r = * p.begin(); a = std::addressof( r); } else a = p.begin().operator->();
        if ( a != static_cast< const volatile void * >( want( i))) fail( REFID, "element %d: the received reference denotes another object than the one pushed", i);
        observe( ( pat >> ( 2 * i)) & 3);
    };
    if ( pull) {
        typename co::coroutine< R >::pull_type src( Alloc( 1), [&]( typename co::coroutine< R >::push_type & sink) { auto it = boost::coroutines2::detail::begin( sink); for ( int i = 0; i < n; ++i) { if ( viait) { * it = * want( i); ++it; } else sink( * want( i)); } });
        for ( ; src; src()) { if ( at >= n) { fail( VALUE, "more references than were pushed"); break; } look( src, at); ++at; }
    } else {
        typename co::coroutine< R >::push_type sink( Alloc( 1), [&]( typename co::coroutine< R >::pull_type & src) { for ( ; src; src()) { if ( at >= n) { fail( VALUE, "more references than were pushed"); break; } look( src, at); ++at; } });
        auto it = boost::coroutines2::detail::begin( sink);
        for ( int i = 0; i < n; ++i) { if ( viait) { * it = * want( i); ++it; } else sink( * want( i)); }
    }
    ++n_checks;
    if ( at != n) fail( VALUE, "%d references received, %d pushed", at, n);
}
template< class T > void add( const char * name, bool big = false) {
    for ( int d = 0; d < 2; ++d) {
        std::string nm = std::string( "stream." ) + ( d ? "push." : "pull.") + name;
        bool pull = d == 0;
        add_scenario( nm, "every length 0..24 with every way of pushing and reading; every subset of unread values for lengths 0..6; lengths 100, 1000, 66000", [pull, big]() {
            W.stack_size = big ? 256 * 1024 : 128 * 1024;
            int ph = choose( 6), rh = choose( 4), what = choose( 3), n, mask = -1;
            if ( what == 0) n = choose( 25);
            else if ( what == 1) { n = choose( 7); mask = n ? choose( 1 << n) : 0; }
            else { static const int L[3] = { 100, 1000, 66000 }; n = L[choose( big ? 2 : 3)]; }
            note( "%s, %d values, pushed in way %d, read in way %d, mask %x", pull ? "pull" : "push", n, ph, rh, mask);
            transition( mix( ph, rh), mix( n, mask));
            go< T >( pull, n, ph, rh, mask);
            state( mix( mix( ph, rh), mix( n, mask)));
        }, 0, 3);
        add_scenario( nm + ".deep", "every length 0..300; every subset of unread values for lengths 0..11; length 70000", [pull, big]() {
            W.stack_size = big ? 256 * 1024 : 128 * 1024;
            int ph = choose( 6), rh = choose( 4), what = choose( 3), n, mask = -1;
            if ( what == 0) n = choose( 301);
            else if ( what == 1) { n = choose( 12); mask = n ? choose( 1 << n) : 0; }
            else n = 70000;
            transition( mix( ph, rh), mix( n, mask));
            go< T >( pull, n, ph, rh, mask);
            state( mix( mix( ph, rh), mix( n, mask)));
        }, 1, 4);
        add_scenario( std::string( "refs.") + ( d ? "push." : "pull.") + name + "_any&", "references and const references to 4 objects of this type: every sequence of up to 4 pushes, directly or through an output iterator, 3 ways of reading", [pull]() {
            static std::vector< T * > objs; if ( objs.empty()) for ( int i = 0; i < 4; ++i) objs.push_back( ::new T( G< T >::make( i + 1)));
            W.stack_size = 128 * 1024;
            int c = choose( 2), rh = choose( 3), via = choose( 2), n = choose( 5); unsigned pat = 0;
            for ( int i = 0; i < n; ++i) { pat |= choose( 4) << ( 2 * i); transition( mix( n, pat), i); }
            if ( c) go_ref< T const&, T >( pull, objs, n, pat, rh, via); else go_ref< T &, T >( pull, objs, n, pat, rh, via);
            for ( int i = 0; i < 4; ++i) { ++n_checks; if ( ! G< T >::is( * objs[i], i + 1)) fail( REFID, "the pushed object was changed"); }
            state( mix( mix( n, pat), rh + 4 * via + 8 * c));
        }, 0, 2);
    }
}

template< class R, class O > void add_ref( const char * name, std::function< O *( int) > mk) {
    for ( int d = 0; d < 2; ++d) for ( int t = 0; t < 2; ++t) {
        bool pull = d == 0; int N = t ? 7 : 5;
        add_scenario( std::string( "refs.") + ( d ? "push." : "pull.") + name + ( t ? ".deep" : ""), t ? "every sequence of up to 7 references to 4 objects, pushed directly or through an output iterator" : "every sequence of up to 5 references to 4 objects, pushed directly or through an output iterator", [pull, mk, N]() {
            static std::vector< O * > objs; if ( objs.empty()) for ( int i = 0; i < 4; ++i) objs.push_back( mk( i));
            int rh = choose( 3), via = choose( 2), n = choose( N + 1); unsigned pat = 0;
            for ( int i = 0; i < n; ++i) { pat |= choose( 4) << ( 2 * i); transition( mix( n, pat), i); }
            go_ref< R, O >( pull, objs, n, pat, rh, via);
            state( mix( mix( n, pat), rh + 4 * via));
        }, t, 3);
    }
}
}
}
#endif
