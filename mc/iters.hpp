// Iterators (C14, C15): every history of iterator operations, direct operations and algorithms up to a depth, for streams
// of every small length, on the owner's side and inside coroutine-functions, ending by return or exception.
#ifndef MC_ITERS_HPP
#define MC_ITERS_HPP
#include "world.hpp"
#include <boost/coroutine2/all.hpp>
#include <algorithm>
#include <iterator>
#include <memory>
#include <numeric>
#include <vector>
namespace mc {
namespace {
namespace co = boost::coroutines2;
Trk * pool_[12];
void mk_pool() { static bool done = false; if ( done) return; done = true; W.reset(); for ( int i = 0; i < 12; ++i) pool_[i] = static_cast< Trk * >( ::operator new( sizeof( Trk))); }
struct Pool { Pool() { for ( int i = 0; i < 12; ++i) new ( pool_[i]) Trk( i); } ~Pool() { for ( int i = 0; i < 12; ++i) pool_[i]->~Trk(); } };

int same( Trk const& x) {
    for ( int i = 0; i < 12; ++i) if ( & x == pool_[i]) return x.get();
    ++n_checks; fail( REFID, "the received reference refers to another object than the one pushed");
    return -2;
}
template< class P > struct A;           // payload adapter
template<> struct A< int > { typedef int E; static int id( int const& x) { return x - 100; } template< class S > static void push( S & s, int i) { s( i + 100); } static int val( int i) { return i + 100; } enum { tracked = 0, moveonly = 0, ref = 0 }; };
template<> struct A< std::string > { typedef std::string E; static int id( std::string const& x) { return x.size() > 30 ? atoi( x.c_str() + 30) : -1; } static std::string val( int i) { return std::string( 30, '.') + std::to_string( i); } template< class S > static void push( S & s, int i) { s( val( i)); } enum { tracked = 0, moveonly = 0, ref = 0 }; };
template<> struct A< Trk > { typedef Trk E; static int id( Trk const& x) { return x.get(); } static Trk val( int i) { return Trk( i); } template< class S > static void push( S & s, int i) { s( Trk( i)); } enum { tracked = 1, moveonly = 0, ref = 0 }; };
template<> struct A< Mov > { typedef Mov E; static int id( Mov const& x) { return x.get(); } static Mov val( int i) { return Mov( i); } template< class S > static void push( S & s, int i) { s( Mov( i)); } enum { tracked = 1, moveonly = 1, ref = 0 }; };
template<> struct A< Trk & > { typedef Trk E; static int id( Trk const& x) { return same( x); } static Trk & val( int i) { return * pool_[i]; } template< class S > static void push( S & s, int i) { s( * pool_[i]); } enum { tracked = 0, moveonly = 0, ref = 1 }; };
template<> struct A< Trk const& > { typedef Trk const E; static int id( Trk const& x) { return same( x); } static Trk const& val( int i) { return * pool_[i]; } template< class S > static void push( S & s, int i) { s( * pool_[i]); } enum { tracked = 0, moveonly = 0, ref = 1 }; };

struct Boom { int at; explicit Boom( int a) : at( a) { ++W.live_exc; } Boom( Boom const& o) : at( o.at) { ++W.live_exc; } ~Boom() { --W.live_exc; } };


// ------------------------------------------------------------------ input side
template< class P > struct In {
    typedef typename co::coroutine< P >::pull_type Pull;
    typedef typename co::coroutine< P >::push_type Push;
    typedef typename Pull::iterator It;
    typedef A< P > AA;
    int n, ending, depth, N; bool inner;   // inner: the operations run inside a coroutine-function
    int pos, sent; bool taken, over;    // model: 1-based position of the current value, over: stream has ended
    It it[2]; bool has[2], fresh[2];
    unsigned long c0, m0;

    void quiet() { c0 = W.copies; m0 = W.moves; }
    void still( const char * what) {
        ++n_checks;
        if ( AA::tracked && ( W.copies != c0 || W.moves != m0)) fail( ITERIN, "%s copied or moved the value", what);
        if ( sent != pos && ! inner && ! over) fail( ITERIN, "%s advanced the coroutine (%d values pushed, current is number %d)", what, sent, pos);
    }
    void see( int id, const char * what) { ++n_checks; observe( id); if ( id != pos) { fail( ITERIN, "%s shows value %d, the current value is %d", what, id, pos); fail( VALUE, "%s shows value %d, the current value is %d", what, id, pos); } }
    // the model's advance; called around real operations
    bool will_end() const { return pos >= n; }

    template< class F > void advance( Pull & c, F f, const char * what, int itx) {
        // real advance by f; checks outcome against the model
        bool end = will_end(); int p0 = pos;
        taken = false;
        for ( int k = 0; k < 2; ++k) fresh[k] = false;
        bool threw = false; int at = 0;
        if ( inner && end) { pos = n + 1; f(); fail( ITERIN, "%s returned although no further value was pushed", what); return; }
        if ( end) over = true; else ++pos;
        try { f(); } catch ( Boom const& b) { threw = true; at = b.at; }
        ++n_checks;
        observe( mix( pos, over * 2 + threw));
        if ( end && ending == 1) {
            if ( ! threw) { fail( ITERIN, "%s did not report the exception of the function", what); fail( EXC, "%s did not report the exception of the function", what); }
            else if ( at != n) fail( ITERIN, "%s reported another exception", what);
            if ( itx >= 0) has[itx] = false;       // its state is unspecified
        } else {
            if ( threw) { fail( ITERIN, "%s threw an exception although the function did not", what); }
            if ( itx >= 0) fresh[itx] = true;
        }
        if ( ! inner && ! over && sent != p0 + 1) fail( ITERIN, "%s advanced the coroutine by %d values", what, sent - p0);
        check( c);
    }
    void check( Pull & c) {
        ++n_checks;
        if ( static_cast< bool >( c) != ! over) fail( BOOLV, "pull_type is %s at position %d of %d", c ? "valid" : "invalid", pos, n);
        for ( int k = 0; k < 2; ++k) if ( has[k] && fresh[k]) {
            ++n_checks;
            quiet();
            bool e1 = it[k] == c.end(), e2 = it[k] == It(), e3 = ! ( it[k] != boost::coroutines2::detail::end( c)), e4 = c.end() == it[k];
            still( "comparing with end()");
            if ( e1 != e2 || e1 != e3 || e1 != e4) fail( ITERIN, "comparisons with end() contradict each other");
            if ( e1 != over) fail( ITERIN, "iterator equals end() is %d although the coroutine is %s", (int) e1, over ? "invalid" : "valid");
            observe( e1);
        }
        state( mix( mix( pos, over), mix( mix( n, ending), has[0] + 2 * has[1] + 4 * fresh[0] + 8 * fresh[1] + 16 * taken + 32 * inner)));
    }

    void ops( Pull & c) {
        check( c);
        for ( int d = 0; d < depth; ++d) {
            struct O { int code, a, b; } o[80]; int m = 0;
            auto add = [&]( int code, int a = 0, int b = 0) { O x = { code, a, b }; o[m++] = x; };
            add( 0);
            bool cur = ! over;
            for ( int k = 0; k < 2; ++k) {
                if ( cur || true) for ( int w = 0; w < 3; ++w) if ( k == 0 || w == 0) add( 1, k, w);     // begin()
                if ( has[k] && cur) {
                    add( 2, k); add( 3, k);
                    if ( ! taken) { add( 4, k); add( 5, k); }
                    if ( ! taken) for ( int al = 0; al < 9; ++al) add( 6, k, al);
                }
                if ( has[k]) add( 7, k);                                                      // copy/assign to the other
            }
            if ( cur) { add( 8); if ( ! taken) add( 9); for ( int j = 0; j < 3; ++j) if ( ! taken) add( 10, j); }
            O x = o[choose( m)];
            transition( mix( mix( pos, over), has[0] + 2 * has[1]), mix( x.code, mix( x.a, x.b)));
            observe( mix( x.code, mix( x.a, x.b)));
            if ( x.code) note( "  op %d %d %d at value %d%s", x.code, x.a, x.b, pos, over ? " (over)" : "");
            switch ( x.code) {
            case 0: return;
            case 1:
                quiet();
                if ( x.b == 0) it[x.a] = c.begin(); else if ( x.b == 1) it[x.a] = boost::coroutines2::detail::begin( c); else it[x.a] = It( & c);
                still( "begin()"); has[x.a] = true; fresh[x.a] = true; check( c); break;
            case 2: advance( c, [&]() { It & r = ++it[x.a]; if ( & r != & it[x.a]) fail( ITERIN, "++ does not return the iterator"); }, "++it", x.a); break;
            case 3: advance( c, [&]() { it[x.a]++; }, "it++", x.a); break;
            case 4: { quiet(); auto & v = * it[x.a]; see( AA::id( v), "*it"); if ( std::addressof( v) != std::addressof( * it[x.a])) fail( ITERIN, "*it gives two objects"); still( "*it"); check( c); break; }
            case 5: { quiet(); auto * v = it[x.a].operator->(); see( AA::id( * v), "it->"); if ( v != std::addressof( * it[x.a])) fail( ITERIN, "it-> and *it give two objects"); still( "it->"); check( c); break; }
            case 6: algo( c, it[x.a], x.b); for ( int k = 0; k < 2; ++k) fresh[k] = false; if ( over) has[0] = has[1] = false; check( c); break;
            case 7: { quiet(); It t( it[x.a]); it[1 - x.a] = t; has[1 - x.a] = true; fresh[1 - x.a] = fresh[x.a]; ++n_checks; if ( ! ( it[0] == it[1]) || it[0] != it[1]) fail( ITERIN, "a copied iterator does not equal the original"); still( "copying an iterator"); check( c); break; }
            case 8: advance( c, [&]() { c(); }, "operator()", -1); break;
            case 9: { auto && v = c.get(); see( AA::id( v), "get()"); taken = ! AA::ref; check( c); break; }
            case 10: { // range-for, left after x.a + 1 elements, or run to the end
                int j = 0;
                walk( c, [&]( std::vector< int > & out) { for ( auto & v : c) { out.push_back( AA::id( v)); if ( ++j == x.a + 1 && x.a < 2) { ended = false; break; } } }, "range-for", true);
                for ( int k = 0; k < 2; ++k) fresh[k] = false;
                if ( over) has[0] = has[1] = false;
                check( c); break; }
            }
        }
    }
    bool ended;
    // runs f, which appends to `out` the values it sees from the current one on
    template< class F > void walk( Pull &, F f, const char * what, bool complete) {
        static std::vector< int > out; out.clear();
        bool threw = false; ended = complete;
        int p0 = pos;
        struct Unwound { In & i; int p0; const char * what; bool armed; ~Unwound() {
            if ( ! armed) return;
            ++n_checks; i.pos = i.n; int k = out.size();
            for ( int j = 0; j < k; ++j) if ( out[j] != p0 + j) { fail( ITERIN, "%s visits value %d where %d is next", what, out[j], p0 + j); break; }
            if ( k != i.n - p0 + 1) fail( ITERIN, "%s visited %d values when the owner was destroyed, %d were pushed", what, k, i.n - p0 + 1);
        } } unwound = { * this, p0, what, true };
        try { f( out); } catch ( Boom const&) { threw = true; ended = true; }
        unwound.armed = false;
        ++n_checks;
        if ( inner && ended) { fail( ITERIN, "%s ended inside a coroutine-function although the stream goes on", what); }
        int k = out.size();
        for ( int i = 0; i < k; ++i) { observe( out[i]); if ( out[i] != p0 + i) { fail( ITERIN, "%s visits value %d where %d is next", what, out[i], p0 + i); break; } }
        if ( ended && k != n - p0 + 1) fail( ITERIN, "%s visits %d values, %d are left", what, k, n - p0 + 1);
        if ( ended && threw != ( ending == 1)) { fail( ITERIN, "%s %s an exception", what, threw ? "ended with" : "did not pass on"); }
        if ( ended) { over = true; pos = n; } else pos = p0 + k - 1;
        taken = false;
    }
    void algo( Pull & c, It b, int al) {
        int target = std::min( pos + 1, n);
        switch ( al) {
        case 0: walk( c, [&]( std::vector< int > & o) { std::for_each( b, c.end(), [&]( typename AA::E & v) { o.push_back( AA::id( v)); }); }, "std::for_each", true); break;
        case 1: walk( c, [&]( std::vector< int > & o) { for ( ; b != c.end(); b++) o.push_back( AA::id( * b)); }, "loop with it++", true); break;
        case 2: walk( c, [&]( std::vector< int > & o) { int k = std::count_if( b, c.end(), [&]( typename AA::E & v) { o.push_back( AA::id( v)); return true; }); if ( k != (int) o.size()) fail( ITERIN, "std::count_if counts %d of %d", k, (int) o.size()); }, "std::count_if", true); break;
        case 3: // stops at an element: iterator returned stands on it
            walk( c, [&]( std::vector< int > & o) { It r = std::find_if( b, c.end(), [&]( typename AA::E & v) { o.push_back( AA::id( v)); return AA::id( v) == target; }); ended = false; if ( r == c.end() || AA::id( * r) != target) fail( ITERIN, "std::find_if returns an iterator to another element"); }, "std::find_if", false); break;
        case 4: walk( c, [&]( std::vector< int > & o) { std::transform( b, c.end(), std::back_inserter( o), []( typename AA::E & v) { return AA::id( v); }); }, "std::transform", true); break;
        case 5: walk( c, [&]( std::vector< int > & o) { int s = std::accumulate( b, c.end(), 0, [&]( int a, typename AA::E & v) { o.push_back( AA::id( v)); return a + AA::id( v); }); int t = 0; for ( int v : o) t += v; if ( s != t) fail( ITERIN, "std::accumulate"); }, "std::accumulate", true); break;
        case 6: { // distance counts without reading
            walk( c, [&]( std::vector< int > & o) { int p = pos; if ( ending || inner) { for ( ; b != c.end(); ++b) o.push_back( p++); return; } int k = std::distance( b, c.end()); for ( int i = 0; i < k; ++i) o.push_back( p + i); }, "std::distance", ! inner); break; }
        case 7: walk( c, [&]( std::vector< int > & o) { copy_( b, c.end(), o, std::integral_constant< bool, AA::moveonly >()); }, "std::copy", true); break;
        case 8: // step by hand with interleaved direct resumption: every second value by operator()
            walk( c, [&]( std::vector< int > & o) { bool dir = false; while ( c) { o.push_back( AA::id( * b)); if ( dir) c(); else ++b; dir = ! dir; } }, "alternating ++it and operator()", true); break;
        }
    }
    static void copy_( It b, It e, std::vector< int > & o, std::false_type) { static std::vector< int > * rec; rec = & o; struct Cv { Cv( typename AA::E & x) { rec->push_back( AA::id( x)); } }; std::vector< Cv > t; std::copy( b, e, std::back_inserter( t)); if ( t.size() != o.size()) fail( ITERIN, "std::copy"); }
    static void copy_( It b, It e, std::vector< int > & o, std::true_type) { for ( ; b != e; ++b) o.push_back( AA::id( * b)); }

    void run() {
        Pool p;
        n = choose( N + 1); ending = choose( 2); pos = 1; sent = 0; taken = false; over = false; has[0] = has[1] = fresh[0] = fresh[1] = false;
        note( "%s: %d values, then %s", inner ? "inside a push_type's function" : "pull_type", n, ending ? "exception" : "end");
        if ( ! inner) {
            bool threw = false;
            try {
                Pull c( Alloc( 1), [&]( Push & s) { for ( int i = 1; i <= n; ++i) { ++sent; AA::push( s, i); } if ( ending) throw Boom( n); });
                if ( n == 0) over = true;
                ops( c);
            } catch ( Boom const&) { threw = true; }
            ++n_checks;
            if ( threw != ( n == 0 && ending)) fail( EXC, "exception out of the constructor: %d", (int) threw);
        } else {
            if ( ending) return;                 // the source inside a function has no end
            if ( ! n) return;
            bool in = false, unw = false, done = false;
            {
                Push c( Alloc( 1), [&]( Pull & s) {
                    in = true;
                    struct U { bool & u; bool & d; ~U() { if ( ! d) u = true; } } u = { unw, done };
                    ops( s);
                    // consume the rest
                    while ( true) { if ( pos >= n) { done = true; s(); done = false; fail( ITERIN, "resumed without a value"); return; } s(); ++pos; }
                });
                for ( int i = 1; i <= n; ++i) { if ( i > 1) {} sent = i; if ( c) AA::push( c, i); }
            }
            ++n_checks;
            if ( ! in) fail( EXEC, "the function was not entered");
            if ( pos < n) fail( ITERIN, "only %d of %d values seen inside the function", pos, n);
        }
    }
};
template< class P > void add_in( const char * name) {
    for ( int inner = 0; inner < 2; ++inner) for ( int t = 0; t < 2; ++t) {
        int d = t ? 6 : 5, N = t ? 5 : 4;
        add_scenario( std::string( "iterin.") + ( inner ? "inner." : "owner.") + name + ( t ? ".deep" : ""), "streams of 0.." + std::to_string( N) + " values ending by return or exception; every history of up to " + std::to_string( d) + " operations (3 ways of begin, ++it, it++, *, ->, copies, operator(), get, 9 algorithms, range-for left early)",
            [inner, d, N]() { mk_pool(); In< P > i; i.depth = d; i.N = N; i.inner = inner; i.run(); }, t, 4);
    }
}

// ------------------------------------------------------------------ output side
template< class P > struct Out {
    typedef typename co::coroutine< P >::pull_type Pull;
    typedef typename co::coroutine< P >::push_type Push;
    typedef typename Push::iterator It;
    typedef A< P > AA;
    int n, ending, depth, N; bool inner;
    int pos, got; int last; bool over;   // pos: values pushed so far; the function ends when it has received n (n >= 1)
    It it[2]; bool has[2], fresh[2];

    void expect_push( Push & c, int v, int k, bool threw, const char * what, int itx) {
        // after pushing k values, the last being v
        (void) c;
        ++n_checks;
        for ( int i = 0; i < 2; ++i) fresh[i] = false;
        pos += k;
        observe( mix( pos, v));
        if ( got != pos) fail( ITEROUT, "%s resumed the coroutine %d times instead of %d", what, got - pos + k, k);
        if ( k && last != v) { fail( ITEROUT, "%s: the function received %d instead of %d", what, last, v); fail( VALUE, "%s: the function received %d instead of %d", what, last, v); }
        bool end = pos >= n;
        if ( ! inner && end) {
            over = true;
            if ( threw != ( ending == 1)) fail( ITEROUT, "%s: %s", what, threw ? "unexpected exception" : "the exception of the function was not reported");
        } else if ( threw) fail( ITEROUT, "%s: unexpected exception", what);
        if ( itx >= 0) { if ( threw) has[itx] = false; else fresh[itx] = true; }
    }
    void check( Push & c) {
        ++n_checks;
        if ( static_cast< bool >( c) != ! over) fail( BOOLV, "push_type is %s after %d of %d values", c ? "valid" : "invalid", pos, n);
        for ( int k = 0; k < 2; ++k) if ( has[k] && fresh[k]) {
            ++n_checks;
            It e = boost::coroutines2::detail::end( c);
            bool e1 = it[k] == e, e2 = it[k] == It(), e3 = ! ( it[k] != e), e4 = e == it[k];
            if ( e1 != e2 || e1 != e3 || e1 != e4) fail( ITEROUT, "comparisons with end() contradict each other");
            if ( e1 != over) fail( ITEROUT, "output iterator equals end() is %d although the coroutine is %s", (int) e1, over ? "complete" : "not complete");
            observe( e1);
        }
        if ( got != pos) fail( ITEROUT, "the coroutine was resumed without an assignment");
        state( mix( mix( pos, over), mix( mix( n, ending), has[0] + 2 * has[1] + 4 * fresh[0] + 8 * fresh[1] + 16 * inner)));
    }
    // assignment in one of the usual forms
    template< class V > void assign( It & i, int how, V && v) {
        It * r = 0;
        switch ( how) {
        case 0: r = & ( * i = std::forward< V >( v)); break;
        case 1: r = & ( i = std::forward< V >( v)); break;
        case 2: r = & ( * ++i = std::forward< V >( v)); break;
        default: * i = std::forward< V >( v); r = & ++i; break;
        }
        if ( r != & i) fail( ITEROUT, "assignment does not return the iterator");
    }
    void put( It & i, int how, bool lv, int v, std::true_type /*ref*/) { (void) lv; assign( i, how, AA::val( v)); }
    void put( It & i, int how, bool lv, int v, std::false_type) { put2( i, how, lv, v, std::integral_constant< bool, AA::moveonly >()); }
    void put2( It & i, int how, bool, int v, std::true_type) { assign( i, how, AA::val( v)); }
    void put2( It & i, int how, bool lv, int v, std::false_type) {
        if ( ! lv) {
            unsigned long c0 = W.copies;
            assign( i, how, AA::val( v));
            ++n_checks;
            if ( AA::tracked && W.copies != c0) fail( COPYMOVE, "an rvalue assigned through an output iterator was copied");
            return;
        }
        typename AA::E x( AA::val( v));
        assign( i, how, x);
        ++n_checks;
        if ( AA::id( x) != v) fail( COPYMOVE, "an lvalue assigned through an output iterator was changed");
    }
    void fail_put( It & i, int lv, int v, int &, std::integral_constant< int, 0 >) {
        typename AA::E x( AA::val( v));
        if ( lv) { W.inject = 1; * i = x; } else { W.inject = 1; * i = std::move( x); }
    }
    void fail_put( It & i, int, int v, int &, std::integral_constant< int, 1 >) { typename AA::E x( AA::val( v)); W.inject = 1; * i = std::move( x); }
    void fail_put( It &, int, int, int &, std::integral_constant< int, 2 >) {}
    void ops( Push & c) {
        check( c);
        for ( int d = 0; d < depth; ++d) {
            struct O { int code, a, b; } o[80]; int m = 0;
            auto add = [&]( int code, int a = 0, int b = 0) { O x = { code, a, b }; o[m++] = x; };
            add( 0);
            for ( int k = 0; k < 2; ++k) {
                for ( int w = 0; w < 2; ++w) if ( k == 0 || w == 0) add( 1, k, w);
                if ( has[k]) {
                    add( 2, k); add( 3, k);
                    if ( ! over) { for ( int h = 0; h < 8; ++h) add( 4, k, h); for ( int al = 0; al < 6; ++al) if ( n - pos >= 1) add( 5, k, al); }
                    add( 6, k);
                }
            }
            if ( ! over) { add( 7); if ( AA::tracked && ! AA::ref) for ( int k = 0; k < 2; ++k) if ( has[k]) { add( 8, k, 0); if ( ! AA::moveonly) add( 8, k, 1); } }
            O x = o[choose( m)];
            transition( mix( mix( pos, over), has[0] + 2 * has[1]), mix( x.code, mix( x.a, x.b)));
            observe( mix( x.code, mix( x.a, x.b)));
            if ( x.code) note( "  op %d %d %d after value %d%s", x.code, x.a, x.b, pos, over ? " (over)" : "");
            bool threw = false; int v = pos + 1;
            switch ( x.code) {
            case 0: return;
            case 1: if ( x.b == 0) it[x.a] = boost::coroutines2::detail::begin( c); else it[x.a] = It( & c); has[x.a] = true; fresh[x.a] = true; break;
            case 2: { It & r = * it[x.a]; ++n_checks; if ( & r != & it[x.a]) fail( ITEROUT, "*it is not the iterator itself"); break; }
            case 3: { It & r = ++it[x.a]; ++n_checks; if ( & r != & it[x.a]) fail( ITEROUT, "++it does not return the iterator"); break; }
            case 4: try { put( it[x.a], x.b % 4, x.b >= 4, v, std::integral_constant< bool, AA::ref >()); } catch ( Boom const&) { threw = true; } expect_push( c, v, 1, threw, "assigning through the iterator", x.a); break;
            case 5: { int k = std::min( n - pos, 1 + x.b % 3); try { algo( it[x.a], x.b, k); } catch ( Boom const&) { threw = true; } expect_push( c, pos + k, k, threw, "an algorithm", threw ? x.a : x.a); if ( ! threw) fresh[x.a] = false; break; }
            case 6: { it[1 - x.a] = It( it[x.a]); has[1 - x.a] = true; fresh[1 - x.a] = fresh[x.a]; ++n_checks; if ( ! ( it[0] == it[1]) || it[0] != it[1]) fail( ITEROUT, "a copied iterator does not equal the original"); break; }
            case 7: try { AA::push( c, v); } catch ( Boom const&) { threw = true; } expect_push( c, v, 1, threw, "operator()", -1); break;
            case 8: {       // copying or moving the assigned value fails
                bool inj = false; int g0 = got, st = 0;
                try { fail_put( it[x.a], x.b, v, st, std::integral_constant< int, AA::ref ? 2 : AA::moveonly ? 1 : 0 >()); } catch ( InjectExc const&) { inj = true; } catch ( Boom const&) { threw = true; }
                W.inject = 0;
                relevant( R_FAIL);
                ++n_checks;
                if ( ! inj || threw) fail( ITEROUT, "assigning a value whose copy fails: %s", threw ? "another exception" : "no exception");
                if ( got != g0) fail( ITEROUT, "the coroutine was resumed by an assignment that failed");
                break;
            }
            }
            check( c);
        }
    }
    void algo( It & i, int al, int k) { algo_( i, al, k, std::integral_constant< int, AA::ref ? 2 : AA::moveonly ? 1 : 0 >()); }
    void algo_( It & i, int al, int k, std::integral_constant< int, 0 >) {
        std::vector< typename AA::E > v; for ( int j = 1; j <= k; ++j) v.push_back( AA::val( pos + j));
        int q = pos;
        switch ( al) {
        case 0: case 1: case 2: i = std::copy( v.begin(), v.end(), i); break;
        case 3: i = std::transform( v.begin(), v.end(), i, []( typename AA::E const& x) { return x; }); break;
        case 4: i = std::copy_if( v.begin(), v.end(), i, []( typename AA::E const&) { return true; }); break;
        case 5: for ( int j = 0; j < k; ++j) * i = AA::val( ++q); break;
        }
    }
    void algo_( It & i, int al, int k, std::integral_constant< int, 1 >) {
        std::vector< typename AA::E > v; v.reserve( k); for ( int j = 1; j <= k; ++j) v.push_back( AA::val( pos + j));
        if ( al % 2) i = std::move( v.begin(), v.end(), i); else for ( auto & x : v) { * i = std::move( x); ++i; }
    }
    void algo_( It & i, int al, int k, std::integral_constant< int, 2 >) {
        if ( al % 2) { for ( int j = 1; j <= k; ++j) { * i = AA::val( pos + j); ++i; } }
        else { Trk * b[4]; for ( int j = 1; j <= k; ++j) b[j - 1] = pool_[pos + j]; struct D { Trk ** p; Trk & operator*() const { return ** p; } D & operator++() { ++p; return * this; } bool operator!=( D o) const { return p != o.p; } }; for ( D d = { b }, e = { b + k }; d != e; ++d) { * i = * d; ++i; } }
    }
    void run() {
        Pool p;
        n = 1 + choose( N); ending = choose( 2); pos = got = 0; last = 0; over = false; has[0] = has[1] = fresh[0] = fresh[1] = false;
        note( "%s, the function takes %d values, then %s", inner ? "inside a pull_type's function" : "push_type", n, ending ? "throws" : "returns");
        if ( ! inner) {
            Push c( Alloc( 1), [&]( Pull & s) { for ( int i = 1; i <= n; ++i) { ++got; last = AA::id( * s.begin()); if ( i < n) s(); } if ( ending) throw Boom( n); });
            ops( c);
        } else {
            if ( ending) return;
            bool done = false;
            Pull c( Alloc( 1), [&]( Push & s) {
                // main reads each value as it arrives; the function checks on resumption
                ops( s); done = true;
            });
            while ( c) { ++got; last = AA::id( * c.begin()); c(); }
            ++n_checks;
            if ( ! done) fail( EXEC, "the function did not end");
        }
    }
};
template< class P > void add_out( const char * name) {
    for ( int inner = 0; inner < 2; ++inner) for ( int t = 0; t < 2; ++t) {
        int d = t ? 6 : 5, N = t ? 5 : 4;
        add_scenario( std::string( "iterout.") + ( inner ? "inner." : "owner.") + name + ( t ? ".deep" : ""), "sinks that take 1.." + std::to_string( N) + " values, ending by return or exception; every history of up to " + std::to_string( d) + " operations (2 ways of begin, *it, ++it, 8 forms of assignment, copies, operator(), failing copies, 6 algorithms)",
            [inner, d, N]() { mk_pool(); Out< P > o; o.depth = d; o.N = N; o.inner = inner; o.run(); }, t, 4);
    }
}
}
}
#endif
