// Deep nestings, many coroutines at once and long repetitions: chains of up to 48 coroutines that resume each other, rings of up to 60
// coroutines, and everything the scripts of tasks.hpp observe after n repetitions of one kind of use.
#include "tasks.hpp"
#include <algorithm>
namespace mc {
namespace {
enum { NKIND = 6, MAXN = 64 };
const char * const kindn[NKIND] = { "pull<void>", "push<void>", "pull<Trk>", "push<Trk>", "pull<Trk&>", "push<Trk&>" };
enum Ev { ENTER = 1, BACK = 2, GONE = 3, CAUGHT = 4, THREW = 5, RETURNS = 6 };
enum End { E_DESTROY, E_RETURN, E_THROW, NEND };

struct Node {
    virtual ~Node() {}
    virtual long resume( long v) = 0;       // hands v to the function, returns what comes back
    virtual bool ok() const = 0;
    virtual void move() = 0;                // moves the coroutine object to another place
};
struct Chain;
Chain * G_;
struct Chain {
    int n, kind[MAXN], frames, target, catcher, end; bool local, armed;
    long arg[MAXN], res[MAXN];
    std::unique_ptr< Node > * slot[MAXN];           // where the coroutine of node i is owned, or null
    std::unique_ptr< Node > global[MAXN];
    std::vector< int > log;                         // event * 256 + node
    Trk * objs;
    void put( int e, int i) { log.push_back( e * 256 + i); note( "    %s %d", e == ENTER ? "enters" : e == BACK ? "is back in" : e == GONE ? "unwound:" : e == CAUGHT ? "caught in" : e == THREW ? "throws in" : "returns from", i); }
    // value that comes back from node i when it is given v
    long reply( int i, long v) const { return ( kind[i] & 1) ? 0 : v * 2 + i; }
};
struct Gd { int i; explicit Gd( int k) : i( k) {} ~Gd() { G_->put( GONE, i); } };
std::unique_ptr< Node > build( int kind, int i);
// one step of node i's function after it was given v; false: return now
bool work( int i, long v) {
    Chain & g = * G_;
    g.put( ENTER, i);
    if ( g.armed && g.end != E_DESTROY && i == g.target) {
        if ( g.end == E_THROW) { g.put( THREW, i); throw AppExc( 100 + i); }
        g.put( RETURNS, i); return false;
    }
    if ( i + 1 < g.n && g.slot[i + 1] && ( * g.slot[i + 1])->ok()) {
        long want = g.reply( i + 1, v + 1);
        if ( g.armed && g.catcher == i) {
            ExcInfo e = catching( [&]() { ( * g.slot[i + 1])->resume( v + 1); });
            if ( e.kind) { ++n_checks; if ( e.kind != X_APP || e.code != 100 + g.target) fail( EXC, "node %d catches kind %d code %d instead of the exception of node %d", i, e.kind, e.code, g.target); g.put( CAUGHT, i); }
        } else {
            long r = ( * g.slot[i + 1])->resume( v + 1);
            ++n_checks;
            if ( ( * g.slot[i + 1])->ok() && r != want) fail( VALUE, "node %d of %d got %ld from node %d instead of %ld", i, g.n, r, i + 1, want);
        }
        g.put( BACK, i);
    }
    return true;
}
// the function of node i: own frames, its child (if owned locally), then an endless loop of steps
template< class Step > void frames( int i, int d, Step const& step) {
    Gd a( i);
    volatile int canary = i * 1000 + d;
    if ( d > 1) frames( i, d - 1, step);
    else {
        std::unique_ptr< Node > child;
        if ( G_->local && i + 1 < G_->n) { child = build( G_->kind[i + 1], i + 1); G_->slot[i + 1] = & child; }
        struct R { int i; ~R() { if ( G_->local && i + 1 < G_->n) G_->slot[i + 1] = 0; } } r = { i}; (void) r;
        step();
    }
    ++n_checks;
    if ( canary != i * 1000 + d) fail( EXEC, "local variable of node %d changed", i);
}
template< int K > struct NodeK;
template<> struct NodeK< 0 > : Node {
    typedef co::coroutine< void > C; std::unique_ptr< C::pull_type > c; int i;
    explicit NodeK( int i_) : i( i_) { c.reset( new C::pull_type( Alloc( 1), [i_]( C::push_type & k) { frames( i_, G_->frames, [&]() { do { k(); } while ( work( i_, G_->arg[i_]) && ( G_->res[i_] = G_->reply( i_, G_->arg[i_]), true)); }); })); }
    long resume( long v) { G_->arg[i] = v; ( * c)(); return G_->res[i]; }
    bool ok() const { return static_cast< bool >( * c); }
    void move() { std::unique_ptr< C::pull_type > d( new C::pull_type( std::move( * c))); c.swap( d); }
};
template<> struct NodeK< 1 > : Node {
    typedef co::coroutine< void > C; std::unique_ptr< C::push_type > c; int i;
    explicit NodeK( int i_) : i( i_) { c.reset( new C::push_type( Alloc( 1), [i_]( C::pull_type & k) { frames( i_, G_->frames, [&]() { while ( work( i_, G_->arg[i_])) k(); }); })); }
    long resume( long v) { G_->arg[i] = v; ( * c)(); return 0; }
    bool ok() const { return static_cast< bool >( * c); }
    void move() { std::unique_ptr< C::push_type > d( new C::push_type( std::move( * c))); c.swap( d); }
};
template<> struct NodeK< 2 > : Node {
    typedef co::coroutine< Trk > C; std::unique_ptr< C::pull_type > c; int i;
    explicit NodeK( int i_) : i( i_) { c.reset( new C::pull_type( Alloc( 1), [i_]( C::push_type & k) { frames( i_, G_->frames, [&]() { k( Trk( -7)); while ( work( i_, G_->arg[i_])) { Trk t( (int) G_->reply( i_, G_->arg[i_])); k( t); } }); })); }
    long resume( long v) { G_->arg[i] = v; ( * c)(); return * c ? c->get().get() : -5; }
    bool ok() const { return static_cast< bool >( * c); }
    void move() { std::unique_ptr< C::pull_type > d( new C::pull_type( std::move( * c))); c.swap( d); }
};
template<> struct NodeK< 3 > : Node {
    typedef co::coroutine< Trk > C; std::unique_ptr< C::push_type > c; int i;
    explicit NodeK( int i_) : i( i_) { c.reset( new C::push_type( Alloc( 1), [i_]( C::pull_type & k) { frames( i_, G_->frames, [&]() { while ( work( i_, k.get().get())) k(); }); })); }
    long resume( long v) { ( * c)( Trk( (int) v)); return 0; }
    bool ok() const { return static_cast< bool >( * c); }
    void move() { std::unique_ptr< C::push_type > d( new C::push_type( std::move( * c))); c.swap( d); }
};
template<> struct NodeK< 4 > : Node {
    typedef co::coroutine< Trk & > C; std::unique_ptr< C::pull_type > c; int i;
    explicit NodeK( int i_) : i( i_) { c.reset( new C::pull_type( Alloc( 1), [i_]( C::push_type & k) { frames( i_, G_->frames, [&]() { Trk first( -7); k( first); while ( work( i_, G_->arg[i_])) { Trk t( (int) G_->reply( i_, G_->arg[i_])); k( t); if ( t.mark != 1) fail( REFID, "node %d: a change made through the reference got lost", i_); } }); })); }
    long resume( long v) { G_->arg[i] = v; ( * c)(); if ( ! * c) return -5; Trk & t = c->get(); t.mark = 1; return t.get(); }
    bool ok() const { return static_cast< bool >( * c); }
    void move() { std::unique_ptr< C::pull_type > d( new C::pull_type( std::move( * c))); c.swap( d); }
};
template<> struct NodeK< 5 > : Node {
    typedef co::coroutine< Trk & > C; std::unique_ptr< C::push_type > c; int i;
    explicit NodeK( int i_) : i( i_) { c.reset( new C::push_type( Alloc( 1), [i_]( C::pull_type & k) { frames( i_, G_->frames, [&]() { while ( work( i_, k.get().get())) { k.get().mark = 2; k(); } }); })); }
    long resume( long v) { Trk t( (int) v); ( * c)( t); ++n_checks; if ( * c && t.mark != 2) fail( REFID, "node %d: a change made through the reference got lost", i); return 0; }
    bool ok() const { return static_cast< bool >( * c); }
    void move() { std::unique_ptr< C::push_type > d( new C::push_type( std::move( * c))); c.swap( d); }
};
std::unique_ptr< Node > build( int kind, int i) {
    Node * n = 0;
    switch ( kind) { case 0: n = new NodeK< 0 >( i); break; case 1: n = new NodeK< 1 >( i); break; case 2: n = new NodeK< 2 >( i); break; case 3: n = new NodeK< 3 >( i); break; case 4: n = new NodeK< 4 >( i); break; default: n = new NodeK< 5 >( i); break; }
    return std::unique_ptr< Node >( n);
}
std::string evs( std::vector< int > const& l) {
    std::string r;
    for ( std::size_t j = 0; j < l.size() && j < 40; ++j) r += std::string( r.empty() ? "" : " ") + "?eb~c!r"[l[j] / 256] + std::to_string( l[j] % 256);
    return r;
}
void expect( std::vector< int > & want, Cat cat, const char * when) {
    ++n_checks;
    if ( G_->log != want) { fail( cat, "%s: the contexts ran as [%s] instead of [%s] (e: entered, b: back in, ~: unwound, !: throws, r: returns, c: caught)", when, evs( G_->log).c_str(), evs( want).c_str()); abandon(); }
    for ( int v : G_->log) observe( v);
    G_->log.clear(); want.clear();
}
void chain( std::vector< int > sizes, bool pairs) {
    static Chain * g = 0; delete g; g = new Chain(); G_ = g;
    struct Cl { ~Cl() { G_->log.clear(); } } cl; (void) cl;
    for ( int i = 0; i < MAXN; ++i) { g->slot[i] = 0; g->arg[i] = g->res[i] = 0; }
    W.stack_size = 16 * 1024;
#if defined(__SANITIZE_ADDRESS__)
    W.stack_size = 128 * 1024;
#endif
    int a = choose( NKIND), b = pairs ? choose( NKIND) : a;
    g->n = sizes[choose( (int) sizes.size())];
    g->local = choose( 2) != 0;
    g->frames = 1 + 2 * choose( 2);
    g->end = choose( NEND); g->target = -1; g->catcher = -1; g->armed = false;
    int order = 0;
    if ( g->end == E_DESTROY) order = g->local ? 0 : choose( 3);
    else { g->target = choose( g->n); if ( g->end == E_THROW) g->catcher = choose( g->target + 1) - 1; }
    // where main enters the chain in each of three rounds
    int n = g->n, entry[3] = { 0, 0, 0 };
    if ( ! g->local) { static const int num[] = { 0, 1, 2 }; for ( int r = 0; r < 3; ++r) entry[r] = r == 1 ? choose( 3) : 0; entry[1] = num[entry[1]] * ( n - 1) / 2; }
    for ( int i = 0; i < n; ++i) g->kind[i] = i & 1 ? b : a;
    note( "%d nodes (%s, %s), %s, %d frame(s) each; %s at node %d, caught by node %d; main enters at %d, %d, %d", n, kindn[a], kindn[b], g->local ? "each owned by the function before it" : "all owned by main", g->frames, g->end == E_DESTROY ? "destroyed" : g->end == E_RETURN ? "return" : "throw", g->target, g->catcher, entry[0], entry[1], entry[2]);
    std::vector< int > want;
    std::uint64_t h = mix( mix( a, b), mix( n, g->local * 16 + g->frames * 4 + g->end));
    state( h);
    // create
    if ( g->local) { g->global[0] = build( a, 0); g->slot[0] = & g->global[0]; }
    else for ( int i = n; i-- > 0;) { g->global[i] = build( g->kind[i], i); g->slot[i] = & g->global[i]; }
    expect( want, CONTROL, "creation");
    // which nodes exist and have entered their function: pulls of an existing function at once, pushes when first resumed
    bool exists[MAXN], entered[MAXN]; for ( int i = 0; i < n; ++i) exists[i] = entered[i] = false;
    struct L { static void born( Chain & c, bool * ex, bool * en, int i) { ex[i] = true; if ( ! ( c.kind[i] & 1)) enter( c, ex, en, i); }
        static void enter( Chain & c, bool * ex, bool * en, int i) { if ( en[i]) return; en[i] = true; if ( c.local && i + 1 < c.n) born( c, ex, en, i + 1); } };
    if ( g->local) L::born( * g, exists, entered, 0); else for ( int i = 0; i < n; ++i) L::born( * g, exists, entered, i);
    bool alive[MAXN]; for ( int i = 0; i < n; ++i) alive[i] = true;
    auto gone = [&]( int i) { for ( int f = 0; f < g->frames; ++f) want.push_back( GONE * 256 + i); };
    for ( int r = 0; r < 3; ++r) {
        int e0 = entry[r];
        if ( ! alive[e0]) continue;
        g->armed = r >= 1 ;
        long v = 10 * r + 3;
        note( "  round %d, main resumes node %d", r, e0);
        transition( mix( h, r), e0);
        if ( r == 1 && ! g->local) for ( int i = 0; i < n; ++i) if ( i % 3 == 1) g->global[i]->move();
        // prediction
        int last = e0; bool ends = false;
        for ( int i = e0;; ++i) {
            last = i; want.push_back( ENTER * 256 + i); L::enter( * g, exists, entered, i);
            if ( g->armed && i == g->target) { ends = true; break; }
            if ( i + 1 >= n || ! alive[i + 1]) break;
        }
        // what is destroyed when the function of node i ends: in local mode its child after its own frames' locals ... which are innermost first
        std::function< void( int) > destroy_node;                 // the coroutine object of node i is destroyed
        std::function< void( int) > fn_ends = [&]( int i) {       // locals of node i: child first (declared last), then the frames
            alive[i] = false;
            if ( g->local && i + 1 < n && exists[i + 1]) destroy_node( i + 1);
            gone( i);
        };
        destroy_node = [&]( int i) { exists[i] = false; if ( ! alive[i]) return; alive[i] = false; if ( entered[i]) { if ( g->local && i + 1 < n && exists[i + 1]) destroy_node( i + 1); gone( i); } };
        int up = last;
        int escapes = -2;
        if ( ends) {
            want.push_back( ( g->end == E_THROW ? THREW : RETURNS) * 256 + last);
            fn_ends( last);
            if ( g->end == E_THROW) {
                int i = last - 1;
                // every node between dies of the exception
                for ( ; i >= e0 && i != g->catcher; --i) fn_ends( i);
                if ( i >= e0) { want.push_back( CAUGHT * 256 + i); want.push_back( BACK * 256 + i); up = i; escapes = -2; }
                else { escapes = 1; up = e0; }
            } else if ( last > e0) { want.push_back( BACK * 256 + last - 1); up = last - 1; }
            else up = e0;
        }
        if ( escapes != 1) for ( int i = up - 1; i >= e0; --i) want.push_back( BACK * 256 + i);
        ExcInfo x = catching( [&]() { g->global[e0]->resume( v); });
        ++n_checks;
        if ( escapes == 1 ? ( x.kind != X_APP || x.code != 100 + g->target) : x.kind != X_NONE) fail( EXC, "main sees exception kind %d code %d, expected %s", x.kind, x.code, escapes == 1 ? "the one of the node that threw" : "none");
        x = ExcInfo();
        expect( want, CONTROL, "round");
        for ( int i = 0; i < n; ++i) {
            ++n_checks;
            bool have = g->slot[i] && * g->slot[i];
            if ( have != exists[i]) { if ( i == 0 || ! g->local) fail( HARNESS, "existence of node %d", i); }
            else if ( have && ( * g->slot[i])->ok() != alive[i]) fail( BOOLV, "node %d of %d converts to %d but its function %s", i, n, (int) ( * g->slot[i])->ok(), alive[i] ? "has not ended" : "has ended");
        }
    }
    // destruction
    auto dest = [&]( int i) {
        std::function< void( int) > d = [&]( int j) { bool was = alive[j]; alive[j] = false; exists[j] = false; if ( was && entered[j]) { if ( g->local && j + 1 < n && exists[j + 1]) d( j + 1); gone( j); } };
        if ( exists[i]) d( i);
        g->global[i].reset(); g->slot[i] = 0;
        expect( want, UNWIND, "destruction");
    };
    if ( g->local) dest( 0);
    else for ( int j = 0; j < n; ++j) dest( order == 0 ? j : order == 1 ? n - 1 - j : ( n / 2 + j) % n);
}
// many coroutines side by side, resumed round robin
void ring( std::vector< int > sizes) {
    static Chain * g = 0; delete g; g = new Chain(); G_ = g;
    for ( int i = 0; i < MAXN; ++i) { g->slot[i] = 0; g->arg[i] = g->res[i] = 0; }
    W.stack_size = 16 * 1024;
#if defined(__SANITIZE_ADDRESS__)
    W.stack_size = 128 * 1024;
#endif
    int a = choose( NKIND), b = choose( NKIND), n = sizes[choose( (int) sizes.size())];
    int ro = choose( 4), dorder = choose( 3), kill = choose( 3);
    g->n = 0; g->local = false; g->frames = 1; g->end = E_DESTROY; g->target = g->catcher = -1; g->armed = false;     // n = 0: nobody has a successor
    for ( int i = 0; i < n; ++i) { g->kind[i] = i & 1 ? b : a; }
    note( "%d coroutines (%s, %s), resumed in order %d, %s, destroyed in order %d", n, kindn[a], kindn[b], ro, kill == 0 ? "none ends" : kill == 1 ? "every third returns" : "every third throws", dorder);
    std::vector< int > want; bool alive[MAXN], entered[MAXN];
    state( mix( mix( a, b), mix( n, ro * 16 + dorder * 4 + kill)));
    for ( int i = 0; i < n; ++i) { g->global[i] = build( g->kind[i], i); g->slot[i] = & g->global[i]; alive[i] = true; entered[i] = ! ( g->kind[i] & 1); }
    expect( want, CONTROL, "creation");
    for ( int r = 0; r < 4; ++r) for ( int j = 0; j < n; ++j) {
        int i = ro == 0 ? j : ro == 1 ? n - 1 - j : ro == 2 ? ( j * 7) % n : ( j / 2 + ( j & 1) * n / 2) % n;
        if ( ! alive[i]) continue;
        transition( mix( r, i), mix( a, b));
        long v = r * 100 + i; entered[i] = true;
        want.push_back( ENTER * 256 + i);
        bool die = r == 2 && kill && i % 3 == 1;
        g->armed = die; g->end = kill == 1 ? E_RETURN : E_THROW; g->target = i;
        if ( die) { want.push_back( ( kill == 1 ? RETURNS : THREW) * 256 + i); want.push_back( GONE * 256 + i); alive[i] = false; }
        long got = 0;
        ExcInfo x = catching( [&]() { got = g->global[i]->resume( v); });
        n_checks += 3;
        if ( die && kill == 2 ? x.kind != X_APP || x.code != 100 + i : x.kind != X_NONE) fail( EXC, "resuming coroutine %d of %d ends with exception kind %d code %d", i, n, x.kind, x.code);
        x = ExcInfo();
        if ( ! die && got != g->reply( i, v)) fail( VALUE, "coroutine %d of %d delivers %ld instead of %ld", i, n, got, g->reply( i, v));
        expect( want, CONTROL, "resumption");
        for ( int q = 0; q < n; q += 1 + n / 8) if ( g->global[q]->ok() != alive[q]) fail( BOOLV, "coroutine %d of %d converts to %d", q, n, (int) ! alive[q]);
    }
    for ( int j = 0; j < n; ++j) {
        int i = dorder == 0 ? j : dorder == 1 ? n - 1 - j : ( j * 7) % n;
        if ( ! g->global[i]) { for ( i = 0; ! g->global[i]; ++i) {} }
        if ( alive[i] && entered[i]) want.push_back( GONE * 256 + i);
        g->global[i].reset(); g->slot[i] = 0;
        expect( want, UNWIND, "destruction");
    }
}
// ---- n repetitions of one use, then every script must observe what it observes in a fresh process
enum { NUSE = 22 };
const char * const usename[NUSE] = { "create and destroy suspended pull<void>", "create and destroy never called push<void>", "create, run to the end and destroy pull<Trk>", "create, run to the end and destroy push<Trk>", "pull<Trk&> suspended", "push<Trk&> run to the end",
    "constructor throws pull<Trk>", "resumption throws pull<void>", "push throws push<Trk>", "failing copy in push<Trk>", "failing copy in pull<Trk>", "move pull<Trk>", "move push<void>", "swap pull<Trk&>", "resume one pull<void>", "resume one push<void>", "resume one pull<Trk>", "resume one push<Trk>", "resume one pull<Trk&>", "resume one push<Trk&>", "iterate pull<int>", "write through iterator push<int>" };
template< class P, class F > struct One { P p; template< class Q > explicit One( Q && q) : p( Alloc( 1), std::forward< Q >( q)) {} };
void use( int u, long n) {
    typedef co::coroutine< void > V; typedef co::coroutine< Trk > T; typedef co::coroutine< Trk & > R; typedef co::coroutine< int > I;
    Trk o( 5); long seen = 0;
    auto chk = [&]( bool b) { ++n_checks; if ( ! b) { fail( INDEP, "use \"%s\" fails after some repetitions", usename[u]); abandon(); } };
    if ( u < 11) for ( long i = 0; i < n; ++i) {
        int k = (int) ( i & 0xffff);
        ExcInfo e = catching( [&]() { switch ( u) {
            case 0: { V::pull_type p( Alloc( 1), [&]( V::push_type & k2) { ++seen; k2(); ++seen; }); chk( !! p); break; }
            case 1: { V::push_type p( Alloc( 1), [&]( V::pull_type &) { seen += 2; }); chk( !! p); ++seen; break; }
            case 2: { T::pull_type p( Alloc( 1), [&]( T::push_type & k2) { ++seen; k2( Trk( k)); }); chk( p.get().get() == k); p(); chk( ! p); break; }
            case 3: { T::push_type p( Alloc( 1), [&]( T::pull_type & k2) { ++seen; chk( k2.get().get() == k); }); p( Trk( k)); chk( ! p); break; }
            case 4: { R::pull_type p( Alloc( 1), [&]( R::push_type & k2) { ++seen; k2( o); ++seen; }); chk( & p.get() == & o); break; }
            case 5: { R::push_type p( Alloc( 1), [&]( R::pull_type & k2) { ++seen; chk( & k2.get() == & o); }); p( o); chk( ! p); break; }
            case 6: { ++seen; T::pull_type p( Alloc( 1), [&]( T::push_type &) { throw AppExc( k); }); chk( false); break; }
            case 7: { ++seen; V::pull_type p( Alloc( 1), [&]( V::push_type & k2) { k2(); throw AppExc( k); }); p(); chk( false); break; }
            case 8: { ++seen; T::push_type p( Alloc( 1), [&]( T::pull_type &) { throw AppExc( k); }); p( o); chk( false); break; }
            case 9: { ++seen; T::push_type p( Alloc( 1), [&]( T::pull_type &) { }); W.inject = 1; p( o); chk( false); break; }
            default: { ++seen; T::pull_type p( Alloc( 1), [&]( T::push_type & k2) { W.inject = 1; k2( o); }); chk( false); break; }
        } });
        W.inject = 0;
        if ( u >= 6 && u <= 8) chk( e.kind == X_APP && e.code == k); else if ( u >= 9) chk( e.kind == X_INJ); else chk( e.kind == X_NONE);
        chk( seen == i + 1);
    } else switch ( u) {
        case 11: { T::pull_type p( Alloc( 1), [&]( T::push_type & k) { k( Trk( 1)); k( Trk( 2)); }); for ( long i = 0; i < n; ++i) { T::pull_type q( std::move( p)); chk( ! p && q); p = std::move( q); chk( p && ! q); } chk( p.get().get() == 1); p(); chk( p.get().get() == 2); p(); chk( ! p); break; }
        case 12: { V::push_type p( Alloc( 1), [&]( V::pull_type & k) { ++seen; k(); ++seen; }); for ( long i = 0; i < n; ++i) { V::push_type q( std::move( p)); chk( ! p && q); p = std::move( q); chk( p && ! q); } p(); chk( seen == 1); p(); chk( seen == 2 && ! p); break; }
        case 13: { Trk o2( 6); R::pull_type p( Alloc( 1), [&]( R::push_type & k) { k( o); k( o); }), q( Alloc( 2), [&]( R::push_type & k) { k( o2); }); for ( long i = 0; i < n; ++i) { std::swap( p, q); chk( & p.get() == ( i & 1 ? & o : & o2)); } if ( n & 1) std::swap( p, q); p(); q(); chk( p && ! q); break; }
        case 14: { V::pull_type p( Alloc( 1), [&]( V::push_type & k) { for ( long i = 0; i < n; ++i) { ++seen; k(); } }); for ( long i = 0; i < n; ++i) { chk( p && seen == i + 1); p(); } chk( ! p); break; }
        case 15: { V::push_type p( Alloc( 1), [&]( V::pull_type & k) { for ( long i = 0; i < n; ++i) { ++seen; k(); } }); for ( long i = 0; i < n; ++i) { chk( !! p); p(); chk( seen == i + 1); } break; }
        case 16: { T::pull_type p( Alloc( 1), [&]( T::push_type & k) { for ( long i = 0; i < n; ++i) { if ( i % 3) k( Trk( (int) i)); else { Trk t( (int) i); k( t); } } }); for ( long i = 0; i < n; ++i) { chk( p && p.get().get() == i); p(); } chk( ! p); break; }
        case 17: { T::push_type p( Alloc( 1), [&]( T::pull_type & k) { for ( long i = 0; i < n; ++i) { chk( k.get().get() == i); ++seen; k(); } }); for ( long i = 0; i < n; ++i) { chk( !! p); if ( i % 3) p( Trk( (int) i)); else { Trk t( (int) i); p( t); } chk( seen == i + 1); } break; }
        case 18: { Trk o2( 6); R::pull_type p( Alloc( 1), [&]( R::push_type & k) { for ( long i = 0; i < n; ++i) k( i % 3 ? o : o2); }); for ( long i = 0; i < n; ++i) { chk( p && & p.get() == ( i % 3 ? & o : & o2)); p(); } chk( ! p); break; }
        case 19: { Trk o2( 6); R::push_type p( Alloc( 1), [&]( R::pull_type & k) { for ( long i = 0; i < n; ++i) { chk( & k.get() == ( i % 3 ? & o : & o2)); ++seen; k(); } }); for ( long i = 0; i < n; ++i) { chk( !! p); p( i % 3 ? o : o2); chk( seen == i + 1); } break; }
        case 20: { I::pull_type p( Alloc( 1), [&]( I::push_type & k) { for ( long i = 0; i < n; ++i) k( (int) i); }); for ( int v : p) { chk( v == seen); ++seen; } chk( seen == n && ! p); break; }
        default: { I::push_type p( Alloc( 1), [&]( I::pull_type & k) { for ( int v : k) { chk( v == seen); ++seen; } }); auto it = begin( p); for ( long i = 0; i < n; ++i) { * it = (int) i; ++it; chk( seen == i + 1 && it != end( p)); } break; }
    }
    chk( W.nobj == 1 && W.live_stacks == 0 && W.ntok == 0 && W.live_exc == 0);
}
void repetitions( int lo, int hi, std::vector< long > ns) {
    for ( int i = 0; i < NT; ++i) alone( i);
    int u = lo + choose( hi - lo); long n = ns[choose( (int) ns.size())];
    // after very many repetitions: one execution with all scripts
    int t0 = n > 10000 ? 0 : choose( NT), t1 = n > 10000 ? NT - 1 : t0;
    note( "%ld x %s, then %s%s%s", n, usename[u], n > 10000 ? "every script" : "script \"", n > 10000 ? "" : tname[t0], n > 10000 ? "" : "\"");
    state( mix( u, n));
    use( u, n);
    for ( int t = t0; t <= t1; ++t) {
    transition( mix( u, n), t);
    std::unique_ptr< Task > x( make( t, 3));
    for ( int j = 0; j < 5; ++j) x->step( j);
    ++n_checks;
    if ( x->log != solo[t]) fail( INDEP, "script \"%s\" observes [%s] after %ld times \"%s\", but [%s] in a fresh process", tname[t], show( x->log).c_str(), n, usename[u], show( solo[t]).c_str());
    }
}

// ---- one coroutine suspended in many frames: recursion of any depth, suspensions on the way down, at the bottom, on the way up
struct Deep { int F, pattern, end, depth, steps, max; bool finished, broken; };
Deep * D_;
struct DG { int d; volatile long canary[4]; explicit DG( int x) : d( x) { for ( int i = 0; i < 4; ++i) canary[i] = x * 31L + i; ++D_->depth; if ( D_->depth != d) D_->broken = true; }
    ~DG() { if ( D_->depth != d) D_->broken = true; for ( int i = 0; i < 4; ++i) if ( canary[i] != d * 31L + i) D_->broken = true; --D_->depth; } };
template< class S > void __attribute__((noinline)) descend( int d, S const& suspend) {
    DG g( d);
    if ( D_->pattern & 1) suspend();
    if ( d < D_->F) descend( d + 1, suspend);
    else { suspend(); if ( D_->end == E_THROW) throw AppExc( d); }
    if ( D_->pattern & 2) suspend();
}
template< int K > struct DeepK;
#define SUSP_ ++D_->steps
template<> struct DeepK< 0 > { typedef co::coroutine< void > C; C::pull_type c; DeepK() : c( Alloc( 1), []( C::push_type & k) { descend( 1, [&k]() { SUSP_; k(); }); D_->finished = true; }) {} void go( int) { c(); } bool first() { return true; } };
template<> struct DeepK< 1 > { typedef co::coroutine< void > C; C::push_type c; DeepK() : c( Alloc( 1), []( C::pull_type & k) { descend( 1, [&k]() { SUSP_; k(); }); D_->finished = true; }) {} void go( int) { c(); } bool first() { return false; } };
template<> struct DeepK< 2 > { typedef co::coroutine< Trk > C; C::pull_type c; DeepK() : c( Alloc( 1), []( C::push_type & k) { descend( 1, [&k]() { SUSP_; Trk t( D_->steps); k( t); }); D_->finished = true; }) {} void go( int) { ++n_checks; if ( c.get().get() != D_->steps) fail( VALUE, "wrong value"); c(); } bool first() { return true; } };
template<> struct DeepK< 3 > { typedef co::coroutine< Trk > C; C::push_type c; DeepK() : c( Alloc( 1), []( C::pull_type & k) { descend( 1, [&k]() { ++n_checks; if ( k.get().get() != D_->steps) fail( VALUE, "wrong value"); SUSP_; k(); }); D_->finished = true; }) {} void go( int j) { c( Trk( j)); } bool first() { return false; } };
template<> struct DeepK< 4 > { typedef co::coroutine< int & > C; C::pull_type c; DeepK() : c( Alloc( 1), []( C::push_type & k) { descend( 1, [&k]() { SUSP_; int t( D_->steps); k( t); if ( t != -1) fail( REFID, "a change made through the reference got lost"); }); D_->finished = true; }) {} void go( int) { ++n_checks; if ( c.get() != D_->steps) fail( REFID, "wrong object"); c.get() = -1; c(); } bool first() { return true; } };
template<> struct DeepK< 5 > { typedef co::coroutine< int & > C; C::push_type c; DeepK() : c( Alloc( 1), []( C::pull_type & k) { descend( 1, [&k]() { ++n_checks; if ( k.get() != D_->steps) fail( REFID, "wrong object"); SUSP_; k(); }); D_->finished = true; }) {} void go( int j) { c( j); } bool first() { return false; } };
#undef SUSP_
// frames alive after s suspensions
int deep_at( Deep const& p, int s) {
    int down = p.pattern & 1 ? p.F : 0;
    if ( s <= down) return s;
    if ( s == down + 1) return p.F;
    return p.F - ( s - down - 2);
}
template< int K > void deep_run( std::vector< int > sizes) {
    static Deep p; D_ = & p;
    p.F = sizes[choose( (int) sizes.size())]; p.pattern = choose( 4); p.end = choose( NEND); p.depth = p.steps = 0; p.finished = p.broken = false;
    int total = 1 + ( p.pattern & 1 ? p.F : 0) + ( p.pattern & 2 && p.end != E_THROW ? p.F : 0);      // suspensions until the function ends
    int at = total;
    if ( p.end == E_DESTROY) { int c = choose( 5); at = c == 0 ? 1 : c == 1 ? ( total + 1) / 2 : c == 2 ? total : c == 3 ? std::max( 1, total - 1) : std::min( total, 2); }
    W.stack_size = 1024 * 1024;
    note( "%s, %d frames, suspends in %s, %s after %d suspensions", kindn[K], p.F, p.pattern == 0 ? "the last" : p.pattern == 1 ? "each on the way down" : p.pattern == 2 ? "each on the way up" : "each", p.end == E_DESTROY ? "destroyed" : p.end == E_RETURN ? "returns" : "throws", at);
    state( mix( mix( K, p.F), mix( p.pattern, p.end * 10000L + at)));
    ExcInfo e;
    {
        std::unique_ptr< DeepK< K > > h;
        e = catching( [&]() { h.reset( new DeepK< K >()); });
        bool first = h && h->first();
        int done = first ? 1 : 0;
        for ( ; h && ! e.kind; ) {
            n_checks += 3;
            transition( mix( K, done < 50 ? done : 50), p.pattern);
            bool over = done > total;
            if ( ( done || first) && ! over && ( p.steps != done || p.depth != ( done ? deep_at( p, done) : 0))) { fail( EXEC, "%d suspensions and %d frames, expected %d and %d", p.steps, p.depth, done, deep_at( p, done)); abandon(); }
            if ( static_cast< bool >( h->c) == over) { fail( BOOLV, "validity is %d after %d of %d suspensions", (int) static_cast< bool >( h->c), done, total); abandon(); }
            if ( over || ( p.end == E_DESTROY && done == at)) break;
            int d = done;
            e = catching( [&]() { h->go( d); });
            ++done;
        }
        n_checks += 4;
        if ( e.kind ? p.end != E_THROW || e.kind != X_APP || e.code != p.F : p.end == E_THROW) fail( EXC, "exception kind %d code %d", e.kind, e.code);
        if ( p.end == E_THROW && h && h->c) fail( BOOLV, "valid after the function threw");
        if ( p.finished != ( p.end == E_RETURN)) fail( EXEC, "the function %s its end", p.finished ? "reached" : "did not reach");
        if ( p.end != E_DESTROY && p.depth) fail( UNWIND, "%d frames are left after the function ended", p.depth);
        h.reset();
        e = ExcInfo();
    }
    n_checks += 3;
    if ( p.depth) fail( UNWIND, "%d frames are left after the coroutine was destroyed", p.depth);
    if ( p.broken) fail( UNWIND, "the frames were not destroyed intact and in reverse order");
    if ( p.finished && p.end != E_RETURN) fail( UNWIND, "the function went on while its coroutine was destroyed");
    observe( p.steps);
}
void deep( std::vector< int > sizes) {
    switch ( choose( NKIND)) { case 0: deep_run< 0 >( sizes); break; case 1: deep_run< 1 >( sizes); break; case 2: deep_run< 2 >( sizes); break; case 3: deep_run< 3 >( sizes); break; case 4: deep_run< 4 >( sizes); break; default: deep_run< 5 >( sizes); }
}
struct Reg { Reg() {
    world_hooks();
    std::vector< int > s1 = { 1, 2, 3, 4, 5, 9, 17 }, s2 = { 24, 32, 33, 48 }, all; for ( int i = 1; i <= 60; ++i) all.push_back( i);
    add_scenario( "chain.pairs", "chains of 1..17 coroutines alternating between two kinds, owned by main or by each other, 1 or 3 frames, three rounds entered anywhere; every node returns, throws (caught by every node above or main) or all are destroyed in 3 orders", [s1]() { chain( s1, true); }, 0, 4);
    add_scenario( "chain.long", "the same with 24..48 coroutines of one kind", [s2]() { chain( s2, false); }, 0, 4);
    add_scenario( "chain.all", "the same with every length 1..60 of one kind", [all]() { chain( all, false); }, 1, 4);
    add_scenario( "chain.allpairs", "the same with lengths 6..13, 32, 60 and two kinds", []() { chain( { 6, 7, 8, 10, 11, 13, 32, 60 }, true); }, 1, 4);
    add_scenario( "frames", "6 kinds, recursion to 1..8, 13, 33, 100, 333, 1000 frames with suspensions in the last one, on the way down, on the way up or both; returns, throws or is destroyed after 5 different suspensions", []() { deep( { 1, 2, 3, 4, 5, 6, 7, 8, 13, 33, 100, 333, 1000 }); }, 0, 2);
    add_scenario( "frames.all", "the same with every depth up to 300, and 2500", []() { std::vector< int > v; for ( int i = 1; i <= 300; ++i) v.push_back( i); v.push_back( 2500); deep( v); }, 1, 2);
    add_scenario( "ring", "1..60 coroutines of two kinds side by side, resumed in 4 orders, some ending, destroyed in 3 orders", []() { ring( { 1, 2, 3, 5, 8, 13, 16, 17, 33, 60 }); }, 0, 3);
    add_scenario( "ring.all", "every number 1..60 of coroutines side by side", [all]() { ring( all); }, 1, 3);
    static const struct { const char * n; int lo, hi; } grp[] = { { "life", 0, 6 }, { "throw", 6, 9 }, { "fail", 9, 11 }, { "move", 11, 14 }, { "resume", 14, 20 }, { "iter", 20, 22 } };
    for ( auto & q : grp) {
        int lo = q.lo, hi = q.hi;
        add_scenario( std::string( "repetitions.") + q.n, std::to_string( hi - lo) + " kinds of use repeated 1..10, 16, 17, 33, 100, 257, 1025, 66000 times, then each of 28 scripts", [lo,hi]() { repetitions( lo, hi, { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33, 100, 257, 1025, 66000 }); }, 0, 2);
        add_scenario( std::string( "repetitions.") + q.n + ".deep", std::to_string( hi - lo) + " kinds of use repeated 11..40, 255, 256, 511..513, 4097 times, then each of 28 scripts", [lo,hi]() { std::vector< long > v; for ( long i = 11; i <= 40; ++i) v.push_back( i); for ( long i : { 255L, 256L, 511L, 512L, 513L, 4097L }) v.push_back( i); repetitions( lo, hi, v); }, 1, 2);
    }
} } reg;
}
}
