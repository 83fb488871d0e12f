// Callables (C10): every kind of callable x value category x allocator x life cycle of the coroutine x what the caller
// does with its own object afterwards.
#ifndef MC_FUNCTORS_HPP
#define MC_FUNCTORS_HPP
#include "world.hpp"
#include <boost/coroutine2/all.hpp>
#include <functional>
#include <memory>
#include <vector>
namespace mc { namespace fn {
namespace co = boost::coroutines2;
struct Script { int nsusp, ending, inv[4], frames, expect_frames; bool badstate; const void * at; Trk * obj; };
extern Script S;
enum { PULLK, PUSHK };
template< class P, int D > struct H_;
template< class P > struct H_< P, PULLK > { typedef typename co::coroutine< P >::pull_type own; typedef typename co::coroutine< P >::push_type oth; };
template< class P > struct H_< P, PUSHK > { typedef typename co::coroutine< P >::push_type own; typedef typename co::coroutine< P >::pull_type oth; };
template< class P > struct Push; 
template<> struct Push< void > { template< class H > static void go( H & h) { h(); } };
template<> struct Push< int > { template< class H > static void go( H & h) { h( 7); } };
template<> struct Push< Trk > { template< class H > static void go( H & h) { h( Trk( 7)); } };
template<> struct Push< Trk & > { template< class H > static void go( H & h) { h( * S.obj); } };
template< class P, int D > struct Ops;
template< class P > struct Ops< P, PULLK > { template< class H > static void resume( H & h) { h(); } template< class H > static void suspend( H & h) { Push< P >::go( h); } };
template< class P > struct Ops< P, PUSHK > { template< class H > static void resume( H & h) { Push< P >::go( h); } template< class H > static void suspend( H & h) { h(); } };

struct FrameGuard { FrameGuard() { ++S.frames; } ~FrameGuard() { --S.frames; } };
template< class P, int D > void body( typename H_< P, D >::oth & o, int k, bool ok) {
    FrameGuard g;
    ++n_checks;
    note( "    the function of callable %d is invoked%s", k, ok ? "" : " with wrong state");
    if ( k < 0 || k > 3) { S.badstate = true; k = 0; }
    if ( ! ok) S.badstate = true;
    ++S.inv[k];
    for ( int i = 0; i < S.nsusp; ++i) Ops< P, D >::suspend( o);
    if ( S.ending) throw AppExc( k);
}
// ---- kinds; with( k, r) builds a callable with state k and calls r( callable)
#define O_ typename H_< P, D >::oth
template< class P, int D > struct Copyable {
    Tok t; int a; std::vector< int > v;
    explicit Copyable( int k) : t( k), a( k * 7 + 1), v( 5, k) {}
    bool ok() const { return t.ok() && ! t.moved && a == t.k * 7 + 1 && v.size() == 5 && v[4] == t.k; }
    void operator()( O_ & o) { t.check( "invoked"); body< P, D >( o, t.k, ok()); a = -1; v.clear(); }      // the function may use up its state
    enum { copyable = 1, movable = 1, tracked = 1 };
    static const char * name() { return "functor"; }
    template< class R > static void with( int k, R & r) { r( Copyable( k)); }
};
template< class P, int D > struct ConstCall {
    Tok t; int a;
    explicit ConstCall( int k) : t( k), a( k) {}
    void operator()( O_ & o) const { t.check( "invoked"); body< P, D >( o, t.k, t.ok() && ! t.moved && a == t.k); }
    enum { copyable = 1, movable = 1, tracked = 1 };
    static const char * name() { return "const functor"; }
    template< class R > static void with( int k, R & r) { r( ConstCall( k)); }
};
template< class P, int D > struct MoveOnly {
    Tok t; std::unique_ptr< int > p;
    explicit MoveOnly( int k) : t( k), p( new int( k)) {}
    MoveOnly( MoveOnly && o) noexcept : t( std::move( o.t)), p( std::move( o.p)) {}
    void operator()( O_ & o) { t.check( "invoked"); body< P, D >( o, t.k, t.ok() && ! t.moved && p && * p == t.k); }
    enum { copyable = 0, movable = 1, tracked = 1 };
    static const char * name() { return "move-only functor"; }
    template< class R > static void with( int k, R & r) { r( MoveOnly( k)); }
};
template< class P, int D > struct CopyOnly {
    Tok t; int a;
    explicit CopyOnly( int k) : t( k), a( k) {}
    CopyOnly( CopyOnly const& o) : t( o.t), a( o.a) {}
    void operator()( O_ & o) { t.check( "invoked"); body< P, D >( o, t.k, t.ok() && ! t.moved && a == t.k); }
    enum { copyable = 1, movable = 0, tracked = 1 };
    static const char * name() { return "copy-only functor"; }
    template< class R > static void with( int k, R & r) { r( CopyOnly( k)); }
};
template< class P, int D > struct MayThrow {       // nothing may be copied only because the move constructor is not noexcept
    Tok t; int a;
    explicit MayThrow( int k) : t( k), a( k) {}
    MayThrow( MayThrow const& o) : t( o.t), a( o.a) {}
    MayThrow( MayThrow && o) noexcept( false) : t( std::move( o.t)), a( o.a) {}
    void operator()( O_ & o) { t.check( "invoked"); body< P, D >( o, t.k, t.ok() && ! t.moved && a == t.k); }
    enum { copyable = 1, movable = 1, tracked = 1 };
    static const char * name() { return "functor with a move constructor that is not noexcept"; }
    template< class R > static void with( int k, R & r) { r( MayThrow( k)); }
};
template< class P, int D > struct Qualified {      // invoked as a modifiable lvalue
    Tok t; int a;
    explicit Qualified( int k) : t( k), a( k) {}
    void operator()( O_ & o) & { t.check( "invoked"); body< P, D >( o, t.k, t.ok() && ! t.moved && a == t.k); a = -2; }
    void operator()( O_ &) const & { S.badstate = true; }
    enum { copyable = 1, movable = 1, tracked = 1 };
    static const char * name() { return "functor with overloads for const"; }
    template< class R > static void with( int k, R & r) { r( Qualified( k)); }
};
template< class P, int D > struct Large {
    Tok t; unsigned char c[5000];
    explicit Large( int k) : t( k) { for ( unsigned i = 0; i < sizeof c; ++i) c[i] = (unsigned char)( k * 17 + i * 3); }
    bool ok() const { for ( unsigned i = 0; i < sizeof c; ++i) if ( c[i] != (unsigned char)( t.k * 17 + i * 3)) return false; return t.ok() && ! t.moved; }
    void operator()( O_ & o) { t.check( "invoked"); body< P, D >( o, t.k, ok()); }
    enum { copyable = 1, movable = 1, tracked = 1 };
    static const char * name() { return "5000-byte functor"; }
    template< class R > static void with( int k, R & r) { r( Large( k)); }
};
template< class P, int D > struct alignas( 64) Aligned {
    Tok t; long a[8];
    explicit Aligned( int k) : t( k) { for ( long & x : a) x = k; }
    void operator()( O_ & o) { t.check( "invoked"); body< P, D >( o, t.k, t.ok() && ! t.moved && a[0] == t.k && a[7] == t.k && reinterpret_cast< std::uintptr_t >( this) % 64 == 0); }
    enum { copyable = 1, movable = 1, tracked = 1 };
    static const char * name() { return "functor aligned to 64"; }
    template< class R > static void with( int k, R & r) { r( Aligned( k)); }
};
template< class P, int D > struct Final final {
    Tok t;
    explicit Final( int k) : t( k) {}
    Final * operator&() const { return nullptr; }          // overloaded address-of, result type other than void
    template< class X > int operator()( X & o) { t.check( "invoked"); body< P, D >( o, t.k, t.ok() && ! t.moved); return 3; }
    enum { copyable = 1, movable = 1, tracked = 1 };
    static const char * name() { return "final generic functor with overloaded &"; }
    template< class R > static void with( int k, R & r) { r( Final( k)); }
};
template< class P, int D > struct Empty {
    void operator()( O_ & o) const { body< P, D >( o, 1, true); }
    enum { copyable = 1, movable = 1, tracked = 0 };
    static const char * name() { return "empty functor"; }
    template< class R > static void with( int, R & r) { r( Empty()); }
};
template< class P, int D > struct StdFun {
    enum { copyable = 1, movable = 1, tracked = 1 };
    static const char * name() { return "std::function"; }
    template< class R > static void with( int k, R & r) { r( std::function< void( O_ &) >( Copyable< P, D >( k))); }
};
template< class P, int D > struct Bind {
    static void call( O_ & o, Tok const& t, int a) { t.check( "invoked"); body< P, D >( o, t.k, t.ok() && ! t.moved && a == t.k); }
    enum { copyable = 1, movable = 1, tracked = 1 };
    static const char * name() { return "std::bind"; }
    template< class R > static void with( int k, R & r) { r( std::bind( & Bind::call, std::placeholders::_1, Tok( k), k)); }
};
template< class P, int D > struct Lambda {
    enum { copyable = 1, movable = 1, tracked = 1 };
    static const char * name() { return "mutable lambda"; }
    template< class R > static void with( int k, R & r) { Tok t( k); int a = k; r( [t,a]( O_ & o) mutable { t.check( "invoked"); body< P, D >( o, t.k, t.ok() && ! t.moved && a == t.k); a = 99; }); }
};
template< class P, int D > struct FnPtr {
    static void call( O_ & o) { body< P, D >( o, 1, true); }
    enum { copyable = 1, movable = 1, tracked = 0 };
    static const char * name() { return "function pointer"; }
    template< class R > static void with( int, R & r) { r( & FnPtr::call); }
};
template< class P, int D > struct RefWrap {
    enum { copyable = 1, movable = 1, tracked = 0 };
    static const char * name() { return "reference_wrapper"; }
    struct T { void operator()( O_ & o) { body< P, D >( o, 1, this == S.at); } };
    template< class R > static void with( int, R & r) { static T t; S.at = & t; r( std::ref( t)); }
};
#undef O_

enum { LV, CLV, RV };
template< class H, bool C > struct Build {
    template< class F > static H * go( F & f, int cat, int al, Alloc & a) {
        const F & cf = f;
        switch ( cat) {
        case LV: return al == 0 ? new H( f) : al == 1 ? new H( a, f) : new H( Alloc( 1), f);
        case CLV: return al == 0 ? new H( cf) : al == 1 ? new H( a, cf) : new H( Alloc( 1), cf);
        default: return Build< H, false >::go( f, cat, al, a);
        }
    }
};
template< class H > struct Build< H, false > {
    template< class F > static H * go( F & f, int, int al, Alloc & a) { return al == 0 ? new H( std::move( f)) : al == 1 ? new H( a, std::move( f)) : new H( Alloc( 1), std::move( f)); }
};
template< class P, int D, class K > struct Run {
    typedef typename H_< P, D >::own H;
    bool deep;      // hold(): unmoved callables, not counting the harness's own
    int base; int hold() { int n = - base; for ( int i = 0; i < W.ntok; ++i) if ( W.tok[i]->k == 1 && ! W.tok[i]->moved) ++n; return n; }
    static void bad( const char * w) { fail( FUNCTOR, "%s: %s", K::name(), w); }
    // one coroutine in the model
    struct Co { std::unique_ptr< H > h; int pos; bool done, dead; };    // pos: resumptions so far (pull: counting the constructor)
    template< class F > void operator()( F && f0) {
        typedef typename std::decay< F >::type T;
        Trk obj( 3); S.obj = & obj;
        base = 0; base = hold() - ( K::movable && K::tracked ? 1 : 0);
        std::unique_ptr< T > f( new T( std::move( f0)));
        int cat = K::copyable ? choose( 3) : 2, al = choose( 3);
        S.nsusp = choose( deep ? 4 : 3); S.ending = choose( 2); S.inv[0] = S.inv[1] = S.inv[2] = S.inv[3] = 0; S.frames = 0; S.badstate = false;
        int ncor = cat != RV ? 1 + choose( 2) : 1, keep = choose( 2);   // how many coroutines from one lvalue, caller keeps its object
        static const char * const cn[] = { "lvalue", "const lvalue", "rvalue" };
        note( "%s as %s, allocator %s, suspends %d times, then %s; %d coroutine(s); the caller %s its object", K::name(), cn[cat], al == 0 ? "default" : al == 1 ? "lvalue" : "rvalue", S.nsusp, S.ending ? "throws" : "returns", ncor, keep ? "keeps" : "destroys");
        Alloc a( 1);
        unsigned long c0 = tok_copies_of( 1);
        int h0 = hold(), st0 = W.live_stacks, entered = 0, exp_frames = 0;
        Co c[3];
        int tr0 = W.ntok;
        for ( int i = 0; i < ncor; ++i) {
            c[i].pos = 0; c[i].done = c[i].dead = false;
            bool ends = D == PULLK && S.nsusp == 0;
            ExcInfo e = catching( [&]() { c[i].h.reset( Build< H, K::copyable >::go( * f, cat, al, a)); });
            note( "  construct coroutine %d", i);
            ++n_checks;
            if ( D == PULLK) { ++entered; c[i].pos = 1; }
            if ( ends) { c[i].done = true; } else if ( D == PULLK) ++exp_frames;
            if ( ends && S.ending) { c[i].dead = true; if ( e.kind != X_APP) fail( EXC, "exception of the function did not leave the constructor"); }
            else if ( e.kind) fail( EXC, "constructor threw something (%d)", e.kind);
            if ( ! c[i].h && ! c[i].dead) return;
            if ( cat != RV && K::tracked && hold() < h0) bad( "the callable passed as lvalue was moved from");
            if ( cat == RV && K::movable && K::tracked && tok_copies_of( 1) != c0) bad( "a callable passed as rvalue was copied");
            if ( al == 1 && a.aid != 1) fail( STACK, "an allocator passed as lvalue was moved from");
            check( entered, exp_frames, st0, c, ncor);
            if ( cat != RV && K::tracked && K::movable && c[i].done && hold() != h0 + others( c, i)) bad( "the function has ended during construction but what its callable captured is not released (or released too much)");
        }
        if ( ! keep || cat == RV) f.reset();
        (void) tr0;
        // life cycle: every sequence of resume / move / destroy
        int steps = ncor > 1 ? ( deep ? 7 : 5) : S.nsusp + ( deep ? 4 : 3);
        for ( int s = 0; s < steps; ++s) {
            int n = 1; int opc[10], opi[10];
            for ( int i = 0; i < ncor; ++i) {
                if ( c[i].dead) continue;
                if ( ! c[i].done) { opc[n] = 1; opi[n++] = i; }
                opc[n] = 2; opi[n++] = i;
                if ( ! ( s & 1)) { opc[n] = 3; opi[n++] = i; }
            }
            int w = choose( n);
            if ( w == 0) break;
            int i = opi[w];
            ExcInfo e;
            bool ends = false;
            if ( opc[w] == 1) {
                note( "  resume coroutine %d", i);
                if ( D == PUSHK && c[i].pos == 0) { ++entered; ++exp_frames; }
                ends = c[i].pos == S.nsusp;
                if ( ends) { --exp_frames; c[i].done = true; }
                ++c[i].pos;
                e = catching( [&]() { Ops< P, D >::resume( * c[i].h); });
            } else if ( opc[w] == 2) {
                note( "  destroy coroutine %d", i);
                if ( ! c[i].done && c[i].pos) --exp_frames;
                c[i].dead = true; c[i].done = true;
                c[i].h.reset();
            } else {
                note( "  move coroutine %d", i);
                c[i].h.reset( new H( std::move( * c[i].h)));
            }
            ++n_checks;
            transition( mix( c[i].pos, c[i].done * 2 + c[i].dead), mix( opc[w], entered));
            if ( ends && S.ending) { if ( e.kind != X_APP || e.code != 1) fail( EXC, "exception of the function did not arrive"); }
            else if ( e.kind) fail( EXC, "an operation threw something (%d)", e.kind);
            check( entered, exp_frames, st0, c, ncor);
            if ( K::tracked) {
                int live = 0, ended = 0; for ( int j = 0; j < ncor; ++j) { if ( ! c[j].done) ++live; else if ( ! c[j].dead) ++ended; }
                int mine = keep && cat != RV ? h0 : 0;
                ++n_checks;
                if ( hold() > mine + live * maxper() + ( K::movable ? 0 : ended)) bad( "the function has ended or its coroutine was destroyed, but what it captured is not released");
                if ( hold() < mine) bad( "the caller's callable was changed");
            }
        }
        for ( int i = 0; i < ncor; ++i) c[i].h.reset();
        ++n_checks;
        if ( S.frames) fail( UNWIND, "%d frames of the functions still exist", S.frames);
        if ( K::tracked && ! ( keep && cat != RV) && hold()) bad( "captured state exists after all coroutines were destroyed");
        f.reset();
    }
    // a copy-only callable cannot be moved out of its storage, where it stays until the coroutine is destroyed
    int maxper() { return K::movable ? 1 : 2; }
    int others( Co * c, int i) { int n = 0; for ( int j = 0; j < i; ++j) if ( ! c[j].done) ++n; return n; }
    void check( int entered, int frames, int, Co * c, int ncor) {
        n_checks += 3;
        int inv = S.inv[1];
        if ( S.inv[0] || S.inv[2] || S.inv[3] || S.badstate) bad( "the invoked callable does not have the state it was given");
        if ( inv != entered) bad( inv > entered ? "the callable was invoked more than once, or too early" : "the callable was not invoked");
        if ( S.frames != frames) fail( UNWIND, "%d frames of coroutine-functions exist, expected %d", S.frames, frames);
        std::uint64_t h = mix( entered, frames);
        for ( int i = 0; i < ncor; ++i) if ( c[i].h) {
            bool v = static_cast< bool >( * c[i].h);
            // a value must be available in a pull_type
            if ( v != ! c[i].done) fail( BOOLV, "validity is %d, expected %d", v, ! c[i].done);
            h = mix( h, v + 2 * c[i].pos);
        }
        state( h); observe( h);
    }
};
template< class P, int D, template< class, int > class K > void add1( const char * pn) {
    for ( int t = 0; t < 2; ++t)
        add_scenario( std::string( "fn.") + ( D == PULLK ? "pull." : "push.") + pn + "." + K< P, D >::name() + ( t ? ".deep" : ""),
            std::string( "every value category, allocator category, up to ") + ( t ? "3" : "2") + " suspensions, return or throw, 1 or 2 coroutines from one lvalue, every history of resume/move/destroy up to " + ( t ? "7" : "5") + " operations", [t]() { Run< P, D, K< P, D > > r; r.deep = t; K< P, D >::with( 1, r); }, t, 5);
}
template< class P, int D > void add_all( const char * pn) {
    add1< P, D, Copyable >( pn); add1< P, D, ConstCall >( pn); add1< P, D, MoveOnly >( pn); add1< P, D, CopyOnly >( pn); add1< P, D, Large >( pn); add1< P, D, Aligned >( pn); add1< P, D, Final >( pn);
    add1< P, D, Empty >( pn); add1< P, D, StdFun >( pn); add1< P, D, Bind >( pn); add1< P, D, Lambda >( pn); add1< P, D, FnPtr >( pn); add1< P, D, RefWrap >( pn); add1< P, D, MayThrow >( pn); add1< P, D, Qualified >( pn);
}
}}
#endif
