// Scripts, each using coroutines of its own in five steps and logging everything it observes. Used alone and interleaved.
#ifndef MC_TASKS_HPP
#define MC_TASKS_HPP
#include "world.hpp"
#include <boost/coroutine2/all.hpp>
#include <functional>
#include <memory>
#include <string>
#include <vector>
namespace mc {
namespace {
namespace co = boost::coroutines2;
typedef std::vector< long > Log;
struct G { Log * l; long id; G( Log & x, long i) : l( & x), id( i) {} ~G() { l->push_back( id); } };
struct Task {
    Log log; int s;             // s: makes the values of different scripts different; not part of the log
    explicit Task( int salt) : s( salt) {}
    virtual ~Task() {}
    virtual void step( int i) = 0;      // 0..4; 4 destroys
    void put( long v) { log.push_back( v); if ( sched_point) sched_point(); }
    long base() const { return s * 1000L; }
    template< class F > void guarded( F f) { ExcInfo e = catching( f); if ( e.kind) { put( 90000 + e.kind); put( e.code - ( e.kind == X_APP || e.kind == X_STD || e.kind == X_INT ? base() : 0)); } }
};
template< class T > struct Vl { static T mk( long v) { return T( (int) v); } static long id( T const& t) { return t.get(); } };
template<> struct Vl< int > { static int mk( long v) { return (int) v; } static long id( int v) { return v; } };
template<> struct Vl< std::string > { static std::string mk( long v) { return std::string( 30, 'q') + std::to_string( v); } static long id( std::string const& v) { return v.size() > 30 ? atol( v.c_str() + 30) : -1; } };

template< class T > struct PullT : Task {
    typedef co::coroutine< T > C; std::unique_ptr< typename C::pull_type > p;
    PullT( int s) : Task( s) {}
    void fn( typename C::push_type & k) { G g( log, 501); for ( int i = 1; i < 4; ++i) { G h( log, 510 + i); put( 400 + i); k( Vl< T >::mk( base() + i)); } put( 409); }
    void step( int i) {
        guarded( [&]() {
            if ( i == 0) p.reset( new typename C::pull_type( Alloc( 1), [this]( typename C::push_type & k) { fn( k); }));
            else if ( i == 4) p.reset();
            else { put( Vl< T >::id( * p->begin()) - base()); ( * p)(); }
            if ( p) put( * p ? 1 : 0);
        });
    }
};
template< class T > struct PushT : Task {
    typedef co::coroutine< T > C; std::unique_ptr< typename C::push_type > p;
    PushT( int s) : Task( s) {}
    void fn( typename C::pull_type & k) { G g( log, 501); for ( int i = 1; i < 4; ++i) { G h( log, 510 + i); put( Vl< T >::id( k.get()) - base()); k(); put( 400 + i); } }
    void step( int i) {
        guarded( [&]() {
            if ( i == 0) p.reset( new typename C::push_type( Alloc( 1), [this]( typename C::pull_type & k) { fn( k); }));
            else if ( i == 4) p.reset();
            else { T t( Vl< T >::mk( base() + i)); ( * p)( t); put( Vl< T >::id( t) - base()); }
            if ( p) put( * p ? 1 : 0);
        });
    }
};
struct PullRef : Task {
    typedef co::coroutine< Trk & > C; std::unique_ptr< C::pull_type > p; Trk a, b;
    PullRef( int s) : Task( s), a( s * 10), b( s * 10 + 1) {}
    void step( int i) {
        guarded( [&]() {
            if ( i == 0) p.reset( new C::pull_type( Alloc( 1), [this]( C::push_type & k) { G g( log, 501); k( a); k( b); k( a); put( a.mark); }));
            else if ( i == 4) p.reset();
            else { Trk & r = p->get(); put( & r == & a ? 1 : & r == & b ? 2 : 3); if ( & r == & a || & r == & b) ++r.mark; ( * p)(); }
            if ( p) put( * p ? 1 : 0);
        });
    }
};
struct PushRef : Task {
    typedef co::coroutine< Trk const& > C; std::unique_ptr< C::push_type > p; Trk a, b;
    PushRef( int s) : Task( s), a( s * 10), b( s * 10 + 1) {}
    void step( int i) {
        guarded( [&]() {
            if ( i == 0) p.reset( new C::push_type( Alloc( 1), [this]( C::pull_type & k) { G g( log, 501); while ( k) { Trk const& r = * k.begin(); put( & r == & a ? 1 : & r == & b ? 2 : 3); k(); } }));
            else if ( i == 4) p.reset();
            else ( * p)( i == 2 ? b : a);
            if ( p) put( * p ? 1 : 0);
        });
    }
};
struct PullVoid : Task {
    typedef co::coroutine< void > C; std::unique_ptr< C::pull_type > p;
    PullVoid( int s) : Task( s) {}
    static void rec( Log & l, C::push_type & k, int d) { G g( l, 520 + d); k(); if ( d < 2) rec( l, k, d + 1); }
    void step( int i) {
        guarded( [&]() {
            if ( i == 0) p.reset( new C::pull_type( Alloc( 1), [this]( C::push_type & k) { rec( log, k, 0); }));
            else if ( i == 4) p.reset();
            else ( * p)();
            if ( p) put( * p ? 1 : 0);
        });
    }
};
struct PushVoid : Task {
    typedef co::coroutine< void > C; std::unique_ptr< C::push_type > p;
    PushVoid( int s) : Task( s) {}
    static void rec( Log & l, C::pull_type & k, int d) { G g( l, 520 + d); k(); if ( d < 2) rec( l, k, d + 1); }
    void step( int i) {
        guarded( [&]() {
            if ( i == 0) p.reset( new C::push_type( Alloc( 1), [this]( C::pull_type & k) { rec( log, k, 0); }));
            else if ( i == 4) p.reset();
            else ( * p)();
            if ( p) put( * p ? 1 : 0);
        });
    }
};
// functions that throw: at construction, at a resumption
struct ThrowPull : Task {
    typedef co::coroutine< int > C; std::unique_ptr< C::pull_type > p; int when;
    ThrowPull( int s, int w) : Task( s), when( w) {}
    void step( int i) {
        if ( i == 4) { p.reset(); return; }
        guarded( [&]() {
            if ( ! p) p.reset( new C::pull_type( Alloc( 1), [this]( C::push_type & k) { G g( log, 501); if ( when == 0) throw AppExc( (int) base() + 7); k( (int) base()); if ( when == 1) throw StdExc( (int) base() + 8); k( (int) base()); throw (int) base() + 9; }));
            else if ( * p) { put( p->get() - base()); ( * p)(); }
        });
        if ( p) put( * p ? 1 : 0);
    }
};
struct ThrowPush : Task {
    typedef co::coroutine< Trk > C; std::unique_ptr< C::push_type > p; int when;
    ThrowPush( int s, int w) : Task( s), when( w) {}
    void step( int i) {
        if ( i == 4) { p.reset(); return; }
        guarded( [&]() {
            if ( ! p) p.reset( new C::push_type( Alloc( 1), [this]( C::pull_type & k) { G g( log, 501); int n = 0; for (;;) { put( k.get().get() - base()); if ( n++ == when) throw AppExc( (int) base() + 7); k(); } }));
            else if ( * p) ( * p)( Trk( (int) base() + i));
        });
        if ( p) put( * p ? 1 : 0);
    }
};
// destroyed while suspended and built anew
struct Again : Task {
    typedef co::coroutine< int > C; std::unique_ptr< C::pull_type > p;
    Again( int s) : Task( s) {}
    void step( int i) {
        guarded( [&]() {
            if ( i & 1) { put( p->get() - base()); p.reset(); }
            else if ( i == 4) { p.reset(); }
            else p.reset( new C::pull_type( Alloc( 1), [this,i]( C::push_type & k) { G g( log, 501); k( (int) base() + i); k( 0); }));
        });
    }
};
// the function uses coroutines itself
struct Nested : Task {
    typedef co::coroutine< int > C; std::unique_ptr< C::pull_type > p;
    Nested( int s) : Task( s) {}
    void step( int i) {
        guarded( [&]() {
            if ( i == 0) p.reset( new C::pull_type( Alloc( 1), [this]( C::push_type & k) {
                G g( log, 501);
                C::pull_type in( Alloc( 2), [this]( C::push_type & k2) { G h( log, 502); for ( int j = 1; j < 6; ++j) k2( (int) base() + j); });
                C::push_type out( Alloc( 3), [this]( C::pull_type & s2) { G h( log, 503); while ( s2) { put( s2.get() - base() + 50); s2(); } });
                while ( in) { out( in.get()); k( in.get() * 2); in(); }
            }));
            else if ( i == 4) p.reset();
            else { put( p->get() - 2 * base()); ( * p)(); }
            if ( p) put( * p ? 1 : 0);
        });
    }
};
struct Mover : Task {
    typedef co::coroutine< Trk > C; std::unique_ptr< C::pull_type > p, q;
    Mover( int s) : Task( s) {}
    void step( int i) {
        guarded( [&]() {
            if ( i == 0) p.reset( new C::pull_type( Alloc( 1), [this]( C::push_type & k) { G g( log, 501); for ( int j = 1; j < 9; ++j) k( Trk( (int) base() + j)); }));
            else if ( i == 1) { q.reset( new C::pull_type( std::move( * p))); put( * p ? 1 : 0); ( * q)(); put( q->get().get() - base()); }
            else if ( i == 2) { * p = std::move( * q); put( * q ? 1 : 0); ( * p)(); put( p->get().get() - base()); }
            else if ( i == 3) { q.reset( new C::pull_type( Alloc( 4), [this]( C::push_type & k) { G g( log, 504); k( Trk( (int) base() + 70)); k( Trk( 0)); })); std::swap( * p, * q); put( p->get().get() - base()); ( * q)(); put( q->get().get() - base()); }
            else { p.reset(); put( 5); q.reset(); }
            if ( p) put( * p ? 1 : 0);
        });
    }
};
struct InIter : Task {
    typedef co::coroutine< std::string > C; std::unique_ptr< C::pull_type > p; C::pull_type::iterator it;
    InIter( int s) : Task( s) {}
    void step( int i) {
        guarded( [&]() {
            if ( i == 0) { p.reset( new C::pull_type( [this]( C::push_type & k) { G g( log, 501); for ( int j = 1; j < 3; ++j) k( Vl< std::string >::mk( base() + j)); })); it = begin( * p); }
            else if ( i == 4) { p.reset(); }
            else { put( it == end( * p)); if ( it != end( * p)) { put( Vl< std::string >::id( * it) - base()); ++it; } }
        });
    }
};
struct OutIter : Task {
    typedef co::coroutine< int > C; std::unique_ptr< C::push_type > p; C::push_type::iterator it;
    OutIter( int s) : Task( s) {}
    void step( int i) {
        guarded( [&]() {
            if ( i == 0) { p.reset( new C::push_type( [this]( C::pull_type & k) { G g( log, 501); for ( int v : k) put( v - base()); })); it = begin( * p); }
            else if ( i == 4) { p.reset(); }
            else { * it = (int) base() + i; ++it; put( it == end( * p)); }
        });
    }
};
// a transfer that fails
struct Failing : Task {
    typedef co::coroutine< Trk > C; std::unique_ptr< C::push_type > p;
    Failing( int s) : Task( s) {}
    void step( int i) {
        guarded( [&]() {
            if ( i == 0) p.reset( new C::push_type( Alloc( 1), [this]( C::pull_type & k) { G g( log, 501); while ( k) { put( k.get().get() - base()); k(); } }));
            else if ( i == 4) p.reset();
            else { Trk t( (int) base() + i); if ( i == 2) { W.inject = 1; } struct R { ~R() { W.inject = 0; } } r; ( * p)( t); }
            if ( p) put( * p ? 1 : 0);
        });
        if ( p) put( * p ? 1 : 0);
    }
};
struct NoStack : Task {
    typedef co::coroutine< void > C; std::unique_ptr< C::pull_type > p;
    NoStack( int s) : Task( s) {}
    void step( int i) {
        if ( i == 4) { p.reset(); return; }
        guarded( [&]() { if ( i == 0) W.fail_alloc = 1; struct R { ~R() { W.fail_alloc = 0; } } r; p.reset( new C::pull_type( Alloc( 1), [this]( C::push_type & k) { G g( log, 501); k(); })); });
        if ( p) put( * p ? 1 : 0);
    }
};
struct PushMv : Task {
    typedef co::coroutine< Mov > C; std::unique_ptr< C::push_type > p;
    PushMv( int s) : Task( s) {}
    void step( int i) {
        guarded( [&]() {
            if ( i == 0) p.reset( new C::push_type( Alloc( 1), [this]( C::pull_type & k) { G g( log, 501); while ( k) { G h( log, 502); Mov m( k.get()); m.adopt(); put( m.get() - base()); k(); } }));
            else if ( i == 4) p.reset();
            else { Mov t( (int) base() + i); ( * p)( std::move( t)); put( t.get()); }
            if ( p) put( * p ? 1 : 0);
        });
    }
};
// const references read through an iterator that lives as long as the script
struct InCref : Task {
    typedef co::coroutine< Trk const& > C; std::unique_ptr< C::pull_type > p; C::pull_type::iterator it; Trk a, b;
    InCref( int s) : Task( s), a( s * 10), b( s * 10 + 1) {}
    void step( int i) {
        guarded( [&]() {
            if ( i == 0) { p.reset( new C::pull_type( Alloc( 1), [this]( C::push_type & k) { G g( log, 501); k( a); k( b); })); it = p->begin(); }
            else if ( i == 4) { p.reset(); }
            else { put( it == p->end()); if ( it != p->end()) { Trk const& r = * it; put( & r == & a ? 1 : & r == & b ? 2 : 3); put( it->get() - s * 10); ++it; } }
        });
    }
};
// output iterator over objects; the function ends after two of them
struct OutTrk : Task {
    typedef co::coroutine< Trk > C; std::unique_ptr< C::push_type > p; C::push_type::iterator it;
    OutTrk( int s) : Task( s) {}
    void step( int i) {
        guarded( [&]() {
            if ( i == 0) { p.reset( new C::push_type( Alloc( 1), [this]( C::pull_type & k) { G g( log, 501); put( k.get().get() - base()); k(); put( k.get().get() - base()); })); it = begin( * p); }
            else if ( i == 4) { p.reset(); }
            else if ( it != end( * p)) { Trk t( (int) base() + i); * it = t; ++it; put( it == end( * p)); put( t.get() - base()); }
        });
    }
};
// stacks from an allocator that keeps them, shared by two coroutines
template< class Stack > struct OnStack : Task {
    typedef co::coroutine< int > C; Stack st; std::unique_ptr< C::pull_type > p; std::unique_ptr< C::push_type > q;
    OnStack( int s) : Task( s), st( 16 * 1024) {}
    void step( int i) {
        guarded( [&]() {
            if ( i == 0) p.reset( new C::pull_type( st, [this]( C::push_type & k) { G g( log, 501); for ( int j = 1; j < 9; ++j) k( (int) base() + j); }));
            else if ( i == 1) { q.reset( new C::push_type( st, [this]( C::pull_type & k) { G g( log, 502); while ( k) { put( k.get() - base()); k(); } })); ( * q)( p->get()); }
            else if ( i == 2) { ( * p)(); ( * q)( p->get()); }
            else if ( i == 3) { p.reset(); p.reset( new C::pull_type( st, [this]( C::push_type & k) { G g( log, 503); k( (int) base() + 70); })); ( * q)( p->get()); ( * p)(); }
            else { q.reset(); put( 5); p.reset(); }
            if ( p) put( * p ? 1 : 0);
        });
    }
};
// an exception travels through three levels, while another coroutine is destroyed by the unwinding
struct Through : Task {
    typedef co::coroutine< void > V; std::unique_ptr< V::push_type > p;
    Through( int s) : Task( s) {}
    void step( int i) {
        guarded( [&]() {
            if ( i == 0) p.reset( new V::push_type( Alloc( 1), [this]( V::pull_type & k) {
                G g( log, 501); k();
                V::pull_type in( Alloc( 2), [this]( V::push_type & k2) { G h( log, 502); k2(); put( 300); });
                V::push_type thr( Alloc( 3), [this]( V::pull_type & k2) { G h( log, 503); k2(); throw StdExc( (int) base() + 6); });
                thr(); k(); thr();
            }));
            else if ( i == 4) p.reset();
            else if ( * p) ( * p)();
        });
        if ( p) put( * p ? 1 : 0);
    }
};
enum { NT = 28 };
Task * make( int k, int s) {
    switch ( k) {
    case 0: return new PullT< int >( s); case 1: return new PushT< int >( s); case 2: return new PullT< Trk >( s); case 3: return new PushT< Trk >( s);
    case 4: return new PullRef( s); case 5: return new PushRef( s); case 6: return new PullVoid( s); case 7: return new PushVoid( s);
    case 8: return new ThrowPull( s, 0); case 9: return new ThrowPull( s, 1); case 10: return new ThrowPush( s, 1); case 11: return new Again( s); case 12: return new Nested( s);
    case 13: return new Mover( s); case 14: return new InIter( s); case 15: return new OutIter( s); case 16: return new Failing( s); case 17: return new NoStack( s);
    case 19: return new PullT< Mov >( s); case 20: return new PushMv( s); case 21: return new PullT< Big >( s); case 22: return new PushT< Aln >( s); case 23: return new InCref( s);
    case 24: return new OutTrk( s); case 25: return new OnStack< co::pooled_fixedsize_stack >( s); case 26: return new OnStack< co::protected_fixedsize_stack >( s); case 27: return new Through( s);
    default: return new PushT< std::string >( s);
    }
}
const char * const tname[NT] = { "pull<int>", "push<int>", "pull<Trk>", "push<Trk>", "pull<Trk&>", "push<Trk const&>", "pull<void>", "push<void>", "pull that throws at once", "pull that throws later", "push that throws", "destroyed and rebuilt pull",
    "pull that uses two coroutines", "pull that is moved and swapped", "input iterator", "output iterator", "push with failing copy", "pull whose allocation fails first", "push<string>", "pull<MoveOnly>", "push<MoveOnly>", "pull<Big>", "push<Align128>", "iterator over const references", "output iterator over objects", "two coroutines on pooled stacks", "two coroutines on protected stacks", "exception through three coroutines" };
std::vector< long > solo[NT]; bool have[NT];
std::string show( std::vector< long > const& l) { std::string r; for ( long v : l) r += ( r.empty() ? "" : " ") + std::to_string( v); return r; }


// observations of script k run alone
inline std::vector< long > const& alone( int k) {
    if ( ! have[k]) {
        std::unique_ptr< Task > x( make( k, 1));
        for ( int j = 0; j < 5; ++j) x->step( j);
        solo[k] = x->log; have[k] = true;
    }
    return solo[k];
}
}
}
#endif
