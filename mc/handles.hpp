// Type-erased access to real coroutine objects of every direction and payload, through the public interface only.
#ifndef MC_HANDLES_HPP
#define MC_HANDLES_HPP
#include "world.hpp"
#include <boost/coroutine2/all.hpp>
#include <memory>

namespace mc {

enum Kind { PULL, PUSH };
enum Pay { P_VOID, P_INT, P_TRK, P_MOV, P_CPY, P_BIG, P_ALN, P_STR, P_PTR, P_TUP, P_REF, P_CREF, NPAY };
extern const char * const pay_name[NPAY];
enum PMode { PM_RV, PM_LV, PM_XV, PM_CLV, PM_N };           // how a value is pushed: temporary, lvalue, std::move(lvalue), const lvalue
extern const char * const pmode_name[PM_N];
enum RMode { RM_DEREF, RM_ARROW, RM_GET, RM_FREEBEGIN, RM_N };
enum { NREF = 3 };
extern Trk * refpool[NREF];                                  // the objects references are pushed of

struct PayInfo { bool movable, copyable, ref, tracked, reread; };   // reread: get() may be repeated
extern const PayInfo pay_info[NPAY];

// the push in flight, so that the source object can be inspected when control arrives elsewhere
struct Flight { const Core * src; int vid, mode, pay; unsigned long copies0; bool active; };
extern Flight flight;

struct IHandle {
    Kind kind; Pay pay;
    IHandle( Kind k, Pay p) : kind( k), pay( p) {}
    virtual ~IHandle() {}
    virtual bool valid() const = 0;
    virtual void resume() = 0;                    // pull: (); push<void>: ()
    virtual void push( int vid, int mode, int inject) = 0;
    virtual int read( int mode) = 0;
    virtual IHandle * move_new() = 0;
    virtual void assign( IHandle & o) = 0;
    virtual void swap( IHandle & o) = 0;
    virtual void toggle() {}                      // synthesized handles: move between parameter and a local
};
typedef IHandle * ( * CreateFn)( int amode, int fmode, int aid, int k);
struct BodySelf;
void run_body( int k, IHandle & self);            // the machine's coroutine-function

template< class T > struct V;                     // value type operations
template<> struct V< int > { enum { id = P_INT }; static int mk( int v) { return v; } static int id_of( int const& x) { return x; } static const Core * core( int const&) { return 0; } static void adopt( int &) {} };
template< class C, int I > struct VC { enum { id = I }; static C mk( int v) { return C( v); } static int id_of( C const& x) { return x.get(); } static const Core * core( C const& x) { return & x; } static void adopt( C & x) { x.adopt(); } };
template<> struct V< Trk > : VC< Trk, P_TRK > {};
template<> struct V< Mov > : VC< Mov, P_MOV > {};
template<> struct V< Cpy > : VC< Cpy, P_CPY > {};
template<> struct V< Big > : VC< Big, P_BIG > {};
template<> struct V< Aln > : VC< Aln, P_ALN > {};
template<> struct V< std::string > {
    enum { id = P_STR };
    static std::string mk( int v) { return std::string( v % 2 ? 3 : 40, 'a' + v % 26) + std::to_string( v); }
    static int id_of( std::string const& s) { for ( int n = v_digits( s); n > 0; --n) { int v = atoi( s.c_str() + s.size() - n); if ( mk( v) == s) return v; } return -1; }
    static int v_digits( std::string const& s) { int n = 0; while ( n < (int) s.size() && s[s.size() - 1 - n] >= '0' && s[s.size() - 1 - n] <= '9') ++n; return n; }
    static const Core * core( std::string const&) { return 0; } static void adopt( std::string &) {}
};
template<> struct V< Core * > {
    enum { id = P_PTR };
    static Core * mk( int v) { return reinterpret_cast< Core * >( static_cast< std::uintptr_t >( v) * 64); }
    static int id_of( Core * const& p) { return static_cast< int >( reinterpret_cast< std::uintptr_t >( p) / 64); }
    static const Core * core( Core * const&) { return 0; } static void adopt( Core * &) {}
};
typedef std::tuple< int, Trk > Tup;
template<> struct V< Tup > {
    enum { id = P_TUP };
    static Tup mk( int v) { return Tup( v * 3, v); }
    static int id_of( Tup const& t) { int v = std::get< 1 >( t).get(); return v >= 0 && std::get< 0 >( t) != v * 3 ? -2 : v; }
    static const Core * core( Tup const& t) { return & std::get< 1 >( t); } static void adopt( Tup & t) { std::get< 1 >( t).adopt(); }
};

// ---- push operations
struct InjectGuard { InjectGuard( int n) { W.inject = n; } ~InjectGuard() { W.inject = 0; } };
inline void takeoff( const Core * src, int vid, int mode, int pay) {
    flight.src = src; flight.vid = vid; flight.mode = mode; flight.pay = pay; flight.copies0 = W.copies; flight.active = true;
}
void same_object( const void * a, const void * b);
template< class T, bool Copyable > struct LvPush { template< class H > static void go( H & h, T const& v, bool cst) { const void * r = cst ? & h( v) : & h( const_cast< T & >( v)); same_object( r, & h); } };
template< class T > struct LvPush< T, false > { template< class H > static void go( H &, T const&, bool) { fail( HARNESS, "lvalue push of a move-only type"); } };

template< class P > struct Pusher {
    template< class H > static void go( H & h, int vid, int mode, int inject) {
        typedef V< P > VV;
        if ( mode == PM_RV && ! inject) {
            takeoff( 0, vid, mode, VV::id);
            same_object( & h( VV::mk( vid)), & h);
            return;
        }
        P v( VV::mk( vid));
        VV::adopt( v);
        takeoff( VV::core( v), vid, mode, VV::id);
        if ( inject) {
            InjectGuard g( inject);
            bool lv = mode == PM_LV || mode == PM_CLV;
            try {
                if ( lv) LvPush< P, pay_copy< P >::value >::go( h, v, mode == PM_CLV);
                else h( std::move( v));
            } catch ( InjectExc const&) { ++n_checks; if ( lv && VV::id_of( v) != vid) fail( COPYMOVE, "an lvalue whose push failed was changed"); throw; }
            return;
        }
        if ( mode == PM_XV) { same_object( & h( std::move( v)), & h); }
        else {
            LvPush< P, pay_copy< P >::value >::go( h, v, mode == PM_CLV);
            ++n_checks;
            if ( VV::id_of( v) != vid) fail( COPYMOVE, "pushed lvalue was changed by the push (now %d, was %d)", VV::id_of( v), vid);
        }
    }
    template< class T > struct pay_copy { enum { value = ! std::is_same< T, Mov >::value }; };
};
template<> struct Pusher< void > { template< class H > static void go( H & h, int, int, int) { same_object( & h(), & h); } };
template<> struct Pusher< Trk & > { template< class H > static void go( H & h, int vid, int, int) { same_object( & h( * refpool[vid % NREF]), & h); } };
template<> struct Pusher< Trk const& > { template< class H > static void go( H & h, int vid, int, int) { same_object( & h( const_cast< Trk const& >( * refpool[vid % NREF])), & h); } };

template< class P > struct Reader {
    template< class H > static int go( H & h, int mode) {
        typedef V< P > VV;
        unsigned long c0 = W.copies, m0 = W.moves;
        if ( mode == RM_GET) {
            P v = h.get();
            VV::adopt( v);
            ++n_checks;
            if ( W.copies != c0 && ! std::is_same< P, Cpy >::value) fail( COPYMOVE, "get() copied the value");
            return VV::id_of( v);
        }
        int r;
        if ( mode == RM_DEREF) { typename H::iterator it = h.begin(); P & v = * it; r = VV::id_of( v); same_object( & v, & * it); }
        else if ( mode == RM_ARROW) { typename H::iterator it( & h); P * p = it.operator->(); r = VV::id_of( * p); same_object( p, & * it); }
        else { P & v = * boost::coroutines2::detail::begin( h); r = VV::id_of( v); }
        ++n_checks;
        if ( W.copies != c0 || W.moves != m0) fail( COPYMOVE, "looking at the value through an iterator copied or moved it");
        return r;
    }
};
template<> struct Reader< void > { template< class H > static int go( H &, int) { return 0; } };
inline int ref_index( const Trk * p) { for ( int i = 0; i < NREF; ++i) if ( p == refpool[i]) return i; return -1; }
template< class R > struct RefReader {
    template< class H > static int go( H & h, int mode) {
        unsigned long c0 = W.copies, m0 = W.moves;
        const Trk * p;
        if ( mode == RM_GET) { R r = h.get(); p = & r; }
        else if ( mode == RM_DEREF) { R r = * h.begin(); p = & r; }
        else if ( mode == RM_ARROW) p = h.begin().operator->();
        else p = & * boost::coroutines2::detail::begin( h);
        ++n_checks;
        if ( W.copies != c0 || W.moves != m0) fail( REFID, "receiving a reference copied or moved the object");
        int i = ref_index( p);
        if ( i >= 0) { p->check( "read"); ++p->mark; ++n_checks; if ( refpool[i]->mark != p->mark) fail( REFID, "a change through the received reference is not visible"); }
        return i;
    }
};
template<> struct Reader< Trk & > : RefReader< Trk & > {};
template<> struct Reader< Trk const& > : RefReader< Trk const& > {};

inline bool consistent( bool t, bool nt, bool ex) {
    ++n_checks;
    if ( t == nt) fail( BOOLV, "operator bool and operator! do not contradict each other (both %d)", (int) t);
    if ( ex != t) fail( BOOLV, "asking for validity twice gives two answers");
    return t;
}

template< class P > struct PayOf { enum { id = V< P >::id }; };
template<> struct PayOf< void > { enum { id = P_VOID }; };
template<> struct PayOf< Trk & > { enum { id = P_REF }; };
template<> struct PayOf< Trk const& > { enum { id = P_CREF }; };

template< class P, Kind K > struct HT;
template< class P > struct HT< P, PULL > { typedef typename boost::coroutines2::coroutine< P >::pull_type type; typedef typename boost::coroutines2::coroutine< P >::push_type other; };
template< class P > struct HT< P, PUSH > { typedef typename boost::coroutines2::coroutine< P >::push_type type; typedef typename boost::coroutines2::coroutine< P >::pull_type other; };
template< class P, Kind K > struct Op;
template< class P > struct Op< P, PULL > {
    template< class H > static void resume( H & h) { same_object( & h(), & h); }
    template< class H > static void push( H &, int, int, int) { fail( HARNESS, "push on a pull_type"); }
    template< class H > static int read( H & h, int m) { return Reader< P >::go( h, m); }
};
template< class P > struct Op< P, PUSH > {
    template< class H > static void resume( H &) { fail( HARNESS, "resume on a push_type"); }
    template< class H > static void push( H & h, int v, int m, int i) { Pusher< P >::go( h, v, m, i); }
    template< class H > static int read( H &, int) { fail( HARNESS, "read on a push_type"); return 0; }
};

// a coroutine object in a slot
template< class P, Kind K > struct Owned : IHandle {
    typedef typename HT< P, K >::type H;
    H h;
    explicit Owned( H && o) : IHandle( K, static_cast< Pay >( (int) PayOf< P >::id)), h( std::move( o)) {}
    template< class F > Owned( int, F && f) : IHandle( K, static_cast< Pay >( (int) PayOf< P >::id)), h( std::forward< F >( f)) {}
    template< class A, class F > Owned( int, A && a, F && f) : IHandle( K, static_cast< Pay >( (int) PayOf< P >::id)), h( std::forward< A >( a), std::forward< F >( f)) {}
    bool valid() const { return consistent( static_cast< bool >( h), ! h, h ? true : false); }
    void resume() { Op< P, K >::resume( h); }
    void push( int v, int m, int i) { Op< P, K >::push( h, v, m, i); }
    int read( int m) { return Op< P, K >::read( h, m); }
    IHandle * move_new() { return new Owned( std::move( h)); }
    void assign( IHandle & o) { H * r = & ( h = std::move( static_cast< Owned & >( o).h)); same_object( r, & h); }
    void swap( IHandle & o) { using std::swap; swap( h, static_cast< Owned & >( o).h); }
};
// the counterpart object a coroutine-function receives
template< class P, Kind K > struct Synth : IHandle {
    typedef typename HT< P, K >::type H;
    H * p; H * param; alignas( H) unsigned char buf[sizeof( H)]; bool moved;
    explicit Synth( H & h) : IHandle( K, static_cast< Pay >( (int) PayOf< P >::id)), p( & h), param( & h), moved( false) {}
    ~Synth() { if ( moved) reinterpret_cast< H * >( & buf)->~H(); }
    bool valid() const { bool v = consistent( static_cast< bool >( * p), ! * p, * p ? true : false); if ( moved && p != param) { ++n_checks; if ( * param) fail( BOOLV, "moved-from counterpart object converts to true"); } return v; }
    void resume() { Op< P, K >::resume( * p); }
    void push( int v, int m, int i) { Op< P, K >::push( * p, v, m, i); }
    int read( int m) { return Op< P, K >::read( * p, m); }
    IHandle * move_new() { return 0; }
    void assign( IHandle &) {}
    void swap( IHandle &) {}
    void toggle() {
        if ( ! moved) { p = new ( & buf) H( std::move( * p)); moved = true; }
        else if ( p == param) { H * l = reinterpret_cast< H * >( & buf); * l = std::move( * p); p = l; }
        else { * param = std::move( * p); p = param; }
    }
};

template< class P, Kind K > struct Body {
    int k; Tok tok; int magic;
    explicit Body( int k_) : k( k_), tok( k_), magic( k_ * 7 + 13) {}
    void operator()( typename HT< P, K >::other & o) {
        ++n_checks;
        if ( magic != k * 7 + 13 || tok.k != k || tok.moved || ! tok.ok()) fail( FUNCTOR, "the coroutine-function does not have the state of the callable it was created from");
        Synth< P, K == PULL ? PUSH : PULL > s( o);
        run_body( k, s);
    }
};

struct TokFailGuard { TokFailGuard( int n) { W.tok_fail = n; } ~TokFailGuard() { W.tok_fail = 0; } };

enum { AM_DEFAULT, AM_LV, AM_RV }; enum { FM_RV, FM_LV, FM_CLV };
template< class P, Kind K, bool Full > struct Creator;
template< class P, Kind K > struct Creator< P, K, false > {
    static IHandle * go( int, int, int aid, int k) { return new Owned< P, K >( 0, Alloc( aid), Body< P, K >( k)); }
};
template< class P, Kind K > struct Creator< P, K, true > {
    static IHandle * go( int am, int fm, int aid, int k) {
        typedef Owned< P, K > O; typedef Body< P, K > B;
        int tf = W.tok_fail; W.tok_fail = 0;
        if ( fm == FM_RV) {
            IHandle * r;
            B b( k);
            { TokFailGuard g( tf);
            if ( am == AM_RV) r = new O( 0, Alloc( aid), std::move( b));
            else if ( am == AM_LV) { Alloc a( aid); r = new O( 0, a, std::move( b)); chk( a, aid); }
            else r = new O( 0, std::move( b)); }
            ++n_checks;
            if ( tok_copies_of( k)) fail( FUNCTOR, "a callable passed as rvalue was copied");
            return r;
        }
        B b( k); Alloc a( aid); IHandle * r;
        const B & cb = b;
        {
            TokFailGuard g( tf);
            if ( am == AM_RV) r = fm == FM_LV ? new O( 0, Alloc( aid), b) : new O( 0, Alloc( aid), cb);
            else if ( am == AM_LV) r = fm == FM_LV ? new O( 0, a, b) : new O( 0, a, cb);
            else r = fm == FM_LV ? new O( 0, b) : new O( 0, cb);
        }
        chk( a, aid);
        ++n_checks;
        if ( b.tok.moved || b.tok.k != k || b.magic != k * 7 + 13) fail( FUNCTOR, "a callable passed as lvalue was changed by constructing a coroutine from it");
        return r;
    }
    static void chk( Alloc const& a, int aid) { ++n_checks; if ( a.aid != aid) fail( STACK, "a stack allocator passed as lvalue was changed (moved from)"); }
};
template< class P, Kind K, bool Full > CreateFn creator_fn() { return & Creator< P, K, Full >::go; }
extern CreateFn creators[2][NPAY];
void register_a(); void register_b(); void register_c(); void register_d();
}
#endif
