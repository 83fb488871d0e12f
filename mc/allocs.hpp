// The offered stack allocators (C21, C11): allocator x stack size x coroutine type x every life cycle up to a depth.
#ifndef MC_ALLOCS_HPP
#define MC_ALLOCS_HPP
#include "world.hpp"
#include <boost/coroutine2/coroutine.hpp>
#include <boost/coroutine2/fixedsize_stack.hpp>
#include <boost/coroutine2/pooled_fixedsize_stack.hpp>
#include <boost/coroutine2/protected_fixedsize_stack.hpp>
#include <boost/context/stack_traits.hpp>
#include <memory>
#include <vector>
namespace mc { namespace al {
namespace co = boost::coroutines2;
enum Kind { FIXED, POOLED, PROTECTED, DEFAULT, NKIND };
extern const char * const kname[NKIND];
struct Rec { int kind; std::size_t size; int nsusp, ending; const char * frame; const char * heap; int entered, frames; bool use_all, overrun; };     // one coroutine
struct IC { virtual ~IC() {} virtual void resume() = 0; virtual bool valid() const = 0; virtual void move() = 0; virtual void assign( IC & o) = 0; };
void enter( Rec & r, const void * frame);     // called by every coroutine-function at its start
void consume( const char * frame, std::size_t n);
struct FG { Rec & r; explicit FG( Rec & x) : r( x) { ++r.frames; } ~FG() { --r.frames; } };
template< class S > void fn( Rec & r, S suspend) {
    FG g( r);
    enter( r, __builtin_frame_address( 0));
    for ( int i = 0; i < r.nsusp; ++i) suspend();
    if ( r.ending) throw AppExc( r.nsusp);
}
extern Trk * obj_;
template< class T > struct Io { template< class H > static void push( H & h) { h( T( 9)); } };
template<> struct Io< void > { template< class H > static void push( H & h) { h(); } };
template<> struct Io< Trk & > { template< class H > static void push( H & h) { h( * obj_); } };
template< class T, bool Pull > struct C;
template< class T > struct C< T, true > : IC {
    typedef typename co::coroutine< T >::pull_type H; typedef typename co::coroutine< T >::push_type O;
    struct F { Rec * r; void operator()( O & o) { Rec & x = * r; fn( x, [&o]() { Io< T >::push( o); }); } };
    std::unique_ptr< H > h;
    explicit C( Rec & r) { F f = { & r }; h.reset( new H( f)); }
    template< class A > C( A && a, Rec & r) { F f = { & r }; h.reset( new H( std::forward< A >( a), f)); }
    void resume() { ( * h)(); } bool valid() const { return static_cast< bool >( * h); } void move() { h.reset( new H( std::move( * h))); } void assign( IC & o) { * h = std::move( * static_cast< C & >( o).h); }
};
template< class T > struct C< T, false > : IC {
    typedef typename co::coroutine< T >::push_type H; typedef typename co::coroutine< T >::pull_type O;
    struct F { Rec * r; void operator()( O & o) { Rec & x = * r; fn( x, [&o]() { o(); }); } };
    std::unique_ptr< H > h;
    explicit C( Rec & r) { F f = { & r }; h.reset( new H( f)); }
    template< class A > C( A && a, Rec & r) { F f = { & r }; h.reset( new H( std::forward< A >( a), f)); }
    void resume() { Io< T >::push( * h); } bool valid() const { return static_cast< bool >( * h); } void move() { h.reset( new H( std::move( * h))); } void assign( IC & o) { * h = std::move( * static_cast< C & >( o).h); }
};
struct Allocs {         // the allocators of one execution
    co::fixedsize_stack fx; std::unique_ptr< co::pooled_fixedsize_stack > po; co::protected_fixedsize_stack pr; co::default_stack df;
    explicit Allocs( std::size_t n) : fx( n), pr( n) {}
};
typedef IC * ( * Mk)( Allocs &, int kind, std::size_t size, int rvalue, Rec &);
template< class T, bool Pull > IC * mk( Allocs & a, int kind, std::size_t size, int rv, Rec & r) {
    typedef C< T, Pull > X;
    switch ( kind) {
    case FIXED: return rv ? new X( co::fixedsize_stack( size), r) : new X( a.fx, r);
    case POOLED: { if ( ! a.po) a.po.reset( new co::pooled_fixedsize_stack( size, 2)); if ( rv) return new X( co::pooled_fixedsize_stack( * a.po), r); return new X( * a.po, r); }
    case PROTECTED: return rv ? new X( co::protected_fixedsize_stack( size), r) : new X( a.pr, r);
    default: return rv == 1 ? new X( r) : new X( a.df, r);
    }
}
struct TypeInfo { const char * name; bool pull; Mk mk; };
extern const TypeInfo types[6];
template< class T, bool Pull > IC * mk_( Allocs & a, int k, std::size_t n, int rv, Rec & r) { return mk< T, Pull >( a, k, n, rv, r); }
}}
#endif
