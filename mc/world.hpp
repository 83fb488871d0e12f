// Instrumented world the real code runs in: payload types whose every construction, access and destruction is
// monitored, an instrumented stack allocator, tokens captured by coroutine-functions, exception types.
#ifndef MC_WORLD_HPP
#define MC_WORLD_HPP
#include "explorer.hpp"
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <tuple>
#include <boost/context/stack_context.hpp>

namespace mc {

// ------------------------------------------------------------------ payload objects
struct Core;
struct World {
    // registry of living payload objects
    enum { MAXO = 512 };
    const Core * obj[MAXO]; int nobj;
    int nlib;                          // of those, created by the library (copied or moved into existence)
    unsigned long copies, moves;       // payload copy/move operations so far
    int inject;                        // >0: the inject-th payload copy/move from now throws
    // stacks
    enum { MAXS = 128 };
    struct Block { char * base; std::size_t size; bool live, used; int aid; unsigned serial; std::size_t top_off; std::size_t use; };
    Block blk[MAXS]; int nblk;
    int live_stacks; unsigned long allocs, deallocs; int last_blk;
    int fail_alloc;                    // >0: the next allocation throws
    std::size_t stack_size;
    // coroutine-function tokens
    enum { MAXT = 512 };
    const struct Tok * tok[MAXT]; int ntok;
    unsigned long tok_copies, tok_copies_k[64]; int tok_fail;
    // exceptions
    int live_exc;
    void reset();
};
extern World W;
extern void ( * sched_point)();                          // set: called wherever another thread may be scheduled
extern void ( * on_malloc)( void * p, std::size_t n);    // set: called for every block of memory that is handed out

struct InjectExc { int x; InjectExc() : x( 4711) { ++W.live_exc; } InjectExc( InjectExc const& o) : x( o.x) { ++W.live_exc; } ~InjectExc() { --W.live_exc; } };

struct Core {
    std::uint32_t magic; int vid; const Core * self; bool lib, moved; mutable int mark;
    enum { MAGIC = 0x600dc0deu, DEAD = 0xdeadbeefu };
    explicit Core( int v) : magic( 0), vid( v), self( this), lib( false), moved( false), mark( 0) { reg(); }
    Core( Core const& o) : magic( 0), vid( 0), self( this), lib( true), moved( false), mark( 0) {
        o.check( "copied from"); hit(); ++W.copies; vid = o.vid; moved = o.moved; mark = o.mark; reg();
    }
    Core( Core && o) : magic( 0), vid( 0), self( this), lib( true), moved( false), mark( 0) {
        o.check( "moved from"); hit(); ++W.moves; vid = o.vid; moved = o.moved; mark = o.mark; o.moved = true; reg();
    }
    Core & operator=( Core const& o) { check( "assigned to"); o.check( "copied from"); hit(); ++W.copies; vid = o.vid; moved = o.moved; return * this; }
    Core & operator=( Core && o) { check( "assigned to"); o.check( "moved from"); hit(); ++W.moves; vid = o.vid; moved = o.moved; if ( & o != this) o.moved = true; return * this; }
    ~Core() {
        check( "destroyed");
        if ( sched_point) sched_point();
        unreg();
        magic = DEAD; vid = -9; self = 0;
    }
    void hit() { if ( sched_point) sched_point(); if ( W.inject > 0 && --W.inject == 0) throw InjectExc(); }
    bool ok() const {
        if ( magic != MAGIC || self != this) return false;
        for ( int i = W.nobj - 1; i >= 0; --i) if ( W.obj[i] == this) return true;
        return false;
    }
    void check( const char * what) const {
        ++n_checks;
        if ( ! ok()) {
            fail( LIFE, "payload object %s that is not alive (never constructed, already destroyed or relocated bytewise)", what);
            abandon();
        }
    }
    void reg() {
        for ( int i = 0; i < W.nobj; ++i) if ( W.obj[i] == this) { fail( LIFE, "payload object constructed on top of a living one"); abandon(); }
        if ( W.nobj >= World::MAXO) { fail( LIFE, "payload objects pile up"); abandon(); }
        W.obj[W.nobj++] = this; magic = MAGIC; if ( lib) ++W.nlib;
    }
    void unreg() {
        for ( int i = W.nobj - 1; i >= 0; --i) if ( W.obj[i] == this) { W.obj[i] = W.obj[--W.nobj]; break; }
        if ( lib) --W.nlib;
    }
    void adopt() { if ( lib) { lib = false; --W.nlib; } }      // handed over to the user
    int get() const { check( "read"); return moved ? -1 : vid; }
};
struct Trk : Core { explicit Trk( int v = 0) : Core( v) {} };
struct Mov : Core { explicit Mov( int v = 0) : Core( v) {} Mov( Mov && o) : Core( std::move( o)) {} Mov( Mov const&) = delete; Mov & operator=( Mov const&) = delete; Mov & operator=( Mov && o) { Core::operator=( std::move( o)); return * this; } };
struct Cpy : Core { explicit Cpy( int v = 0) : Core( v) {} Cpy( Cpy const& o) : Core( o) {} Cpy & operator=( Cpy const& o) { Core::operator=( o); return * this; } };
struct Big : Core {
    unsigned char pad[3000];
    explicit Big( int v = 0) : Core( v) { for ( unsigned i = 0; i < sizeof pad; ++i) pad[i] = (unsigned char)( v * 31 + i * 7); }
    int get() const { int v = Core::get(); if ( v >= 0) for ( unsigned i = 0; i < sizeof pad; ++i) if ( pad[i] != (unsigned char)( v * 31 + i * 7)) return -1000 - (int) i; return v; }
};
struct alignas( 128) Aln : Core {
    explicit Aln( int v = 0) : Core( v) { al(); }
    Aln( Aln const& o) : Core( o) { al(); }
    Aln( Aln && o) : Core( std::move( o)) { al(); }
    Aln & operator=( Aln const& o) { Core::operator=( o); return * this; }
    Aln & operator=( Aln && o) { Core::operator=( std::move( o)); return * this; }
    void al() const { if ( lib && reinterpret_cast< std::uintptr_t >( this) % 128) fail( ALIGN, "payload object with alignment 128 at a misaligned address"); }
};

// ------------------------------------------------------------------ stack allocator
struct Alloc {
    typedef Alloc traits_type_;
    int aid;
    explicit Alloc( int id) : aid( id) {}
    Alloc( Alloc const& o) : aid( o.aid) {}
    Alloc( Alloc && o) noexcept : aid( o.aid) { o.aid = -1; }     // using a moved-from allocator is an error
    Alloc & operator=( Alloc const& o) { aid = o.aid; return * this; }
    Alloc & operator=( Alloc && o) noexcept { aid = o.aid; if ( & o != this) o.aid = -1; return * this; }
    boost::context::stack_context allocate();
    void deallocate( boost::context::stack_context & s);
};
struct AllocExc { int id; explicit AllocExc( int i) : id( i) { ++W.live_exc; } AllocExc( AllocExc const& o) : id( o.id) { ++W.live_exc; } ~AllocExc() { --W.live_exc; } };
int block_of( const void * p);          // index of the living stack containing p, or -1
void check_red_zones();
void release_blocks();                  // returns all memory (end of run)

// ------------------------------------------------------------------ captured state of coroutine-functions
struct TokExc { int x; TokExc() : x( 1) { ++W.live_exc; } TokExc( TokExc const&) : x( 1) { ++W.live_exc; } ~TokExc() { --W.live_exc; } };
struct Tok {
    std::uint32_t magic; int k; const Tok * self; bool lib, moved;
    explicit Tok( int k_) : magic( 0), k( k_), self( this), lib( false), moved( false) { reg(); }
    Tok( Tok const& o) : magic( 0), k( 0), self( this), lib( true), moved( false) {
        o.check( "copied from"); if ( W.tok_fail > 0 && --W.tok_fail == 0) throw TokExc(); ++W.tok_copies; k = o.k; ++W.tok_copies_k[k & 63]; moved = o.moved; reg();
    }
    Tok( Tok && o) noexcept : magic( 0), k( 0), self( this), lib( true), moved( false) {
        o.check( "moved from"); k = o.k; moved = o.moved; o.moved = true; reg();
    }
    Tok & operator=( Tok const& o) { o.check( "copied from"); ++W.tok_copies; k = o.k; moved = o.moved; return * this; }
    Tok & operator=( Tok && o) noexcept { o.check( "moved from"); k = o.k; moved = o.moved; if ( & o != this) o.moved = true; return * this; }
    ~Tok() { check( "destroyed"); for ( int i = W.ntok - 1; i >= 0; --i) if ( W.tok[i] == this) { W.tok[i] = W.tok[--W.ntok]; break; } magic = 0; self = 0; }
    bool ok() const {
        if ( magic != 0x70cef00du || self != this) return false;
        for ( int i = W.ntok - 1; i >= 0; --i) if ( W.tok[i] == this) return true;
        return false;
    }
    void check( const char * what) const { ++n_checks; if ( ! ok()) { fail( FUNCTOR, "callable %s that is not alive", what); abandon(); } }
    void reg() { if ( W.ntok >= World::MAXT) { fail( FUNCTOR, "callables pile up"); abandon(); } W.tok[W.ntok++] = this; magic = 0x70cef00du; }
};
int tok_live( int k);       // library-owned callables of coroutine k that exist
inline unsigned long tok_copies_of( int k) { return W.tok_copies_k[k & 63]; }
int tok_holding( int k);    // ... and have not been moved from

// ------------------------------------------------------------------ exceptions thrown by coroutine-functions
struct AppExc { int code; explicit AppExc( int c) : code( c) { ++W.live_exc; } AppExc( AppExc const& o) : code( o.code) { ++W.live_exc; } virtual ~AppExc() { --W.live_exc; } };
struct DerExc : AppExc { int extra; explicit DerExc( int c) : AppExc( c), extra( c * 3) {} };
struct StdExc : std::runtime_error { int code; explicit StdExc( int c) : std::runtime_error( "std" + std::to_string( c)), code( c) { ++W.live_exc; } StdExc( StdExc const& o) : std::runtime_error( o), code( o.code) { ++W.live_exc; } ~StdExc() noexcept { --W.live_exc; } };
enum { X_NONE, X_APP, X_DER, X_STD, X_INT, X_INJ, X_ALLOC, X_TOK, X_RT, X_PCH, X_BIG, NX };
struct BigExc { int code; unsigned char pad[1500]; explicit BigExc( int c) : code( c) { memset( pad, c & 255, sizeof pad); ++W.live_exc; } BigExc( BigExc const& o) : code( o.code) { memcpy( pad, o.pad, sizeof pad); ++W.live_exc; } ~BigExc() { --W.live_exc; } bool ok() const { for ( unsigned i = 0; i < sizeof pad; ++i) if ( pad[i] != ( code & 255)) return false; return true; } };
struct ExcInfo { int kind, code; std::exception_ptr ptr; ExcInfo() : kind( 0), code( 0) {} };
[[noreturn]] void throw_app( int kind, int code);

// runs f and reports which exception, if any, left it; nothing is done inside the handlers
template< class F > ExcInfo catching( F && f) {
    ExcInfo e;
    try { f(); }
    catch ( DerExc const& x) { e.kind = X_DER; e.code = x.extra == x.code * 3 ? x.code : -1; e.ptr = std::current_exception(); }
    catch ( AppExc const& x) { e.kind = X_APP; e.code = x.code; e.ptr = std::current_exception(); }
    catch ( StdExc const& x) { e.kind = X_STD; e.code = std::string( x.what()) == "std" + std::to_string( x.code) ? x.code : -1; e.ptr = std::current_exception(); }
    catch ( std::runtime_error const& x) { e.kind = X_RT; e.code = atoi( x.what()); e.ptr = std::current_exception(); }
    catch ( BigExc const& x) { e.kind = X_BIG; e.code = x.ok() ? x.code : -1; e.ptr = std::current_exception(); }
    catch ( InjectExc const& x) { e.kind = X_INJ; e.code = x.x; e.ptr = std::current_exception(); }
    catch ( AllocExc const& x) { e.kind = X_ALLOC; e.code = x.id; e.ptr = std::current_exception(); }
    catch ( TokExc const& x) { e.kind = X_TOK; e.code = x.x; e.ptr = std::current_exception(); }
    catch ( int x) { e.kind = X_INT; e.code = x; e.ptr = std::current_exception(); }
    catch ( const char * x) { e.kind = X_PCH; e.code = atoi( x); e.ptr = std::current_exception(); }
    return e;
}

long heap_outstanding();     // living malloc blocks (plain builds; 0 otherwise)
bool heap_tracked();         // the following work in this build
unsigned long heap_allocations();     // malloc calls of this thread
bool heap_block( const void * p, char ** base, std::size_t * n);     // the living malloc block (of 4096 bytes or more) containing p
void world_hooks();          // installs per-execution begin/end checks
}
#endif
