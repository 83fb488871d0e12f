#include "world.hpp"
#include <cstdio>
#include <cstdlib>
#include <sys/mman.h>
#if defined(__SANITIZE_ADDRESS__)
# define MC_ASAN 1
#elif defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define MC_ASAN 1
# endif
#endif
#ifdef MC_ASAN
# include <sanitizer/asan_interface.h>
#endif
#if defined(__SANITIZE_THREAD__)
# define MC_TSAN 1
#endif

// ---- heap accounting: every malloc/free of the process is counted (plain builds)
static long g_out = 0;
namespace mc { void ( * on_malloc)( void * p, std::size_t n) = 0; }
static thread_local unsigned long g_mallocs = 0;
// large blocks (coroutine stacks from malloc) with their sizes
static struct BigB { char * p; std::size_t n; } g_bigs[256]; static volatile int g_big = 0; static volatile int g_lock = 0;
#if ! defined(MC_ASAN) && ! defined(MC_TSAN)
static void big_add( void * p, std::size_t n) {
    while ( __atomic_exchange_n( & g_lock, 1, __ATOMIC_ACQUIRE)) {}
    for ( int i = 0; i < 256; ++i) if ( ! g_bigs[i].p) { g_bigs[i].p = static_cast< char * >( p); g_bigs[i].n = n; if ( i >= g_big) g_big = i + 1; break; }
    __atomic_store_n( & g_lock, 0, __ATOMIC_RELEASE);
}
static void big_del( void * p) {
    while ( __atomic_exchange_n( & g_lock, 1, __ATOMIC_ACQUIRE)) {}
    for ( int i = 0; i < g_big; ++i) if ( g_bigs[i].p == p) { g_bigs[i].p = 0; while ( g_big && ! g_bigs[g_big - 1].p) --g_big; break; }
    __atomic_store_n( & g_lock, 0, __ATOMIC_RELEASE);
}
#endif
#if ! defined(MC_ASAN) && ! defined(MC_TSAN) && ! defined(MC_NO_HEAP)
extern "C" {
void * __libc_malloc( std::size_t); void __libc_free( void *); void * __libc_calloc( std::size_t, std::size_t); void * __libc_realloc( void *, std::size_t);
void * __libc_memalign( std::size_t, std::size_t);
void * malloc( std::size_t n) { void * p = __libc_malloc( n); if ( p) { __atomic_add_fetch( & g_out, 1, __ATOMIC_RELAXED); ++g_mallocs; if ( n >= 4096) big_add( p, n); if ( mc::on_malloc) mc::on_malloc( p, n); } return p; }
void free( void * p) { if ( p) { __atomic_sub_fetch( & g_out, 1, __ATOMIC_RELAXED); if ( g_big) big_del( p); } __libc_free( p); }
void * calloc( std::size_t a, std::size_t b) { void * p = __libc_calloc( a, b); if ( p) { __atomic_add_fetch( & g_out, 1, __ATOMIC_RELAXED); ++g_mallocs; if ( mc::on_malloc) mc::on_malloc( p, a * b); } return p; }
void * realloc( void * q, std::size_t n) { void * p = __libc_realloc( q, n); if ( p) { ++g_mallocs; if ( mc::on_malloc) mc::on_malloc( p, n); } if ( ! q && p) __atomic_add_fetch( & g_out, 1, __ATOMIC_RELAXED); if ( q && ! n) __atomic_sub_fetch( & g_out, 1, __ATOMIC_RELAXED); return p; }
void * memalign( std::size_t a, std::size_t n) { void * p = __libc_memalign( a, n); if ( p) { __atomic_add_fetch( & g_out, 1, __ATOMIC_RELAXED); ++g_mallocs; if ( mc::on_malloc) mc::on_malloc( p, n); } return p; }
void * aligned_alloc( std::size_t a, std::size_t n) { return memalign( a, n); }
int posix_memalign( void ** r, std::size_t a, std::size_t n) { void * p = memalign( a, n); if ( ! p) return 12; * r = p; return 0; }
}
#endif

namespace mc {
World W;
void ( * sched_point)() = 0;
long heap_outstanding() { return g_out; }
unsigned long heap_allocations() { return g_mallocs; }
bool heap_block( const void * q, char ** base, std::size_t * n) {
    const char * p = static_cast< const char * >( q);
    for ( int i = 0; i < g_big; ++i) if ( g_bigs[i].p && p >= g_bigs[i].p && p < g_bigs[i].p + g_bigs[i].n) { if ( base) * base = g_bigs[i].p; if ( n) * n = g_bigs[i].n; return true; }
    return false;
}
bool heap_tracked() {
#if defined(MC_ASAN) || defined(MC_TSAN) || defined(MC_NO_HEAP)
    return false;
#else
    return true;
#endif
}

static const std::size_t RED = 256;
static const unsigned char REDV = 0xA7, FREEV = 0xDB;

static const std::size_t POISON = 4096;
static const struct Pat { unsigned char red[RED], free_[POISON]; Pat() { memset( red, REDV, RED); memset( free_, FREEV, POISON); } } pat;

static std::size_t default_size() {
#ifdef MC_ASAN
    return 256 * 1024;
#else
    return 64 * 1024;
#endif
}

void World::reset() {
    nobj = 0; nlib = 0; copies = moves = 0; inject = 0;
    live_stacks = 0; allocs = deallocs = 0; last_blk = -1; fail_alloc = 0; stack_size = default_size();
    ntok = 0; tok_copies = 0; memset( tok_copies_k, 0, sizeof tok_copies_k); tok_fail = 0; live_exc = 0;
}

int block_of( const void * p) {
    for ( int i = 0; i < W.nblk; ++i)
        if ( W.blk[i].live && static_cast< const char * >( p) >= W.blk[i].base && static_cast< const char * >( p) < W.blk[i].base + W.blk[i].size) return i;
    return -1;
}

static void fill_red( World::Block & b) {
    memset( b.base - RED, REDV, RED); memset( b.base + b.size, REDV, RED);
}
static void check_red( World::Block & b) {
    ++n_checks;
    if ( memcmp( b.base - RED, pat.red, RED) || memcmp( b.base + b.size, pat.red, RED)) {
        fail( ALIGN, "memory outside the coroutine stack was written"); fill_red( b);
    }
}
static void check_poison( World::Block & b) {
    ++n_checks;
    if ( memcmp( b.base + b.size - b.use, pat.free_, b.use)) fail( STACK, "a released coroutine stack was written to");
}

boost::context::stack_context Alloc::allocate() {
    ++n_checks;
    if ( sched_point) sched_point();
    if ( aid < 0) fail( STACK, "a moved-from stack allocator is used to allocate");
    if ( W.fail_alloc > 0 && --W.fail_alloc == 0) throw AllocExc( aid);
    int i = -1;
    for ( int j = 0; j < W.nblk; ++j) if ( ! W.blk[j].live && W.blk[j].size == W.stack_size) { i = j; break; }
    if ( i < 0) {
        if ( W.nblk >= World::MAXS) { fail( STACK, "stacks pile up"); abandon(); }
        i = W.nblk++;
        char * p = static_cast< char * >( mmap( 0, W.stack_size + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if ( p == MAP_FAILED) { fail( HARNESS, "mmap"); abandon(); }
        W.blk[i].base = p + 4096; W.blk[i].size = W.stack_size; W.blk[i].use = 0; W.blk[i].used = false;
        fill_red( W.blk[i]);
    } else {
        check_poison( W.blk[i]);
        W.blk[i].use = 0;
    }
    World::Block & b = W.blk[i];
    b.used = b.live = true; b.aid = aid; b.serial = ++W.allocs; W.last_blk = i; ++W.live_stacks;
    if ( on_malloc) on_malloc( b.base, b.size);
    boost::context::stack_context s;
    s.size = b.size; s.sp = b.base + b.size;
    return s;
}
void Alloc::deallocate( boost::context::stack_context & s) {
    ++n_checks;
    if ( sched_point) sched_point();
    if ( aid < 0) { fail( STACK, "a stack is returned to a moved-from allocator"); }
    const void * here = __builtin_frame_address( 0);
    int i = -1;
    for ( int j = 0; j < W.nblk; ++j) if ( W.blk[j].live && W.blk[j].base + W.blk[j].size == s.sp) i = j;
    if ( i < 0) { fail( STACK, "deallocate() got a stack that is not allocated (released twice, or another context)"); abandon(); }
    World::Block & b = W.blk[i];
    if ( s.size != b.size) fail( STACK, "deallocate() got another size (%lu) than was allocated (%lu)", (unsigned long) s.size, (unsigned long) b.size);
    if ( aid >= 0 && b.aid != aid) fail( STACK, "stack of allocator %d is returned to allocator %d", b.aid, aid);
    if ( here >= b.base && here < b.base + b.size) { fail( STACK, "stack released while running on it"); abandon(); }
    for ( int j = 0; j < W.nobj; ++j) {
        const char * p = reinterpret_cast< const char * >( W.obj[j]);
        if ( p >= b.base && p < b.base + b.size) { fail( STACK, "stack released while a payload object on it is alive"); break; }
    }
    for ( int j = 0; j < W.ntok; ++j) {
        const char * p = reinterpret_cast< const char * >( W.tok[j]);
        if ( p >= b.base && p < b.base + b.size) { fail( STACK, "stack released while a callable on it is alive"); break; }
    }
    check_red( b);
    b.live = false; ++W.deallocs; --W.live_stacks;
#ifdef MC_ASAN
    __asan_unpoison_memory_region( b.base, b.size);
#endif
    b.use = b.size < POISON ? b.size : POISON;
    memset( b.base + b.size - b.use, FREEV, b.use);
}

void check_red_zones() {
    for ( int i = 0; i < W.nblk; ++i) if ( W.blk[i].used) { check_red( W.blk[i]); if ( ! W.blk[i].live) check_poison( W.blk[i]); W.blk[i].used = false; }
}
void release_blocks() {
    for ( int i = 0; i < W.nblk; ++i) munmap( W.blk[i].base - 4096, W.blk[i].size + 8192);
    W.nblk = 0;
}

int tok_live( int k) { int n = 0; for ( int i = 0; i < W.ntok; ++i) if ( W.tok[i]->lib && W.tok[i]->k == k) ++n; return n; }
int tok_holding( int k) { int n = 0; for ( int i = 0; i < W.ntok; ++i) if ( W.tok[i]->lib && W.tok[i]->k == k && ! W.tok[i]->moved) ++n; return n; }

void throw_app( int kind, int code) {
    switch ( kind) {
    case X_APP: throw AppExc( code);
    case X_DER: throw DerExc( code);
    case X_STD: throw StdExc( code);
    case X_INT: throw code;
    case X_RT: throw std::runtime_error( std::to_string( code));
    case X_BIG: throw BigExc( code);
    case X_PCH: { static char b[8][16]; char * p = b[code & 7]; snprintf( p, 16, "%d", code); const char * q = p; throw q; }
    default: throw AppExc( code);
    }
}

static long h0 = 0;
static void begin_() { W.reset(); h0 = heap_outstanding(); }
static void end_() {
    n_checks += 5;
    if ( W.nlib) { fail( LIFE, "%d payload object(s) never destroyed", W.nlib); }
    if ( W.nobj > W.nlib) { fail( HARNESS, "harness leaks payload objects"); }
    if ( W.ntok) { fail( FUNCTOR, "%d callable object(s) never destroyed", W.ntok); }
    if ( W.live_stacks) { fail( STACK, "%d stack(s) never given back to the allocator", W.live_stacks); for ( int i = 0; i < W.nblk; ++i) W.blk[i].live = false, W.blk[i].use = 0; }
    if ( W.live_exc) { fail( EXC, "%d exception object(s) never destroyed (or destroyed twice)", W.live_exc); }
    check_red_zones();
    long d = heap_outstanding() - h0;
    // lazily created one-time state is not a leak: the explorer runs the execution again and asks a second time
    if ( d != 0) { if ( is_rerun()) fail( LEAK, "%ld heap block(s) allocated by the execution are never freed", d); else request_rerun(); }
    ++n_checks;
}
void world_hooks() { on_begin = begin_; on_end = end_; }
}
#ifdef MC_ASAN
extern "C" const char * __asan_default_options() { return "detect_stack_use_after_return=0:detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=8"; }
#endif
