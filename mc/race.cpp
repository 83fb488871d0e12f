#include "race.hpp"
#include "world.hpp"
#include <dlfcn.h>
#include <pthread.h>
namespace mc { namespace race {
struct Cell { std::uintptr_t a; std::uint32_t exec; std::uint32_t birth; std::uint32_t w[NT][8], r[NT][8]; };
enum { NCELL = 1 << 15 };
static Cell cells[NCELL];
static std::uint32_t g_exec = 0, g_birth = 1;
static VC vc[NT];
static thread_local int tid = -1;
static struct { std::uintptr_t lo, hi; } ign[16]; static int nign = 0;
static struct { std::uintptr_t lo, hi; std::uint32_t birth; } reg[64]; static int nreg = 0;
struct Sync { const volatile void * a; VC v; };
static Sync sync_[256]; static int nsync = 0;
unsigned long accesses = 0;
Report report;
static int held = 0;
int locks_held() { return held; }

static void born( void * p, std::size_t n) {
    if ( tid < 0) { if ( ! g_exec) return; }
    std::uintptr_t lo = reinterpret_cast< std::uintptr_t >( p), hi = lo + n;
    if ( n < 2048) {
        for ( std::uintptr_t a = lo & ~std::uintptr_t( 7); a < hi; a += 8) {
            std::size_t i = ( a >> 3) * 0x9e3779b97f4a7c15ULL >> 49;
            for ( int k = 0; k < NCELL; ++k, i = ( i + 1) & ( NCELL - 1)) {
                Cell & c = cells[i];
                if ( c.exec != g_exec) break;
                if ( c.a == a) { for ( std::uintptr_t b = a < lo ? lo : a; b < a + 8 && b < hi; ++b) for ( int t = 0; t < NT; ++t) c.w[t][b - a] = c.r[t][b - a] = 0; break; }
            }
        }
        return;
    }
    ++g_birth;
    for ( int i = 0; i < nreg; ++i) if ( reg[i].lo < hi && lo < reg[i].hi) { reg[i] = reg[--nreg]; --i; }
    if ( nreg < 64) { reg[nreg].lo = lo; reg[nreg].hi = hi; reg[nreg].birth = g_birth; ++nreg; }
}
void begin() {
    ++g_exec; nsync = 0; nreg = 0; held = 0; accesses = 0;
    report.any = false;
    for ( int t = 0; t < NT; ++t) for ( int u = 0; u < NT; ++u) vc[t].c[u] = t == u ? 1 : 0;
    on_malloc = born;
}
__attribute__(( noinline)) void enter( int t) { tid = t; }
__attribute__(( noinline)) void take( VC const& v) { int t = tid; for ( int u = 0; u < NT; ++u) if ( vc[t].c[u] < v.c[u]) vc[t].c[u] = v.c[u]; }
__attribute__(( noinline)) void give( VC & v) { int t = tid; v = vc[t]; ++vc[t].c[t]; }
void ignore( const void * p, std::size_t n) { if ( nign < 16) { ign[nign].lo = reinterpret_cast< std::uintptr_t >( p); ign[nign].hi = ign[nign].lo + n; ++nign; } }

static void access( const volatile void * p, std::size_t n, bool wr) {
    int t = tid;
    if ( t < 0) return;
    ++accesses;
    std::uintptr_t lo = reinterpret_cast< std::uintptr_t >( p), hi = lo + n;
    for ( int i = 0; i < nign; ++i) if ( lo >= ign[i].lo && lo < ign[i].hi) return;
    std::uint32_t birth = 0;
    for ( int i = 0; i < nreg; ++i) if ( lo >= reg[i].lo && lo < reg[i].hi) { birth = reg[i].birth; break; }
    for ( std::uintptr_t a = lo & ~std::uintptr_t( 7); a < hi; a += 8) {
        std::size_t i = ( a >> 3) * 0x9e3779b97f4a7c15ULL >> 49;
        Cell * c = 0;
        for ( int k = 0; k < NCELL; ++k, i = ( i + 1) & ( NCELL - 1)) {
            Cell & x = cells[i];
            if ( x.exec != g_exec || x.a == a) { c = & x; break; }
        }
        if ( ! c) { fail( HARNESS, "race detector out of memory"); return; }
        if ( c->exec != g_exec || c->birth != birth) { memset( c, 0, sizeof *c); c->exec = g_exec; c->a = a; c->birth = birth; }
        for ( std::uintptr_t b = a < lo ? lo : a; b < a + 8 && b < hi; ++b) {
            int k = b - a;
            for ( int u = 0; u < NT; ++u) if ( u != t) {
                bool ww = c->w[u][k] > vc[t].c[u], rw = wr && c->r[u][k] > vc[t].c[u];
                if ( ( ww || rw) && ! report.any) { report.any = true; report.addr = reinterpret_cast< const void * >( b); report.write = wr; report.write0 = ww; report.t = t; report.t0 = u; }
            }
            if ( wr) c->w[t][k] = vc[t].c[t]; else c->r[t][k] = vc[t].c[t];
        }
    }
}
static VC * sync_of( const volatile void * p) {
    for ( int i = 0; i < nsync; ++i) if ( sync_[i].a == p) return & sync_[i].v;
    if ( nsync >= 256) { fail( HARNESS, "too many synchronisation objects"); return & sync_[0].v; }
    sync_[nsync].a = p; memset( & sync_[nsync].v, 0, sizeof( VC));
    return & sync_[nsync++].v;
}
static void acquire( const volatile void * p) { if ( tid >= 0) take( * sync_of( p)); }
static void release( const volatile void * p) { if ( tid >= 0) { VC * s = sync_of( p); for ( int u = 0; u < NT; ++u) if ( s->c[u] < vc[tid].c[u]) s->c[u] = vc[tid].c[u]; ++vc[tid].c[tid]; } }
static void point() { if ( tid >= 0 && sched_point && ! held) sched_point(); }
} }
using namespace mc::race;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry( void *) {}
void __tsan_func_exit( void *) {}
#define RW( N) void __tsan_read##N( void * p) { access( p, N, false); } void __tsan_write##N( void * p) { access( p, N, true); } \
    void __tsan_unaligned_read##N( void * p) { access( p, N, false); } void __tsan_unaligned_write##N( void * p) { access( p, N, true); } \
    void __tsan_read_write##N( void * p) { access( p, N, false); access( p, N, true); } void __tsan_unaligned_read_write##N( void * p) { access( p, N, false); access( p, N, true); } \
    void __tsan_volatile_read##N( void * p) { access( p, N, false); } void __tsan_volatile_write##N( void * p) { access( p, N, true); } \
    void __tsan_unaligned_volatile_read##N( void * p) { access( p, N, false); } void __tsan_unaligned_volatile_write##N( void * p) { access( p, N, true); }
RW( 1) RW( 2) RW( 4) RW( 8) RW( 16)
void __tsan_read_range( void * p, unsigned long n) { access( p, n, false); }
void __tsan_write_range( void * p, unsigned long n) { access( p, n, true); }
void __tsan_vptr_update( void ** p, void *) { access( p, sizeof *p, true); }
void __tsan_vptr_read( void ** p) { access( p, sizeof *p, false); }
#define AT( N, T) \
    T __tsan_atomic##N##_load( const volatile T * a, int) { point(); acquire( a); return __atomic_load_n( a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##N##_store( volatile T * a, T v, int) { point(); release( a); __atomic_store_n( a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_exchange( volatile T * a, T v, int) { point(); acquire( a); release( a); return __atomic_exchange_n( a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_add( volatile T * a, T v, int) { point(); acquire( a); release( a); return __atomic_fetch_add( a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_sub( volatile T * a, T v, int) { point(); acquire( a); release( a); return __atomic_fetch_sub( a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_and( volatile T * a, T v, int) { point(); acquire( a); release( a); return __atomic_fetch_and( a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_or( volatile T * a, T v, int) { point(); acquire( a); release( a); return __atomic_fetch_or( a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_xor( volatile T * a, T v, int) { point(); acquire( a); release( a); return __atomic_fetch_xor( a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_nand( volatile T * a, T v, int) { point(); acquire( a); release( a); return __atomic_fetch_nand( a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_strong( volatile T * a, T * c, T v, int, int) { point(); acquire( a); release( a); return __atomic_compare_exchange_n( a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_weak( volatile T * a, T * c, T v, int, int) { point(); acquire( a); release( a); return __atomic_compare_exchange_n( a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_compare_exchange_val( volatile T * a, T c, T v, int, int) { point(); acquire( a); release( a); __atomic_compare_exchange_n( a, & c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT( 8, unsigned char) AT( 16, unsigned short) AT( 32, unsigned int) AT( 64, unsigned long)
void __tsan_atomic_thread_fence( int) {}
void __tsan_atomic_signal_fence( int) {}
// clang: plain memory functions are called through the runtime
void * __tsan_memcpy( void * d, const void * s, unsigned long n) { access( s, n, false); access( d, n, true); return memcpy( d, s, n); }
void * __tsan_memmove( void * d, const void * s, unsigned long n) { access( s, n, false); access( d, n, true); return memmove( d, s, n); }
void * __tsan_memset( void * d, int c, unsigned long n) { access( d, n, true); return memset( d, c, n); }
// a library that locks is synchronised
int pthread_mutex_lock( pthread_mutex_t * m) noexcept {
    static int (* real)( pthread_mutex_t *) = reinterpret_cast< int (*)( pthread_mutex_t *) >( dlsym( RTLD_NEXT, "pthread_mutex_lock"));
    point();
    int r = real( m);
    if ( tid >= 0) { ++held; acquire( m); }
    return r;
}
int pthread_mutex_unlock( pthread_mutex_t * m) noexcept {
    static int (* real)( pthread_mutex_t *) = reinterpret_cast< int (*)( pthread_mutex_t *) >( dlsym( RTLD_NEXT, "pthread_mutex_unlock"));
    if ( tid >= 0) { if ( held) --held; release( m); }
    return real( m);
}
}
