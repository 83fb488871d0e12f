#include "allocs.hpp"
#include <cstdio>
#include <csignal>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
# define AL_ASAN 1
#elif defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define AL_ASAN 1
# endif
#endif
// ---- mappings made by the stack allocators
namespace { struct Map { char * p; std::size_t n; int guard; bool live; }; Map maps[64]; int nmap; bool track; bool map_error; }
#ifndef AL_ASAN
extern "C" {
void * mmap( void * a, std::size_t n, int prot, int fl, int fd, off_t o) noexcept {
    void * p = reinterpret_cast< void * >( syscall( SYS_mmap, a, n, prot, fl, fd, o));
    if ( track && p != MAP_FAILED && nmap < 64) { maps[nmap].p = static_cast< char * >( p); maps[nmap].n = n; maps[nmap].guard = 0; maps[nmap].live = true; ++nmap; }
    return p;
}
int munmap( void * a, std::size_t n) noexcept {
    if ( track) { bool f = false; for ( int i = 0; i < nmap; ++i) if ( maps[i].live && maps[i].p == a && maps[i].n == n) { maps[i].live = false; f = true; } if ( ! f) map_error = true; }
    return (int) syscall( SYS_munmap, a, n);
}
int mprotect( void * a, std::size_t n, int prot) noexcept {
    if ( track && prot == PROT_NONE) for ( int i = 0; i < nmap; ++i) if ( maps[i].live && maps[i].p == a) maps[i].guard = (int) n;
    return (int) syscall( SYS_mprotect, a, n, prot);
}
}
#endif
namespace mc { namespace al {
template< class T, bool Pull > IC * mk_( Allocs & a, int k, std::size_t n, int rv, Rec & r);
extern template IC * mk_< void, true >( Allocs &, int, std::size_t, int, Rec &); extern template IC * mk_< void, false >( Allocs &, int, std::size_t, int, Rec &); extern template IC * mk_< Trk, true >( Allocs &, int, std::size_t, int, Rec &);
extern template IC * mk_< Trk, false >( Allocs &, int, std::size_t, int, Rec &); extern template IC * mk_< Trk &, true >( Allocs &, int, std::size_t, int, Rec &); extern template IC * mk_< Trk &, false >( Allocs &, int, std::size_t, int, Rec &);
const TypeInfo types[6] = { { "pull.void", true, & mk_< void, true > }, { "push.void", false, & mk_< void, false > }, { "pull.Trk", true, & mk_< Trk, true > }, { "push.Trk", false, & mk_< Trk, false > }, { "pull.ref", true, & mk_< Trk &, true > }, { "push.ref", false, & mk_< Trk &, false > } };
const char * const kname[NKIND] = { "fixedsize_stack", "pooled_fixedsize_stack", "protected_fixedsize_stack", "default" };
Trk * obj_;
namespace {
const std::size_t PG = 4096;
Map * map_of( const void * q) { const char * p = static_cast< const char * >( q); for ( int i = 0; i < nmap; ++i) if ( maps[i].live && p >= maps[i].p && p < maps[i].p + maps[i].n) return & maps[i]; return 0; }
volatile char sink;
void __attribute__((noinline)) down( const char * limit) { volatile char b[256]; b[0] = b[255] = 1; if ( & b[0] > limit) down( limit); sink = b[0]; }
char * g_lo, * g_hi;      // the guard page that must be hit
void on_segv( int, siginfo_t * si, void *) { char * a = static_cast< char * >( si->si_addr); _exit( a >= g_lo && a < g_hi ? 42 : 43); }
// overruns the stack of the running coroutine in a child process; true if the guard page stopped it
int overrun( const char * frame, Map * m) {
    fflush( 0);
    pid_t c = fork();
    if ( c < 0) return -1;
    if ( c == 0) {
        static char alt[65536];
        stack_t ss; memset( & ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack( & ss, 0);
        struct sigaction sa; memset( & sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        sigaction( SIGSEGV, & sa, 0); sigaction( SIGBUS, & sa, 0);
        g_lo = m->p; g_hi = m->p + PG;
        (void) frame;
        down( m->p - 64 * 1024);
        _exit( 44);
    }
    int st = 0;
    while ( waitpid( c, & st, 0) < 0) {}
    return WIFEXITED( st) ? WEXITSTATUS( st) : 256 + WTERMSIG( st);
}
}
void consume( const char *, std::size_t) {}
void enter( Rec & r, const void * frame_) {
    const char * frame = static_cast< const char * >( frame_);
    r.frame = frame; ++r.entered;
    n_checks += 4;
#ifndef AL_ASAN
    std::size_t want = r.kind == DEFAULT ? boost::context::stack_traits::default_size() : r.size;
    const char * lo = 0, * hi = 0;
    Map * m = map_of( frame);
    if ( r.kind == PROTECTED) {
        if ( ! m) { fail( ALLOC, "the function does not run on a stack mapped by protected_fixedsize_stack"); return; }
        if ( m->guard < (int) PG || m->p + m->guard > frame) { fail( ALLOC, "no inaccessible page below the stack"); return; }
        lo = m->p + m->guard; hi = m->p + m->n;
    } else {
        char * b; std::size_t n;
        if ( m) { fail( ALLOC, "the function runs on mapped memory instead of memory from the heap"); return; }
        if ( ! heap_tracked()) return;
        if ( ! heap_block( frame, & b, & n)) { fail( ALLOC, "the function does not run on allocated memory"); return; }
        r.heap = b; lo = b; hi = b + n;
        if ( r.kind == POOLED) {
            // the pool's blocks are cut into stacks
            if ( n < want) { fail( ALLOC, "the stack is smaller than requested"); return; }
            std::size_t k = ( frame - lo) / want; (void) k;
            lo = frame > lo + want - 1 ? frame - ( want - 16384 < want ? want - 16384 : 0) : lo; hi = 0;
        }
    }
    if ( hi && std::size_t( hi - lo) < want) { fail( ALLOC, "the stack has %lu bytes, %lu were requested", (unsigned long)( hi - lo), (unsigned long) want); return; }
    if ( hi && hi - frame > 4096) fail( ALLOC, "%lu bytes of the stack are used up before the function starts", (unsigned long)( hi - frame));
    if ( r.use_all && r.kind != POOLED) down( lo + 1024);              // nearly all of it can be used
    else if ( r.use_all) down( frame - want + 8192);
    if ( r.overrun && r.kind == PROTECTED) {
        int c = overrun( frame, m);
        ++n_checks;
        if ( c == -1) fail( HARNESS, "fork");
        else if ( c != 42) fail( ALLOC, "overrunning the stack is not stopped by the page below it (%d)", c);
    }
#endif
}
namespace {
int live_maps() { int n = 0; for ( int i = 0; i < nmap; ++i) if ( maps[i].live) ++n; return n; }
struct Slot { std::unique_ptr< IC > h; Rec r; int pos; bool done, used; int ti; };
struct Track { Track() { nmap = 0; map_error = false; track = true; } ~Track() { track = false; } };
void run( int kind, int depth, bool deep, bool sizes = false) {
    Trk obj( 5); obj_ = & obj;
    static std::size_t min = boost::context::stack_traits::minimum_size();
    std::size_t sz[] = { 65536, min + 137, 32768, 131072, 16384 * 5 + 16, 1000003 };
    static const std::size_t more[] = { 0, 1, 4095, 20000, 24577, 32768, 50000, 65535, 65537, 98304, 131071, 131072, 200001, 262144, 262145, 300000, 393216, 524288, 524289, 786432, 1000003, 1048576, 1500000, 2097152, 3000001, 4194304 };
    std::size_t size = sizes ? more[choose( sizeof more / sizeof * more)] : sz[choose( deep ? 4 : 2)];
    if ( size < min) size += min;
    bool pull = false; (void) pull;
    Slot s[2];
    for ( int i = 0; i < 2; ++i) { s[i].pos = 0; s[i].done = false; s[i].used = false; s[i].ti = 0; }
    int ti0 = choose( 6);
    note( "%s, %d bytes", kname[kind], (int) size);
    Track tr;
    {
    Allocs a( size);
    bool over = false; const char * pool_block = 0;
    for ( int d = 0; d < depth; ++d) {
        int n = 0, op[16], ar[16];
        for ( int i = 0; i < 2; ++i) {
            if ( ! s[i].h) { if ( i == 0 || s[0].h || s[0].used) { op[n] = 0; ar[n++] = i; } continue; }
            if ( ! s[i].done) { op[n] = 1; ar[n++] = i; op[n] = 3; ar[n++] = i; }
            op[n] = 2; ar[n++] = i;
            if ( i == 0 && s[1].h && s[0].ti == s[1].ti) { op[n] = 4; ar[n++] = 0; }
        }
        op[n] = 9; ar[n++] = 0;
        int w = choose( n), i = ar[w];
        if ( op[w] == 9) break;
        ExcInfo e; bool ends = false;
        bool en = false;
        if ( op[w] == 0) {
            s[i].ti = i == 0 ? ti0 : ( ti0 + choose( 2) * 3) % 6;
            Rec & r = s[i].r; memset( & r, 0, sizeof r);
            r.kind = kind; r.size = size; r.nsusp = choose( i ? 2 : 3); r.ending = choose( 2); r.use_all = true; r.overrun = ! over && kind == PROTECTED && d < 2 && r.ending; if ( r.overrun) over = true;
            int rv = d ? d & 1 : choose( 2);
            TypeInfo const& t = types[s[i].ti];
            note( "  create %s in slot %d, allocator %s, suspends %d times, %s", t.name, i, rv ? ( kind == DEFAULT ? "not given" : "rvalue") : "lvalue", r.nsusp, r.ending ? "throws" : "returns");
            s[i].used = true; s[i].done = false; s[i].pos = 0;
            if ( t.pull) { en = true; ends = r.nsusp == 0; s[i].pos = 1; if ( ends) s[i].done = true; }
            IC * h = 0;
            e = catching( [&]() { h = t.mk( a, kind, size, rv, r); });
            s[i].h.reset( h);
        } else if ( op[w] == 1) {
            note( "  resume slot %d", i);
            en = ! types[s[i].ti].pull && s[i].pos == 0;
            ends = s[i].pos == s[i].r.nsusp; ++s[i].pos; if ( ends) s[i].done = true;
            IC * h = s[i].h.get();
            e = catching( [&]() { h->resume(); });
        } else if ( op[w] == 2) {
            note( "  destroy slot %d", i);
            s[i].h.reset();
        } else if ( op[w] == 3) { note( "  move slot %d", i); s[i].h->move(); }
        else {
            note( "  slot 0 = move( slot 1)");
            // slot 0 takes over coroutine 1; the record of coroutine 1 stays in s[1].r
            s[0].h->assign( * s[1].h);
            if ( s[1].h->valid()) fail( BOOLV, "moved-from coroutine is valid");
            if ( s[0].r.frames) fail( UNWIND, "the assigned-to coroutine was not unwound");
            s[1].h.swap( s[0].h); s[0].h.reset();
        }
        n_checks += 4;
        transition( mix( kind, s[i].pos), mix( op[w], size));
        Rec & r = s[i].r;
        if ( ends && r.ending) { if ( e.kind != X_APP || e.code != r.nsusp) fail( EXC, "the function's exception did not arrive"); if ( op[w] == 0) { s[i].h.reset(); r.frame = 0; } }
        else if ( op[w] == 0 && ends && r.frame) { r.frame = 0; }      // ended during construction: the stack is already back
        else if ( e.kind) fail( EXC, "an operation threw (%d)", e.kind);
        if ( op[w] <= 1 && r.entered != ( s[i].pos ? 1 : 0)) { fail( EXEC, "function entered %d times", r.entered); return; }
        if ( op[w] != 4 && r.frames != ( s[i].h && ! s[i].done && s[i].pos ? 1 : 0)) fail( UNWIND, "%d frames exist", r.frames);
        if ( en && kind == POOLED && r.frame) {
            // the pool was told to get memory for two stacks at a time: two coroutines at a time never need more
            if ( ! pool_block) pool_block = r.heap;
            ++n_checks;
            if ( r.heap != pool_block) fail( ALLOC, "pooled_fixedsize_stack gets new memory although a released stack could be reused");
        }
        int nl = 0; std::uint64_t h = kind;
        for ( int k = 0; k < 2; ++k) if ( s[k].h) {
            if ( ! s[k].done) ++nl;
            bool v = s[k].h->valid();
            if ( v != ! s[k].done) fail( BOOLV, "validity is %d, expected %d", v, ! s[k].done);
            h = mix( h, mix( s[k].pos * 4 + s[k].done * 2, s[k].ti));
        }
        ++n_checks;
        if ( kind == PROTECTED) {
            int mx = 0; for ( int k = 0; k < 2; ++k) if ( s[k].h) ++mx;
            if ( live_maps() > mx) fail( STACK, "%d stacks are mapped for %d coroutine objects", live_maps(), mx);
#ifndef AL_ASAN
            if ( live_maps() < nl) { fail( ALLOC, "protected_fixedsize_stack does not map its stacks"); }
#endif
        } else if ( heap_tracked()) {
            for ( int k = 0; k < 2; ++k) if ( s[k].h && ! s[k].done && s[k].r.frame && ! heap_block( s[k].r.frame, 0, 0)) { fail( STACK, "the stack of a suspended coroutine was released"); abandon(); }
            if ( op[w] == 2 && kind != POOLED && r.frame && heap_block( r.frame, 0, 0)) { bool other = false; for ( int k = 0; k < 2; ++k) if ( s[k].h && s[k].r.heap == r.heap) other = true; if ( ! other) fail( STACK, "the stack of a destroyed coroutine was not released"); }
        }
        if ( map_error) { map_error = false; fail( STACK, "munmap of something that was not mapped this way"); }
        state( h); observe( h);
    }
    s[0].h.reset(); s[1].h.reset();
    }
    ++n_checks;
    if ( live_maps()) fail( STACK, "%d mapped stacks are left", live_maps());
}
struct Reg { Reg() {
    world_hooks();
    for ( int k = 0; k < NKIND; ++k) for ( int t = 0; t < 2; ++t) {
        int depth = ( t ? 6 : 5) - ( k == PROTECTED);
        add_scenario( std::string( "alloc.") + kname[k] + ( t ? ".deep" : ""), std::string( t ? "4" : "2") + " stack sizes x 6 coroutine types x every history of up to " + std::to_string( depth) + " operations (create with lvalue or rvalue allocator, 0..2 suspensions, return or throw; resume; move; move-assign; destroy) on two coroutines; nearly the whole stack is used; overruns in a child process",
            [k, depth, t]() { run( k, depth, t); }, t, 4);
        if ( k != DEFAULT) add_scenario( std::string( "alloc.sizes.") + kname[k] + ( t ? ".deep" : ""), "the same for 26 stack sizes from the minimum to 4 MiB and up to " + std::to_string( t ? 3 : 2) + " operations", [k, t]() { run( k, t ? 3 : 2, t, true); }, t, 3);
    }
} } reg;
}
}}
