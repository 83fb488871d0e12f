#include "explorer.hpp"
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <set>
#include <fcntl.h>
#include <fnmatch.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
# define MC_SAN 1
#elif defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define MC_SAN 1
# endif
#endif

namespace mc {

const char * const cat_name[NCAT] = {
    "CONTROL","EXEC","VALUE","BOOLV","EXC","UNWIND","LIFE","COPYMOVE","REFID","FUNCTOR","STACK","MOVE","INDEP",
    "ITERIN","ITEROUT","ALIGN","FAILX","MODE","REPEAT","THREAD","ALLOC","LEAK","COST","HARNESS" };

enum { MAXC = 8192, MAXW = 32, MSG = 1500 };
struct Ch { unsigned short c, n; };

struct Worker {                       // lives in shared memory
    Ch st[MAXC];
    volatile int len, pos;
    int cut, prefix_only, started, finished;
    unsigned ordinal;                 // ordinal of the current prefix
    int owned;
    volatile unsigned long beat;
    unsigned long execs, execs_relevant, dup, maxlen, ignored[NCAT], abandoned, checks, known, determinism;
    std::uint64_t digest;
    volatile int failed, failcat;
    char msg[MSG + 32];
    char knownsig[4][200];
    int slen; unsigned short sample[512];   // choices of one execution, kept as an example
};
struct Shared {
    Worker w[MAXW];
    std::atomic< unsigned char > claim[1 << 22];
    std::atomic< unsigned long > nstates, ntrans, ntraces;
    std::atomic< int > stop, capped;
};
static Shared * S = 0;
static std::atomic< std::uint64_t > * T_states, * T_trans, * T_traces;
static std::uint64_t TS_MASK, TT_MASK, TX_MASK;
static Worker * me = 0;
static std::string g_dump; static FILE * g_dumpf = 0;
static bool g_verbose = false, g_replay = false; static unsigned g_rel = 0, need_rel = 0;
static std::uint64_t scope_mask = ~0ULL;
static std::uint64_t trace_hash = 0;
static std::vector< std::string > known;
static int g_rerun = 0;
void request_rerun() { g_rerun = 1; }
bool is_rerun() { return g_rerun == 2; }
bool digests = false;
std::uint64_t n_checks = 0;
void ( * on_begin)() = 0; void ( * on_end)() = 0;
static std::vector< Scenario > & scenarios() { static std::vector< Scenario > v; return v; }

void add_scenario( std::string name, std::string what, std::function< void() > run, int tier, int cut) {
    Scenario s; s.name = name; s.what = what; s.run = run; s.tier = tier; s.cut = cut;
    scenarios().push_back( s);
}
bool verbose() { return g_verbose; }
void relevant( unsigned r) { g_rel |= r; }

void note( const char * fmt, ...) {
    if ( ! g_verbose) return;
    va_list a; va_start( a, fmt); vfprintf( stdout, fmt, a); va_end( a);
    fputc( '\n', stdout); fflush( stdout);
}

static void set_insert( std::atomic< std::uint64_t > * t, std::uint64_t mask, std::atomic< unsigned long > & n, std::uint64_t h) {
    if ( ! t) return;
    if ( ! h) h = 1;
    for ( std::uint64_t i = h & mask, k = 0; k < 64; ++k, i = ( i + 1) & mask) {
        std::uint64_t cur = t[i].load( std::memory_order_relaxed);
        if ( cur == h) return;
        if ( ! cur) {
            if ( t[i].compare_exchange_strong( cur, h)) { ++n; return; }
            if ( cur == h) return;
        }
    }
}
void state( std::uint64_t h) { if ( S) set_insert( T_states, TS_MASK, S->nstates, h); trace_hash = mix( trace_hash, h); }
void transition( std::uint64_t from, std::uint64_t op) { if ( S) set_insert( T_trans, TT_MASK, S->ntrans, mix( from, op)); }
void observe( std::uint64_t v) { trace_hash = mix( trace_hash, v); }

[[noreturn]] void abandon() {
    if ( g_replay) { printf( "ABANDONED (out-of-scope mismatch)\n"); fflush( stdout); _exit( 0); }
    if ( me) { ++me->abandoned; }
    _exit( 77);
}

static void vfail( Cat c, const char * fmt, va_list a) {
    bool in = ( scope_mask >> c) & 1;
    if ( c == HARNESS) in = true;
    if ( in && need_rel && ! ( g_rel & need_rel) && c != HARNESS) in = false;
    char buf[MSG];
    vsnprintf( buf, sizeof buf, fmt, a);
    if ( ! in) {
        if ( me) ++me->ignored[c];
        note( "  (out of scope) %s: %s", cat_name[c], buf);
        return;
    }
    if ( me) {
        snprintf( me->msg, sizeof me->msg, "%s: %s", cat_name[c], buf);
        me->failcat = c;
        me->failed = 1;
    }
    if ( g_replay) { printf( "FAILED %s: %s\n", cat_name[c], buf); fflush( stdout); }
    _exit( 99);
}
void fail( Cat c, const char * fmt, ...) { va_list a; va_start( a, fmt); vfail( c, fmt, a); va_end( a); }
void fail_sig( Cat c, const std::string & sig, const char * fmt, ...) {
    for ( std::size_t i = 0; i < known.size(); ++i)
        if ( known[i] == sig) {
            if ( me) {
                ++me->known;
                for ( int k = 0; k < 4; ++k) {
                    if ( me->knownsig[k] == sig) break;
                    if ( ! me->knownsig[k][0]) { snprintf( me->knownsig[k], 200, "%s", sig.c_str()); break; }
                }
            }
            note( "  known finding: %s", sig.c_str());
            return;
        }
    va_list a; va_start( a, fmt); vfail( c, fmt, a); va_end( a);
}

int choose( int n) {
    if ( n <= 1) return 0;
    Worker * w = me;
    int p = w->pos;
    if ( p < w->len) {
        if ( g_replay && w->st[p].n == 0) w->st[p].n = n;
        if ( w->st[p].n != n || w->st[p].c >= n) {
            // the same choices led somewhere else: code or harness is not deterministic
            fail( HARNESS, "replay diverged at choice %d: %d options, expected %d", p, n, (int) w->st[p].n);
        }
    } else {
        if ( p >= MAXC) fail( HARNESS, "execution makes more than %d choices", (int) MAXC);
        w->st[p].c = 0; w->st[p].n = n; w->len = p + 1;
    }
    w->pos = p + 1;
    return w->st[p].c;
}

static bool advance( Worker * w) {
    int len = w->len;
    if ( ! w->owned && len > w->cut) len = w->cut;
    while ( len > 0 && w->st[len - 1].c + 1 >= w->st[len - 1].n) --len;
    if ( len == 0) return false;
    ++w->st[len - 1].c;
    w->len = len;
    if ( len <= w->cut) { ++w->ordinal; w->owned = -1; }
    return true;
}

static void run_once( const Scenario & sc) {
    for ( g_rerun = 0; ; g_rerun = 2) {
        me->pos = 0; trace_hash = 0; g_rel = 0;
        n_checks = 0;
        if ( on_begin) on_begin();
        sc.run();
        if ( on_end) on_end();
        if ( g_rerun != 1) break;
    }
    if ( me->pos < me->len) fail( HARNESS, "execution ended after %d of %d replayed choices", me->pos, me->len);
}

static void worker_loop( const Scenario & sc, Worker * w, bool single) {
    me = w;
    if ( ! g_dump.empty()) { char b[16]; snprintf( b, sizeof b, ".%d", (int)( w - S->w)); g_dumpf = fopen( ( g_dump + b).c_str(), "a"); }
    for (;;) {
        if ( S->stop.load( std::memory_order_relaxed)) break;
        if ( w->started) {
            if ( ! advance( w)) break;
        } else { w->started = 1; w->owned = -1; }
        if ( w->owned < 0) {
            unsigned char z = 0;
            if ( single) w->owned = 1;
            else if ( w->ordinal >= sizeof( S->claim)) fail( HARNESS, "too many prefixes");
            else w->owned = S->claim[w->ordinal].compare_exchange_strong( z, 1) ? 1 : 0;
        }
        run_once( sc);
        w->beat = w->beat + 1;
        if ( ! w->owned) { ++w->dup; continue; }
        ++w->execs;
        if ( g_rel & need_rel) ++w->execs_relevant;
        w->checks += n_checks;
        if ( (unsigned long) w->len > w->maxlen) w->maxlen = w->len;
        set_insert( T_traces, TX_MASK, S->ntraces, trace_hash);
        if ( g_dumpf) { for ( int i = 0; i < w->len; ++i) fprintf( g_dumpf, "%d,", (int) w->st[i].c); fprintf( g_dumpf, " %016llx\n", (unsigned long long) trace_hash); fflush( g_dumpf); }
        if ( w->len <= 512 && ( ( w->execs & ( w->execs - 1)) == 0)) { w->slen = w->len; for ( int i = 0; i < w->len; ++i) w->sample[i] = w->st[i].c; }
        if ( digests) w->digest += trace_hash * 0x9e3779b97f4a7c15ULL;
        // determinism: re-run some executions, the observations must be identical
        if ( ( w->execs & ( w->execs - 1)) == 0) {
            std::uint64_t h = trace_hash;
            run_once( sc);
            ++w->determinism;
            if ( h != trace_hash) fail( HARNESS, "two runs of the same choices gave different observations");
        }
    }
    w->finished = 1;
}

static double now() { timespec t; clock_gettime( CLOCK_MONOTONIC, & t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::string choices_of( const Worker * w) {
    std::string s;
    for ( int i = 0; i < w->len; ++i) { char b[24]; snprintf( b, sizeof b, "%s%d", i ? "," : "", (int) w->st[i].c); s += b; }
    return s;
}
static std::string jesc( const std::string & s) {
    std::string r;
    for ( std::size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if ( c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ( c < 32 || c > 126) { char b[8]; snprintf( b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static void set_limits() {
    rlimit r; r.rlim_cur = r.rlim_max = 0; setrlimit( RLIMIT_CORE, & r);
}
static std::string why( int status) {
    char b[100];
    if ( WIFSIGNALED( status)) snprintf( b, sizeof b, "CRASH: killed by signal %d (%s)", WTERMSIG( status), strsignal( WTERMSIG( status)));
    else snprintf( b, sizeof b, "CRASH: process ended unexpectedly with status %d (sanitizer report or exit)", WEXITSTATUS( status));
    return b;
}

// runs the given choices in a fresh child; true if it fails again
static bool replay_child( const Scenario & sc, const std::vector< int > & ch, double limit, std::string & msg) {
    Worker * w = & S->w[MAXW - 1];
    memset( (void*) w, 0, sizeof *w);
    w->len = ch.size(); w->owned = 1; w->cut = 0;
    for ( std::size_t i = 0; i < ch.size(); ++i) { w->st[i].c = ch[i]; w->st[i].n = 0; }
    pid_t p = fork();
    if ( p == 0) {
        if ( ! g_verbose) { int fd = open( "/dev/null", O_WRONLY); dup2( fd, 2); }
        me = w; g_replay = true; bool v = g_verbose; if ( ! v) { int fd = open( "/dev/null", O_WRONLY); dup2( fd, 1); }
        run_once( sc);
        fflush( stdout);
        _exit( 0);
    }
    double t0 = now(); int st;
    for (;;) {
        pid_t r = waitpid( p, & st, WNOHANG);
        if ( r == p) break;
        if ( now() - t0 > limit) {
            kill( p, SIGKILL); waitpid( p, & st, 0);
            msg = "HANG: the execution does not end";
            return true;
        }
        usleep( 2000);
    }
    if ( WIFEXITED( st) && WEXITSTATUS( st) == 0) return false;
    if ( WIFEXITED( st) && WEXITSTATUS( st) == 77) return false;
    msg = w->failed ? std::string( w->msg) : why( st);
    return true;
}

struct Result {
    unsigned long execs, rel, dup, maxlen, ignored[NCAT], abandoned, checks, known, states, trans, traces, det;
    std::uint64_t digest; bool capped, violated; std::string msg, choices; bool reproduced; double secs;
    std::set< std::string > knownsigs; std::string sample;
};

static Result explore( const Scenario & sc, int W, double deadline) {
    Result R; memset( R.ignored, 0, sizeof R.ignored);
    R.execs = R.rel = R.dup = R.maxlen = R.abandoned = R.checks = R.known = R.det = 0; R.digest = 0;
    R.capped = R.violated = R.reproduced = false;
    double t0 = now();
    memset( (void*) S->w, 0, sizeof S->w);
    for ( std::size_t i = 0; i < sizeof( S->claim); ++i) { if ( i && ! S->claim[i].load()) break; S->claim[i] = 0; }
    S->nstates = 0; S->ntrans = 0; S->ntraces = 0; S->stop = 0;
    pid_t pid[MAXW]; unsigned long beat[MAXW]; double last[MAXW]; int respawns = 0, live = 0;
    fflush( stdout);
    auto spawn = [&]( int i) {
        pid[i] = fork();
        if ( pid[i] == 0) {
            setpgid( 0, 0);
            if ( ! getenv( "MC_STDERR")) { int fd = open( "/dev/null", O_WRONLY); dup2( fd, 2); }
            worker_loop( sc, & S->w[i], false);
            _exit( 0);
        }
        beat[i] = S->w[i].beat; last[i] = now(); ++live;
    };
    for ( int i = 0; i < W; ++i) { S->w[i].cut = sc.cut; spawn( i); }
    while ( live) {
        bool any = false;
        for ( int i = 0; i < W; ++i) {
            if ( ! pid[i]) continue;
            int st; pid_t r = waitpid( pid[i], & st, WNOHANG);
            if ( r == pid[i]) {
                any = true; pid[i] = 0; --live;
                Worker & w = S->w[i];
                if ( WIFEXITED( st) && WEXITSTATUS( st) == 0 && w.finished) continue;
                if ( WIFEXITED( st) && WEXITSTATUS( st) == 0 && S->stop.load()) continue;
                if ( WIFEXITED( st) && WEXITSTATUS( st) == 77) {
                    if ( ++respawns < 3000 && ! R.violated) spawn( i); else S->capped = 1;
                    continue;
                }
                if ( R.violated) continue;
                if ( WIFSIGNALED( st) && WTERMSIG( st) == SIGKILL) {
                    // not a failure of the code under test (out of memory, external kill): give the work up, visibly
                    fprintf( stderr, "worker killed\n"); S->capped = 1; continue;
                }
                R.violated = true; S->stop = 1;
                R.msg = w.failed ? std::string( w.msg) : why( st);
                R.choices = choices_of( & w);
                continue;
            }
            if ( S->w[i].beat != beat[i]) { beat[i] = S->w[i].beat; last[i] = now(); }
            else if ( now() - last[i] > 20) {
                // deterministic code: run it alone, with a longer limit, before calling it a hang
                std::vector< int > ch; for ( int k = 0; k < S->w[i].len; ++k) ch.push_back( S->w[i].st[k].c);
                std::string cs = choices_of( & S->w[i]);
                kill( pid[i], SIGKILL); waitpid( pid[i], 0, 0); pid[i] = 0; --live; any = true;
                std::string m;
                if ( R.violated) continue;
                if ( replay_child( sc, ch, 90, m)) { R.violated = true; S->stop = 1; R.msg = m; R.choices = cs; R.reproduced = true; }
                else { if ( ++respawns < 3000) spawn( i); }
            }
        }
        if ( ! any) usleep( 3000);
        if ( now() > deadline && ! S->stop.load()) { S->stop = 1; R.capped = true; }
        if ( R.violated && ! any) {
            for ( int i = 0; i < W; ++i) if ( pid[i]) { kill( pid[i], SIGKILL); waitpid( pid[i], 0, 0); pid[i] = 0; --live; }
        }
    }
    if ( S->capped.load()) { R.capped = true; S->capped = 0; }
    for ( int i = 0; i < W; ++i) {
        Worker & w = S->w[i];
        R.execs += w.execs; R.rel += w.execs_relevant; R.dup += w.dup; R.abandoned += w.abandoned; R.checks += w.checks;
        R.known += w.known; R.digest += w.digest; R.det += w.determinism;
        R.maxlen = std::max( R.maxlen, w.maxlen);
        for ( int c = 0; c < NCAT; ++c) R.ignored[c] += w.ignored[c];
        if ( i == 0 || ( R.sample.empty() && w.slen)) { R.sample.clear(); for ( int k = 0; k < w.slen; ++k) R.sample += ( k ? "," : "") + std::to_string( w.sample[k]); }
        for ( int k = 0; k < 4; ++k) if ( w.knownsig[k][0]) R.knownsigs.insert( w.knownsig[k]);
    }
    R.states = S->nstates; R.trans = S->ntrans; R.traces = S->ntraces;
    // clear the hash tables for the next scenario
    for ( std::uint64_t i = 0; i <= TS_MASK; ++i) T_states[i].store( 0, std::memory_order_relaxed);
    for ( std::uint64_t i = 0; i <= TT_MASK; ++i) T_trans[i].store( 0, std::memory_order_relaxed);
    for ( std::uint64_t i = 0; i <= TX_MASK; ++i) T_traces[i].store( 0, std::memory_order_relaxed);
    if ( R.violated && ! R.reproduced) {
        std::vector< int > ch; const char * p = R.choices.c_str();
        while ( *p) { ch.push_back( atoi( p)); p = strchr( p, ','); if ( ! p) break; ++p; }
        std::string m;
        for ( int k = 0; k < 3 && ! R.reproduced; ++k)
            if ( replay_child( sc, ch, 90, m)) { R.reproduced = true; R.msg = m; }
    }
    R.secs = now() - t0;
    return R;
}

static void * shmap( std::size_t n) {
    void * p = mmap( 0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if ( p == MAP_FAILED) { perror( "mmap"); _exit( 3); }
    return p;
}

int explorer_main( int argc, char ** argv) {
#ifndef MC_SAN
    if ( ! getenv( "MC_NOASLR")) {
        setenv( "MC_NOASLR", "1", 1);
        int old = personality( 0xffffffff);
        if ( old != -1 && ! ( old & ADDR_NO_RANDOMIZE) && personality( old | ADDR_NO_RANDOMIZE) != -1) execv( "/proc/self/exe", argv);
    }
#endif
    set_limits();
    std::vector< std::string > run; std::string out; bool list = false, single = false; int tier = 0, W = 8; double dl = 600;
    std::string rep_name, rep_choices; bool rep = false;
    for ( int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        auto split = [&]( std::string s) { std::vector< std::string > v; std::size_t p = 0; while ( p <= s.size()) { std::size_t q = s.find( ',', p); if ( q == std::string::npos) q = s.size(); if ( q > p) v.push_back( s.substr( p, q - p)); p = q + 1; } return v; };
        if ( a == "--list") list = true;
        else if ( a == "--run") run = split( next());
        else if ( a == "--tier") tier = next() == "thorough";
        else if ( a == "--workers") W = atoi( next().c_str());
        else if ( a == "--deadline") dl = atof( next().c_str());
        else if ( a == "--out") out = next();
        else if ( a == "--digests") digests = true;
        else if ( a == "--dump") g_dump = next();
        else if ( a == "--relevant") { static const char * const rn[] = { "MOVE", "FAIL", "MULTI", "THREAD", "THROW" }; for ( auto & v : split( next())) for ( int k = 0; k < 5; ++k) if ( v == rn[k]) need_rel |= 1u << k; }
        else if ( a == "--known") known.push_back( next());
        else if ( a == "--single") single = true;
        else if ( a == "--replay") { rep = true; rep_name = next(); rep_choices = next(); }
        else if ( a == "--quiet") {}
        else if ( a == "--scope") {
            scope_mask = 0;
            std::vector< std::string > v = split( next());
            for ( std::size_t k = 0; k < v.size(); ++k) for ( int c = 0; c < NCAT; ++c) if ( v[k] == cat_name[c] || v[k] == "ALL") scope_mask |= 1ULL << c;
        } else { fprintf( stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    if ( W > MAXW - 2) W = MAXW - 2;
    if ( list) { for ( auto & s : scenarios()) printf( "%s\t%d\t%s\n", s.name.c_str(), s.tier, s.what.c_str()); return 0; }
    S = static_cast< Shared * >( shmap( sizeof( Shared)));
    std::uint64_t bits = tier ? 25 : 22;
    TS_MASK = ( 1ULL << ( bits - 1)) - 1; TT_MASK = ( 1ULL << bits) - 1; TX_MASK = ( 1ULL << bits) - 1;
    T_states = static_cast< std::atomic< std::uint64_t > * >( shmap( ( TS_MASK + 1) * 8));
    T_trans = static_cast< std::atomic< std::uint64_t > * >( shmap( ( TT_MASK + 1) * 8));
    T_traces = static_cast< std::atomic< std::uint64_t > * >( shmap( ( TX_MASK + 1) * 8));
    if ( rep) {
        for ( auto & s : scenarios()) if ( s.name == rep_name) {
            if ( single) { // re-run the whole scenario in one process, in order (for failures that depend on history)
                pid_t p = fork();
                if ( ! p) { S->w[0].cut = 0; worker_loop( s, & S->w[0], true); _exit( 0); }
                int st; waitpid( p, & st, 0);
                if ( WIFEXITED( st) && WEXITSTATUS( st) == 0) { printf( "replay: no failure\n"); return 0; }
                printf( "FAILED %s\nchoices %s\n", S->w[0].failed ? S->w[0].msg : why( st).c_str(), choices_of( & S->w[0]).c_str());
                return 1;
            }
            std::vector< int > ch; const char * p = rep_choices.c_str();
            while ( *p) { ch.push_back( atoi( p)); p = strchr( p, ','); if ( ! p) break; ++p; }
            g_verbose = true;
            std::string m;
            bool f = replay_child( s, ch, 90, m);
            printf( f ? "FAILED %s\n" : "replay: no failure%s\n", f ? m.c_str() : "");
            return f ? 1 : 0;
        }
        fprintf( stderr, "no scenario %s\n", rep_name.c_str());
        return 2;
    }
    double t_end = now() + dl;
    FILE * f = out.empty() ? stdout : fopen( out.c_str(), "w");
    if ( ! f) { perror( out.c_str()); return 2; }
    fprintf( f, "[");
    int bad = 0; bool first = true;
    for ( auto & s : scenarios()) {
        if ( s.tier > tier) continue;
        if ( ! run.empty()) {
            bool hit = false;
            for ( auto & r : run) if ( fnmatch( r.c_str(), s.name.c_str(), 0) == 0) hit = true;
            if ( ! hit) continue;
        }
        Result R = explore( s, W, t_end);
        fprintf( f, "%s\n{\"scenario\":\"%s\",\"bounds\":\"%s\",\"executions\":%lu,\"relevant\":%lu,\"states\":%lu,\"transitions\":%lu,\"distinct_traces\":%lu,"
                 "\"checks\":%lu,\"max_choices\":%lu,\"abandoned\":%lu,\"known\":%lu,\"determinism_reruns\":%lu,\"capped\":%s,\"digest\":\"%016llx\",\"sample\":\"%s\",\"secs\":%.2f",
                 first ? "" : ",", jesc( s.name).c_str(), jesc( s.what).c_str(), R.execs, R.rel, R.states, R.trans, R.traces, R.checks, R.maxlen, R.abandoned,
                 R.known, R.det, R.capped ? "true" : "false", (unsigned long long) R.digest, R.sample.c_str(), R.secs);
        first = false;
        fprintf( f, ",\"ignored\":{"); bool c1 = true;
        for ( int c = 0; c < NCAT; ++c) if ( R.ignored[c]) { fprintf( f, "%s\"%s\":%lu", c1 ? "" : ",", cat_name[c], R.ignored[c]); c1 = false; }
        fprintf( f, "},\"known_sigs\":["); c1 = true;
        for ( auto & k : R.knownsigs) { fprintf( f, "%s\"%s\"", c1 ? "" : ",", jesc( k).c_str()); c1 = false; }
        fprintf( f, "]");
        if ( R.violated) {
            fprintf( f, ",\"violation\":{\"msg\":\"%s\",\"choices\":\"%s\",\"reproduced\":%s}", jesc( R.msg).c_str(), R.choices.c_str(), R.reproduced ? "true" : "false");
            ++bad;
        }
        fprintf( f, "}");
        fflush( f);
        if ( bad) break;
    }
    fprintf( f, "\n]\n");
    if ( f != stdout) fclose( f);
    return bad ? 1 : 0;
}
}

int main( int argc, char ** argv) { return mc::explorer_main( argc, argv); }
