// Lock-step exploration: the running context (main or a coroutine-function) picks its next operation by choose();
// the reference model says what must happen, the real objects are driven through the same operation, and every
// observable arrival of control is compared with the model.
#include "machine.hpp"
#include <cstdio>
#include <pthread.h>
#include <semaphore.h>

namespace mc {

const char * const pay_name[NPAY] = { "void","int","Trk","MoveOnly","CopyOnly","Big","Align128","string","pointer","tuple","Trk&","Trk const&" };
const char * const pmode_name[PM_N] = { "rvalue","lvalue","std::move(lvalue)","const lvalue" };
const PayInfo pay_info[NPAY] = {
    // movable copyable ref tracked reread
    { false, false, false, false, true }, { true, true, false, false, true }, { true, true, false, true, false }, { true, false, false, true, false },
    { false, true, false, true, true }, { true, true, false, true, false }, { true, true, false, true, false }, { true, true, false, false, false },
    { true, true, false, false, true }, { true, true, false, true, false }, { false, false, true, false, true }, { false, false, true, false, true } };
CreateFn creators[2][NPAY];
Trk * refpool[NREF];
Flight flight;
void same_object( const void * a, const void * b) { ++n_checks; if ( a != b) fail( EXEC, "operation does not return a reference to the object it was called on"); }

namespace {

enum EvT { E_ENTRY, E_RET, E_THROWN, E_GUARD };
struct Ev { EvT t; int a, b, kind, code; };
enum St { UNENT, SUSP, CHAIN, DONE, DEAD };

struct Frame { int guard; std::vector< int > slots; };
struct Cor {
    Kind kind; Pay pay; St st; int slot;      // slot holding the handle, -1 none (under construction)
    bool has, taken; int val; bool ever;      // the value readable on the receiving side
    int blk; unsigned serial; int aid;        // stack (amode != default)
    bool entered; int depth_max;
};
struct Ctx { std::vector< Frame > frames; int seq; int pslot, pcor; bool pcreate, ptransfer; IHandle * self; };
struct Slot { bool used, reserved; int cor; Kind kind; Pay pay; int ctx, frame; IHandle * real; };

struct Machine {
    Cfg const * cfg;
    int D, used, devs;
    std::vector< Cor > cor;                   // index 0 = main (unused)
    std::vector< Ctx > ctx;
    std::vector< int > chain;
    std::vector< Slot > slot;
    std::vector< Ev > q; std::size_t qh;      // expected arrivals
    int nextval, nextguard, nexcode, maxval;
    bool finishing; bool diverged;
};
Machine * M = 0;

void expect( EvT t, int a, int b = 0, int kind = 0, int code = 0) { Ev e = { t, a, b, kind, code }; M->q.push_back( e); }

Cat classify( bool have, Ev const& want, Ev const& got) {
    if ( got.t == E_GUARD || ( have && want.t == E_GUARD)) return UNWIND;
    if ( got.t == E_ENTRY || ( have && want.t == E_ENTRY)) return EXEC;
    if ( got.t == E_THROWN || ( have && want.t == E_THROWN)) return EXC;
    return CONTROL;
}
std::string show( Ev const& e) {
    char b[200];
    static const char * const xk[] = { "none","AppExc","DerExc","StdExc","int","InjectExc","AllocExc","TokExc","runtime_error","char const*","BigExc" };
    if ( e.t == E_ENTRY) snprintf( b, sizeof b, "entry of coroutine-function %d", e.a);
    else if ( e.t == E_GUARD) snprintf( b, sizeof b, "destruction of local %d of coroutine %d", e.b, e.a);
    else if ( e.t == E_RET) snprintf( b, sizeof b, "operation #%d of context %d returns", e.b, e.a);
    else snprintf( b, sizeof b, "operation #%d of context %d throws %s(%d)", e.b, e.a, xk[e.kind], e.code);
    return b;
}

void arrive( EvT t, int a, int b = 0, int kind = 0, int code = 0) {
    Ev got = { t, a, b, kind, code };
    if ( M->diverged) return;
    ++n_checks;
    bool have = M->qh < M->q.size();
    Ev want = have ? M->q[M->qh] : got;
    if ( ! have || want.t != t || want.a != a || want.b != b || want.kind != kind || want.code != code) {
        std::string g = show( got), w = have ? show( want) : std::string( "nothing more");
        note( "  !! %s; expected: %s", g.c_str(), w.c_str());
        fail( classify( have, want, got), "control arrived at: %s; the model expects: %s", g.c_str(), w.c_str());
        M->diverged = true;
        abandon();
    }
    ++M->qh;
    if ( M->qh == M->q.size()) { M->q.clear(); M->qh = 0; }
    note( "    -> %s", show( got).c_str());
    observe( mix( mix( mix( t, a), mix( b, kind)), code));
    if ( flight.active && t != E_GUARD) {
        flight.active = false;
        if ( flight.src && t != E_THROWN && pay_info[flight.pay].tracked) {
            ++n_checks;
            if ( flight.mode == PM_LV || flight.mode == PM_CLV) {
                if ( ! flight.src->ok() || flight.src->moved || flight.src->vid != flight.vid) fail( COPYMOVE, "a pushed lvalue was moved from or changed by the push");
            } else if ( flight.mode == PM_XV && t != E_THROWN && pay_info[flight.pay].movable) {
                if ( flight.src->ok() && ! flight.src->moved) fail( COPYMOVE, "a pushed rvalue was not moved");
            }
        }
        if ( ( flight.mode == PM_RV || flight.mode == PM_XV) && t != E_THROWN && pay_info[flight.pay].tracked && pay_info[flight.pay].movable) {
            ++n_checks;
            if ( W.copies != flight.copies0) fail( COPYMOVE, "a pushed rvalue was copied");
        }
    }
}

struct Guard { int k, id; Guard( int k_, int i) : k( k_), id( i) {} ~Guard() { if ( id >= 0) arrive( E_GUARD, k, id); } };
struct LocalOwner {
    std::vector< int > idx; bool armed;
    LocalOwner() : armed( true) {}
    ~LocalOwner() { for ( std::size_t i = 0; i < idx.size(); ++i) { IHandle * h = M->slot[idx[i]].real; M->slot[idx[i]].real = 0; delete h; } }
};

int top() { return M->chain.back(); }
bool in_chain( int k) { return M->cor[k].st == CHAIN; }

// may everything owned by coroutine k be destroyed now?
bool can_destroy( int k) {
    if ( k < 0) return true;
    if ( in_chain( k)) return false;
    Ctx & c = M->ctx[k];
    for ( std::size_t f = 0; f < c.frames.size(); ++f)
        for ( std::size_t i = 0; i < c.frames[f].slots.size(); ++i) {
            Slot & s = M->slot[c.frames[f].slots[i]];
            if ( s.reserved) return false;
            if ( s.used && s.cor >= 0 && ! can_destroy( s.cor)) return false;
        }
    return true;
}
bool frames_free( int k, int from) {
    Ctx & c = M->ctx[k];
    for ( std::size_t f = from; f < c.frames.size(); ++f)
        for ( std::size_t i = 0; i < c.frames[f].slots.size(); ++i) {
            Slot & s = M->slot[c.frames[f].slots[i]];
            if ( s.reserved) return false;
            if ( s.used && s.cor >= 0 && ! can_destroy( s.cor)) return false;
        }
    return true;
}
void model_kill( int k);
void model_pop_frame( int k) {
    Frame f = M->ctx[k].frames.back();
    M->ctx[k].frames.pop_back();
    for ( std::size_t i = 0; i < f.slots.size(); ++i) {
        Slot & s = M->slot[f.slots[i]];
        if ( s.used) { s.used = false; int c = s.cor; s.cor = -1; if ( c >= 0) model_kill( c); }
        s.ctx = -2;                       // gone
    }
    if ( f.guard >= 0) expect( E_GUARD, k, f.guard);
}
void model_unwind( int k) { while ( ! M->ctx[k].frames.empty()) model_pop_frame( k); }
void model_kill( int k) {
    if ( M->cor[k].st == SUSP && M->cor[k].entered) model_unwind( k);
    M->cor[k].st = DEAD; M->cor[k].has = false; M->cor[k].slot = -1;
}

std::uint64_t model_hash() {
    std::uint64_t h = 17;
    for ( std::size_t i = 0; i < M->chain.size(); ++i) h = mix( h, M->chain[i]);
    for ( std::size_t k = 1; k < M->cor.size(); ++k) {
        Cor & c = M->cor[k];
        h = mix( h, c.kind * 64 + c.pay * 4 + 1); h = mix( h, c.st * 16 + c.has * 8 + c.taken * 4 + c.entered * 2 + c.ever);
        h = mix( h, M->ctx[k].frames.size() + 100 * M->ctx[k].pcreate);
    }
    for ( std::size_t i = 0; i < M->slot.size(); ++i) { Slot & s = M->slot[i]; h = mix( h, s.used * 4 + s.reserved * 2 + ( s.ctx == -2)); h = mix( h, s.used ? s.cor + 2 : 0); h = mix( h, s.kind * 32 + s.pay); }
    return h;
}

// invariants on the whole state, checked whenever control is at rest in a context
void look_around() {
    if ( M->diverged) return;
    int me = top();
    const void * here = __builtin_frame_address( 0);
    if ( me) {
        Cor & c = M->cor[me];
        if ( c.aid >= 0) { ++n_checks; int b = block_of( here); if ( b != c.blk) fail( STACK, "coroutine %d does not run on its own stack", me); }
    } else { ++n_checks; if ( block_of( here) >= 0) fail( CONTROL, "main runs on a coroutine stack"); }
    std::uint64_t ob = 5;
    int may_hold = 0;
    for ( std::size_t i = 0; i < M->slot.size(); ++i) {
        Slot & s = M->slot[i];
        if ( ! s.used || ! s.real) continue;
        if ( s.cor < 0) {
            if ( s.real->valid()) fail( BOOLV, "object in slot %d is not-a-coroutine (moved from, or its function ended during construction) but converts to true", (int) i);
            continue;
        }
        Cor & c = M->cor[s.cor];
        bool v = false;
        if ( c.st == CHAIN) {
            if ( c.kind == PUSH || c.pay == P_VOID) { if ( ! s.real->valid()) fail( BOOLV, "object of running coroutine %d converts to false", s.cor); }
            continue;
        }
        v = s.real->valid();
        bool want = c.kind == PUSH ? ( c.st == UNENT || c.st == SUSP) : ( c.st == SUSP && ( c.pay == P_VOID || c.has));
        if ( v != want) fail( BOOLV, "object of %s coroutine %d converts to %s, expected %s", c.st == DONE ? "complete" : c.st == UNENT ? "not yet entered" : "suspended", s.cor, v ? "true" : "false", want ? "true" : "false");
        ob = mix( ob, v);
        if ( c.kind == PULL && c.st == SUSP && c.has && ! c.taken && c.pay != P_VOID && v) {
            ++n_checks;
            int r = s.real->read( RM_DEREF);
            if ( r != c.val) fail( pay_info[c.pay].ref ? REFID : VALUE, "value of coroutine %d reads as %d, expected %d", s.cor, r, c.val);
            if ( ! s.real->valid()) fail( BOOLV, "looking at the value of coroutine %d made it invalid", s.cor);
            ob = mix( ob, r);
        }
    }
    if ( me && M->ctx[me].self) {
        Cor & c = M->cor[me];
        bool v = M->ctx[me].self->valid();
        bool want = c.kind == PULL || c.pay == P_VOID || c.has;
        if ( v != want) fail( BOOLV, "counterpart object inside coroutine %d converts to %s", me, v ? "true" : "false");
        if ( c.kind == PUSH && c.pay != P_VOID && c.has && ! c.taken && v) {
            ++n_checks;
            int r = M->ctx[me].self->read( RM_DEREF);
            if ( r != c.val) fail( pay_info[c.pay].ref ? REFID : VALUE, "coroutine-function %d reads %d, expected %d", me, r, c.val);
            ob = mix( ob, r);
        }
    }
    int minst = 0;
    for ( std::size_t k = 1; k < M->cor.size(); ++k) {
        Cor & c = M->cor[k];
        if ( c.st != DEAD && c.ever) ++may_hold;
        if ( c.aid >= 0 && c.blk >= 0) {
            ++n_checks;
            bool live = W.blk[c.blk].live && W.blk[c.blk].serial == c.serial;
            if ( c.st == DEAD && live) fail( STACK, "the stack of coroutine %d is still allocated although its object was destroyed or its construction failed", (int) k);
            if ( ( c.st == SUSP || c.st == CHAIN || c.st == UNENT) && ! live) { fail( STACK, "the stack of coroutine %d was released while it is in use", (int) k); abandon(); }
            if ( c.st != DEAD && c.st != DONE) ++minst;
        }
        if ( c.st == DONE || c.st == DEAD) {
            ++n_checks;
            if ( tok_holding( k)) fail( FUNCTOR, "coroutine %d has ended but what its function captured is not released", (int) k);
            if ( c.st == DEAD && tok_live( k)) fail( FUNCTOR, "the callable of destroyed coroutine %d is not destroyed", (int) k);
        }
    }
    int flightslack = 0;
    for ( std::size_t i = 0; i < M->chain.size(); ++i) if ( M->ctx[M->chain[i]].ptransfer) ++flightslack;
    ++n_checks;
    if ( W.nlib > may_hold + flightslack) fail( LIFE, "the library holds %d payload objects, at most %d can be current", W.nlib, may_hold + flightslack);
    if ( W.live_stacks < minst) fail( STACK, "only %d stacks allocated for %d coroutines", W.live_stacks, minst);
    ob = mix( ob, W.nlib); ob = mix( ob, W.live_stacks);
    observe( ob);
    state( model_hash());
}

// ---------------------------------------------------------------- operations
struct OpRec { int code, a, b, c; };

// performs a real operation in context x; compares how it ends with the model
template< class F > ExcInfo perform( int x, F f) {
    int seq = ++M->ctx[x].seq;
    ExcInfo e = catching( f);
    M->ctx[x].pcreate = false; M->ctx[x].ptransfer = false;
    if ( e.kind) arrive( E_THROWN, x, seq, e.kind, e.code); else arrive( E_RET, x, seq);
    return e;
}
// ... inside a handler of another exception (1) or in a destructor while another exception is propagating (2)
template< class F > ExcInfo perform_in( int x, int how, F f) {
    if ( ! how) return perform( x, f);
    ExcInfo r;
    if ( how == 1) {
        try { throw AppExc( 999); }
        catch ( AppExc const& a) {
            r = perform( x, f);
            ++n_checks;
            if ( a.code != 999) fail( EXC, "an exception being handled was damaged by an operation");
            bool same = false;
            try { throw; } catch ( AppExc const& b) { same = b.code == 999; } catch ( ...) {}
            if ( ! same) fail( EXC, "the exception being handled is another one after an operation");
        }
    } else {
        bool ok = false;
        struct D { int x; F & f; ExcInfo & r; ~D() { r = perform( x, f); } };
        try { D d = { x, f, r }; (void) d; throw AppExc( 998); }
        catch ( AppExc const& a) { ok = a.code == 998; }
        ++n_checks;
        if ( ! ok) fail( EXC, "the exception that was propagating during an operation was damaged");
    }
    return r;
}
const char * const how_name[] = { "", " (inside a catch handler)", " (in a destructor, while an exception is propagating)" };
int next_seq( int x) { return M->ctx[x].seq + 1; }
void will_return( int x) { expect( E_RET, x, M->ctx[x].seq); }

int new_val( Pay p) { int v = M->nextval++; return pay_info[p].ref ? v % NREF : v; }

// model: coroutine k (top of chain) stops running because of yield / return / exception
void model_leave( int k, St st) {
    M->chain.pop_back();
    Cor & c = M->cor[k];
    c.st = st;
    Ctx & x = M->ctx[top()];
    if ( x.pcreate && x.pcor == k) {
        Slot & s = M->slot[x.pslot];
        s.reserved = false;
        if ( st == DEAD) { s.used = false; s.cor = -1; c.slot = -1; }       // construction failed
        else { s.used = true; s.kind = c.kind; s.pay = c.pay; s.cor = k; c.slot = x.pslot; }
        if ( st == DONE) { c.has = false; }
    }
    if ( st != SUSP) c.has = false;
}

ExcInfo do_create( int x, Create const& cr, int si, int fail_kind, int how) {
    int k = M->cor.size();
    Cor c; c.kind = cr.kind; c.pay = cr.pay; c.st = UNENT; c.slot = -1; c.has = c.taken = c.ever = c.entered = false; c.val = 0; c.blk = -1; c.serial = 0; c.depth_max = 0;
    c.aid = cr.amode == AM_DEFAULT ? -1 : 10 + k;
    M->cor.push_back( c);
    Ctx n; n.seq = 0; n.pslot = n.pcor = -1; n.pcreate = n.ptransfer = false; n.self = 0; M->ctx.push_back( n);
    Slot & s = M->slot[si];
    note( "  ctx %d: create coroutine %d: %s<%s> in slot %d (allocator %s, callable %s)%s%s", x, k, cr.kind == PULL ? "pull" : "push", pay_name[cr.pay], si,
          cr.amode == AM_DEFAULT ? "default" : cr.amode == AM_LV ? "lvalue" : "rvalue", cr.fmode == FM_RV ? "rvalue" : "lvalue",
          fail_kind == 1 ? ", the allocation fails" : fail_kind == 2 ? ", copying the callable throws" : "", how_name[how]);
    unsigned long a0 = W.allocs;
    if ( fail_kind) {
        M->cor[k].st = DEAD;
        expect( E_THROWN, x, next_seq( x), fail_kind == 1 ? X_ALLOC : X_TOK, fail_kind == 1 ? 10 + k : 1);
        if ( fail_kind == 1) W.fail_alloc = 1; else W.tok_fail = 1;
    } else {
        M->ctx[x].pcreate = true; M->ctx[x].pslot = si; M->ctx[x].pcor = k;
        if ( cr.kind == PULL) {
            s.reserved = true;
            M->cor[k].st = CHAIN; M->chain.push_back( k); expect( E_ENTRY, k);
        } else {
            M->cor[k].slot = si;
            s.used = true; s.kind = cr.kind; s.pay = cr.pay; s.cor = k;
            expect( E_RET, x, next_seq( x));
        }
    }
    IHandle * h = 0;
    CreateFn fn = creators[cr.kind][cr.pay];
    int am = cr.amode, fm = cr.fmode, aid = 10 + k;
    ExcInfo e = perform_in( x, how, [&]() { h = fn( am, fm, aid, k); });
    W.fail_alloc = 0; W.tok_fail = 0;
    M->slot[si].real = h;
    if ( fail_kind) { ++n_checks; if ( fail_kind == 1 && W.allocs != a0) fail( STACK, "stack allocated although the allocation failed"); }
    else if ( cr.kind == PUSH && M->cor[k].aid >= 0) {
        ++n_checks;
        if ( W.allocs != a0 + 1) fail( STACK, "constructing a coroutine took %lu stacks from its allocator", W.allocs - a0);
        else { M->cor[k].blk = W.last_blk; M->cor[k].serial = W.blk[W.last_blk].serial; if ( W.blk[W.last_blk].aid != aid) fail( STACK, "the stack was taken from another allocator"); }
    }
    return e;
}

// resume the coroutine in slot si from context x
ExcInfo do_next( int x, int si, int pm, int inject, int how) {
    Slot & s = M->slot[si];
    int k = s.cor; Cor & c = M->cor[k];
    int v = 0;
    note( "  ctx %d: %s coroutine %d%s%s%s", x, c.kind == PULL ? "resume" : "push to", k, c.kind == PUSH && c.pay != P_VOID ? ", " : "", c.kind == PUSH && c.pay != P_VOID ? pmode_name[pm] : "",
          inject ? " (copying/moving the value throws)" : how_name[how]);
    IHandle * h = s.real;
    if ( inject) {
        v = new_val( c.pay);
        c.has = false; c.taken = false;
        expect( E_THROWN, x, next_seq( x), X_INJ, 4711);
        return perform( x, [&]() { h->push( v, pm, 1); });
    }
    M->ctx[x].ptransfer = c.kind == PUSH && c.pay != P_VOID;
    if ( c.kind == PUSH && c.pay != P_VOID) { v = new_val( c.pay); c.val = v; c.has = true; c.taken = false; if ( ! pay_info[c.pay].ref) c.ever = true; }
    M->chain.push_back( k);
    bool entered = c.entered;
    c.st = CHAIN;
    if ( ! entered) expect( E_ENTRY, k); else expect( E_RET, k, M->ctx[k].seq);
    bool push = c.kind == PUSH;
    return perform_in( x, how, [&]() { if ( push) h->push( v, pm, 0); else h->resume(); });
}

// the running coroutine x suspends
ExcInfo do_yield( int x, int pm, int inject) {
    Cor & c = M->cor[x];
    IHandle * self = M->ctx[x].self;
    int v = 0;
    note( "  ctx %d: yield%s%s%s", x, c.kind == PULL && c.pay != P_VOID ? " " : "", c.kind == PULL && c.pay != P_VOID ? pmode_name[pm] : "", inject ? " (copying/moving the value throws)" : "");
    if ( inject) {
        v = new_val( c.pay);
        c.has = false; c.taken = false;
        expect( E_THROWN, x, next_seq( x), X_INJ, 4711);
        return perform( x, [&]() { self->push( v, pm, 1); });
    }
    M->ctx[x].ptransfer = c.kind == PULL && c.pay != P_VOID;
    if ( c.kind == PULL) { if ( c.pay != P_VOID) { v = new_val( c.pay); c.val = v; c.has = true; c.taken = false; if ( ! pay_info[c.pay].ref) c.ever = true; } }
    model_leave( x, SUSP);
    will_return( top());
    bool pull = c.kind == PULL;
    return perform( x, [&]() { if ( pull) self->push( v, pm, 0); else self->resume(); });
}

void do_destroy( int x, int si, bool unw) {
    Slot & s = M->slot[si];
    int k = s.cor;
    note( "  ctx %d: destroy object in slot %d (%s%d)%s", x, si, k < 0 ? "empty " : "coroutine ", k, unw ? " while an exception is propagating" : "");
    s.used = false; s.cor = -1;
    if ( k >= 0) model_kill( k);
    expect( E_RET, x, next_seq( x));
    IHandle * h = s.real; s.real = 0;
    if ( unw) {
        bool ok = false;
        try {
            struct D { IHandle * h; ~D() { delete h; } } d = { h }; (void) d;
            throw AppExc( 31337);
        } catch ( AppExc const& e) { ok = e.code == 31337; }
        ++n_checks;
        if ( ! ok) fail( UNWIND, "the exception that was propagating during the destruction was damaged");
        perform( x, []() {});
    } else perform( x, [&]() { delete h; });
}

void do_move_construct( int x, int src, int dst) {
    note( "  ctx %d: move-construct slot %d from slot %d", x, dst, src);
    Slot & a = M->slot[src], & b = M->slot[dst];
    b.used = true; b.kind = a.kind; b.pay = a.pay; b.cor = a.cor; a.cor = -1;
    if ( b.cor >= 0) M->cor[b.cor].slot = dst;
    expect( E_RET, x, next_seq( x));
    perform( x, [&]() { IHandle * n = M->slot[src].real->move_new(); M->slot[dst].real = n; });
}
void do_move_assign( int x, int src, int dst) {
    note( "  ctx %d: move-assign slot %d = std::move(slot %d)", x, dst, src);
    Slot & a = M->slot[src], & b = M->slot[dst];
    if ( src != dst) {
        int old = b.cor;
        b.cor = a.cor; a.cor = -1;
        if ( b.cor >= 0) M->cor[b.cor].slot = dst;
        if ( old >= 0) model_kill( old);
    }
    expect( E_RET, x, next_seq( x));
    perform( x, [&]() { M->slot[dst].real->assign( * M->slot[src].real); });
}
void do_swap( int x, int src, int dst) {
    note( "  ctx %d: swap slots %d and %d", x, src, dst);
    Slot & a = M->slot[src], & b = M->slot[dst];
    std::swap( a.cor, b.cor);
    if ( a.cor >= 0) M->cor[a.cor].slot = src;
    if ( b.cor >= 0) M->cor[b.cor].slot = dst;
    expect( E_RET, x, next_seq( x));
    perform( x, [&]() { M->slot[dst].real->swap( * M->slot[src].real); });
}
void do_read( int x, int si, int mode) {
    bool self = si < 0;
    int k = self ? x : M->slot[si].cor;
    Cor & c = M->cor[k];
    note( "  ctx %d: read value of coroutine %d by %s", x, k, mode == RM_GET ? "get()" : mode == RM_DEREF ? "*begin()" : mode == RM_ARROW ? "begin().operator->" : "*begin(c)");
    int want = c.val; Pay pay = c.pay;
    if ( mode == RM_GET && ! pay_info[c.pay].reread) c.taken = true;
    IHandle * h = self ? M->ctx[x].self : M->slot[si].real;
    int r = -1;
    expect( E_RET, x, next_seq( x));
    perform( x, [&]() { r = h->read( mode); });
    ++n_checks;
    if ( r != want) fail( pay_info[pay].ref ? REFID : VALUE, "reading coroutine %d gives %d, expected %d", k, r, want);
    observe( r);
}

bool usable( Slot & s) { return s.used && s.real && s.cor >= 0 && ( M->cor[s.cor].st == SUSP || M->cor[s.cor].st == UNENT); }

// ---------------------------------------------------------------- choosing
void options( int x, std::vector< OpRec > & o) {
    Cfg const& f = * M->cfg;
    unsigned ops = x ? f.body_ops : f.main_ops;
    auto add = [&]( int code, int a = 0, int b = 0, int c = 0) { OpRec r = { code, a, b, c }; o.push_back( r); };
    int n = M->slot.size();
    Cor * me = x ? & M->cor[x] : 0;
    std::vector< Frame > & fr = M->ctx[x].frames;
    // default first: keep going
    if ( x && ( ops & B_( O_NEXT))) {
        if ( me->kind == PULL && me->pay != P_VOID) { for ( std::size_t i = 0; i < f.pmodes.size(); ++i) if ( ( f.pmodes[i] != PM_LV && f.pmodes[i] != PM_CLV) || pay_info[me->pay].copyable) { if ( ! pay_info[me->pay].ref || i == 0) add( O_NEXT, -1, f.pmodes[i]); } }
        else add( O_NEXT, -1, 0);
    }
    if ( ops & B_( O_NEXT)) {
        for ( int i = 0; i < n; ++i) {
            Slot & s = M->slot[i];
            if ( ! usable( s)) continue;
            Cor & c = M->cor[s.cor];
            if ( c.kind == PULL && c.pay != P_VOID && ! c.has) continue;       // not valid: resuming is not allowed
            if ( c.kind == PUSH && c.pay != P_VOID && ! pay_info[c.pay].ref) { for ( std::size_t j = 0; j < f.pmodes.size(); ++j) if ( ( f.pmodes[j] != PM_LV && f.pmodes[j] != PM_CLV) || pay_info[c.pay].copyable) add( O_NEXT, i, f.pmodes[j]); }
            else add( O_NEXT, i, 0);
        }
    }
    if ( ( ops & B_( O_CREATE)) && (int) M->cor.size() - 1 < f.maxcor) {
        // first free global slot, first free local slot of the running frame
        for ( int loc = 0; loc < 2; ++loc) {
            int si = -1;
            if ( ! loc) { for ( int i = 0; i < f.gslots; ++i) if ( ! M->slot[i].used && ! M->slot[i].reserved) { si = i; break; } if ( si < 0) continue; }
            else { if ( ! x || fr.empty() || (int) fr.back().slots.size() >= f.lslots) continue; si = -2; }
            for ( std::size_t j = 0; j < f.creates.size(); ++j) add( O_CREATE, si, j, 0);
        }
    }
    if ( ops & B_( O_READ)) {
        if ( x && me->kind == PUSH && me->pay != P_VOID && me->has && ! me->taken) for ( std::size_t j = 0; j < f.rmodes.size(); ++j) add( O_READ, -1, f.rmodes[j]);
        for ( int i = 0; i < n; ++i) {
            Slot & s = M->slot[i];
            if ( ! s.used || ! s.real || s.cor < 0) continue;
            Cor & c = M->cor[s.cor];
            if ( c.kind == PULL && c.st == SUSP && c.pay != P_VOID && c.has && ! c.taken) for ( std::size_t j = 0; j < f.rmodes.size(); ++j) add( O_READ, i, f.rmodes[j]);
        }
    }
    if ( x && ( ops & B_( O_RETURN)) && frames_free( x, 0)) add( O_RETURN);
    if ( x && ( ops & B_( O_CALL)) && (int) fr.size() < f.maxframe) add( O_CALL);
    if ( x && ( ops & B_( O_RET)) && fr.size() > 1 && frames_free( x, fr.size() - 1)) add( O_RET);
    if ( x && ( ops & B_( O_THROW)) && frames_free( x, 0)) for ( std::size_t j = 0; j < f.xkinds.size(); ++j) add( O_THROW, f.xkinds[j]);
    for ( int i = 0; i < n; ++i) {
        Slot & s = M->slot[i];
        if ( ! s.used || ! s.real) continue;
        bool chained = s.cor >= 0 && in_chain( s.cor);
        if ( ! chained && can_destroy( s.cor)) {
            if ( ops & B_( O_DESTROY)) add( O_DESTROY, i);
            if ( ops & B_( O_DESTROY_UNW)) add( O_DESTROY_UNW, i);
        }
        if ( chained && ! f.active_move) continue;
        if ( ops & B_( O_SELFMOVE)) add( O_SELFMOVE, i);
        if ( ops & B_( O_MOVEC)) { for ( int j = 0; j < f.gslots; ++j) if ( ! M->slot[j].used && ! M->slot[j].reserved) { add( O_MOVEC, i, j); break; } }
        if ( ops & ( B_( O_MOVEA) | B_( O_SWAP))) for ( int j = 0; j < n; ++j) {
            Slot & d = M->slot[j];
            if ( j == i || ! d.used || ! d.real || d.kind != s.kind || d.pay != s.pay) continue;
            bool dch = d.cor >= 0 && in_chain( d.cor);
            // the coroutine must not end up inside itself: a frame of coroutine k never owns k or an owner of k
            if ( ( ops & B_( O_MOVEA)) && ! dch && can_destroy( d.cor)) add( O_MOVEA, i, j);
            if ( ( ops & B_( O_SWAP)) && i < j && ( ! dch || f.active_move)) add( O_SWAP, i, j);
        }
    }
    if ( x && ( ops & B_( O_SYNMOVE))) add( O_SYNMOVE);
    if ( ops & B_( O_FAILPUSH)) {
        if ( x && me->kind == PULL && pay_info[me->pay].tracked) { if ( pay_info[me->pay].copyable) add( O_FAILPUSH, -1, PM_LV); add( O_FAILPUSH, -1, PM_XV); }
        for ( int i = 0; i < n; ++i) if ( usable( M->slot[i])) { Cor & c = M->cor[M->slot[i].cor]; if ( c.kind == PUSH && pay_info[c.pay].tracked) { if ( pay_info[c.pay].copyable) add( O_FAILPUSH, i, PM_LV); add( O_FAILPUSH, i, PM_XV); } }
    }
    if ( ( ops & B_( O_FAILCREATE)) && (int) M->cor.size() - 1 < f.maxcor) {
        int si = -1;
        for ( int i = 0; i < f.gslots; ++i) if ( ! M->slot[i].used && ! M->slot[i].reserved) { si = i; break; }
        if ( si >= 0) for ( std::size_t j = 0; j < f.creates.size(); ++j) {
            if ( f.creates[j].amode != AM_DEFAULT) add( O_FAILCREATE, si, j, 1);
            if ( f.creates[j].fmode != FM_RV) add( O_FAILCREATE, si, j, 2);
        }
    }
    if ( ops & ( B_( O_NEXT_IN_CATCH) | B_( O_NEXT_UNW))) for ( int i = 0; i < n; ++i) if ( usable( M->slot[i])) {
        Cor & c = M->cor[M->slot[i].cor];
        if ( c.kind == PULL && c.pay != P_VOID && ! c.has) continue;
        if ( ops & B_( O_NEXT_IN_CATCH)) add( O_NEXT_IN_CATCH, i, f.pmodes.empty() ? 0 : f.pmodes[0]);
        if ( ops & B_( O_NEXT_UNW)) add( O_NEXT_UNW, i, f.pmodes.empty() ? 0 : f.pmodes[0]);
    }
    if ( ( ops & ( B_( O_CREATE_IN_CATCH) | B_( O_CREATE_UNW))) && (int) M->cor.size() - 1 < f.maxcor) {
        int si = -1;
        for ( int i = 0; i < f.gslots; ++i) if ( ! M->slot[i].used && ! M->slot[i].reserved) { si = i; break; }
        if ( si >= 0) for ( std::size_t j = 0; j < f.creates.size(); ++j) {
            if ( ops & B_( O_CREATE_IN_CATCH)) add( O_CREATE_IN_CATCH, si, j, 0);
            if ( ops & B_( O_CREATE_UNW)) add( O_CREATE_UNW, si, j, 0);
        }
    }
}
bool owns( int k, int target) {       // does a frame of coroutine k (transitively) own `target`?
    if ( k == target) return true;
    Ctx & c = M->ctx[k];
    for ( std::size_t f = 0; f < c.frames.size(); ++f) for ( std::size_t i = 0; i < c.frames[f].slots.size(); ++i) {
        Slot & s = M->slot[c.frames[f].slots[i]];
        if ( s.used && s.cor >= 0 && owns( s.cor, target)) return true;
        if ( s.reserved && c.pcreate && c.pslot == c.frames[f].slots[i] && owns( c.pcor, target)) return true;
    }
    return false;
}
// moving coroutine k into slot j must not make k (transitively) own itself
bool cyclic( int k, int j) {
    if ( k < 0) return false;
    int o = M->slot[j].ctx;
    if ( o <= 0) return false;
    return owns( k, o);
}

OpRec pick( int x) {
    OpRec fin = { O_FINISH, 0, 0, 0 };
    if ( M->finishing || M->used >= M->D) { M->finishing = true; return fin; }
    static std::vector< OpRec > o;
    o.clear();
    options( x, o);
    std::size_t w = 0;
    for ( std::size_t i = 0; i < o.size(); ++i) {
        bool bad = false;
        if ( o[i].code == O_MOVEC || o[i].code == O_MOVEA) bad = cyclic( M->slot[o[i].a].cor, o[i].b);
        if ( o[i].code == O_SWAP) bad = cyclic( M->slot[o[i].a].cor, o[i].b) || cyclic( M->slot[o[i].b].cor, o[i].a);
        if ( ! bad) o[w++] = o[i];
    }
    o.resize( w);
    if ( o.empty()) { M->finishing = x == 0; return fin; }
    ++M->used;
    int i = 0;
    if ( M->cfg->dev) { if ( M->devs < M->cfg->dev) { i = choose( o.size()); if ( i) ++M->devs; } }
    else i = choose( o.size());
    OpRec r = o[i];
    std::uint64_t oph = mix( mix( r.code, r.a + 7), mix( r.b + 3, r.c));
    observe( oph);
    transition( model_hash(), oph);
    if ( B_( r.code) & ( B_( O_MOVEC) | B_( O_MOVEA) | B_( O_SELFMOVE) | B_( O_SWAP) | B_( O_SYNMOVE))) relevant( R_MOVE);
    if ( B_( r.code) & B_( O_FAILPUSH)) relevant( R_FAIL);
    if ( B_( r.code) & B_( O_THROW)) relevant( R_THROW);
    if ( r.code == O_CREATE && M->cor.size() > 1) relevant( R_MULTI);
    return r;
}

// ---------------------------------------------------------------- threads (operations of main may run on other threads)
struct Mover {
    pthread_t th[3]; sem_t go[3], done[3]; std::function< void() > job[3]; bool up;
    static void * loop( void * p) {
        std::pair< Mover *, int > a = * static_cast< std::pair< Mover *, int > * >( p);
        for (;;) { sem_wait( & a.first->go[a.second]); a.first->job[a.second](); sem_post( & a.first->done[a.second]); }
        return 0;
    }
    std::pair< Mover *, int > arg[3];
    Mover() : up( false) {}
    void start() {
        if ( up) return;
        up = true;
        for ( int i = 0; i < 3; ++i) { sem_init( & go[i], 0, 0); sem_init( & done[i], 0, 0); arg[i] = std::make_pair( this, i); pthread_create( & th[i], 0, loop, & arg[i]); }
    }
    void on( int t, std::function< void() > f) { if ( t == 0) { f(); return; } --t; job[t] = f; sem_post( & go[t]); sem_wait( & done[t]); job[t] = nullptr; }
} mover;

int agent( int k, int depth);

// what happens with an exception that arrived at context x: swallow (0) or pass it on (1)
void pass_on( int x, ExcInfo & e) {
    note( "  ctx %d: passes the exception on", x);
    model_unwind( x);
    model_leave( x, M->ctx[M->chain[M->chain.size() - 2]].pcreate && M->ctx[M->chain[M->chain.size() - 2]].pcor == x ? DEAD : DONE);
    expect( E_THROWN, top(), M->ctx[top()].seq, e.kind, e.code);
    std::exception_ptr p; p.swap( e.ptr);
    std::rethrow_exception( p);
}
void after( int x, ExcInfo & e) {
    look_around();
    if ( ! e.kind) return;
    if ( x && e.kind != X_INJ && ( M->cfg->body_ops & B_( O_THROW)) && frames_free( x, 0) && ! M->finishing && choose( 2)) pass_on( x, e);
    if ( x && e.kind == X_INJ && frames_free( x, 0) && choose( 2)) pass_on( x, e);
    e.ptr = nullptr;
    look_around();
}

// one operation; returns true if the frame ends, -1 level in ret
enum Flow { GO_ON, LEAVE_FRAME, LEAVE_ALL };
Flow step( int x, int depth, LocalOwner & lo, OpRec r) {
    (void) depth;
    ExcInfo e;
    switch ( r.code) {
    case O_FINISH:
        if ( ! x) return LEAVE_ALL;
        if ( ! frames_free( x, 0)) { do_yield( x, pay_info[M->cor[x].pay].movable ? PM_RV : PM_RV, 0); look_around(); return GO_ON; }
        // fall through
    case O_RETURN: {
        note( "  ctx %d: returns", x);
        model_unwind( x);
        model_leave( x, DONE);
        will_return( top());
        return LEAVE_ALL;
    }
    case O_NEXT: if ( r.a < 0) e = do_yield( x, r.b, 0); else e = do_next( x, r.a, r.b, 0, 0); break;
    case O_NEXT_IN_CATCH: e = do_next( x, r.a, r.b, 0, 1); break;
    case O_NEXT_UNW: e = do_next( x, r.a, r.b, 0, 2); break;
    case O_FAILPUSH: if ( r.a < 0) e = do_yield( x, r.b, 1); else e = do_next( x, r.a, r.b, 1, 0); break;
    case O_READ: do_read( x, r.a, r.b); break;
    case O_CREATE: case O_CREATE_IN_CATCH: case O_CREATE_UNW: case O_FAILCREATE: {
        int si = r.a;
        if ( si == -2) {
            Slot s; s.used = s.reserved = false; s.cor = -1; s.kind = PULL; s.pay = P_VOID; s.ctx = x; s.frame = M->ctx[x].frames.size() - 1; s.real = 0;
            si = M->slot.size(); M->slot.push_back( s);
            M->ctx[x].frames.back().slots.push_back( si); lo.idx.push_back( si);
        }
        Create cr = M->cfg->creates[r.b];
        e = do_create( x, cr, si, r.code == O_FAILCREATE ? r.c : 0, r.code == O_CREATE_IN_CATCH ? 1 : r.code == O_CREATE_UNW ? 2 : 0);
        break;
    }
    case O_DESTROY: do_destroy( x, r.a, false); break;
    case O_DESTROY_UNW: do_destroy( x, r.a, true); break;
    case O_MOVEC: do_move_construct( x, r.a, r.b); break;
    case O_MOVEA: do_move_assign( x, r.a, r.b); break;
    case O_SELFMOVE: do_move_assign( x, r.a, r.a); break;
    case O_SWAP: do_swap( x, r.a, r.b); break;
    case O_CALL: {
        note( "  ctx %d: calls a nested function", x);
        if ( agent( x, depth + 1) == LEAVE_ALL) return LEAVE_ALL;
        break;
    }
    case O_RET: note( "  ctx %d: returns from the nested function", x); model_pop_frame( x); return LEAVE_FRAME;
    case O_THROW: {
        int code = ++M->nexcode;
        note( "  ctx %d: throws %d(%d)", x, r.a, code);
        model_unwind( x);
        bool ctor = M->ctx[M->chain[M->chain.size() - 2]].pcreate && M->ctx[M->chain[M->chain.size() - 2]].pcor == x;
        model_leave( x, ctor ? DEAD : DONE);
        expect( E_THROWN, top(), M->ctx[top()].seq, r.a, code);
        throw_app( r.a, code);
    }
    case O_SYNMOVE: note( "  ctx %d: moves its counterpart object", x); expect( E_RET, x, next_seq( x)); { IHandle * h = M->ctx[x].self; e = perform( x, [&]() { h->toggle(); }); } break;
    default: fail( HARNESS, "bad op");
    }
    after( x, e);
    return GO_ON;
}

int agent( int x, int depth) {
    volatile unsigned canary[16];
    for ( int i = 0; i < 16; ++i) canary[i] = x * 977 + depth * 31 + i;
    int gid = -1;
    Frame f; 
    if ( x) gid = ++M->nextguard;
    f.guard = gid;
    M->ctx[x].frames.push_back( f);
    Guard g( x, gid);
    LocalOwner lo;
    for (;;) {
        OpRec r = pick( x);
        Flow fl = GO_ON;
        if ( x == 0 && M->cfg->threads) {
            int t = r.code == O_FINISH ? 0 : choose( M->cfg->threads);
            if ( t) { note( "  (on thread %d)", t); relevant( R_THREAD); }
            mover.on( t, [&]() { fl = step( x, depth, lo, r); });
        } else fl = step( x, depth, lo, r);
        ++n_checks;
        for ( int i = 0; i < 16; ++i) if ( canary[i] != (unsigned) ( x * 977 + depth * 31 + i)) { fail( EXEC, "local variables of context %d changed across an operation", x); abandon(); }
        if ( fl != GO_ON) return fl;
    }
}

} // namespace

void run_body( int k, IHandle & self) {
    const void * here = __builtin_frame_address( 0);
    arrive( E_ENTRY, k);
    Cor & c = M->cor[k];
    c.entered = true;
    M->ctx[k].self = & self;
    if ( c.aid >= 0) {
        int b = block_of( here);
        ++n_checks;
        if ( c.kind == PULL) {
            // the construction has taken exactly one stack, and this function runs on it
            if ( b < 0) { fail( STACK, "the function of coroutine %d does not run on a stack of its allocator", k); }
            else { c.blk = b; c.serial = W.blk[b].serial; if ( W.blk[b].aid != c.aid) fail( STACK, "coroutine %d runs on a stack of another allocator", k); if ( W.last_blk != b) fail( STACK, "constructing a coroutine took more than one stack"); }
        } else if ( b != c.blk) fail( STACK, "the function of coroutine %d does not run on the stack that was allocated for it", k);
    }
    look_around();
    struct SelfReset { int k; ~SelfReset() { M->ctx[k].self = 0; } } sr = { k }; (void) sr;
    agent( k, 0);
}

static void machine_run( Cfg const& cfg) {
    Machine m;
    M = & m;
    m.cfg = & cfg;
    m.used = 0; m.devs = 0; m.qh = 0; m.nextval = 1; m.nextguard = 0; m.nexcode = 0; m.finishing = false; m.diverged = false;
    flight.active = false;
    if ( cfg.dev) m.D = cfg.horizon; else m.D = 1 + choose( cfg.depth);
    if ( cfg.dev && cfg.horizon > 6) { static const int div[] = { 1, 2, 4 }; m.D = cfg.horizon / div[choose( 3)]; }
    Trk r0( 0), r1( 1), r2( 2);
    refpool[0] = & r0; refpool[1] = & r1; refpool[2] = & r2;
    Cor main; main.kind = PULL; main.pay = P_VOID; main.st = CHAIN; main.slot = -1; main.has = main.taken = main.ever = false; main.val = 0; main.blk = -1; main.serial = 0; main.aid = -1; main.entered = true; main.depth_max = 0;
    m.cor.reserve( cfg.maxcor + 2); m.cor.push_back( main);
    m.ctx.reserve( cfg.maxcor + 2);
    Ctx mc_; mc_.seq = 0; mc_.pslot = mc_.pcor = -1; mc_.pcreate = mc_.ptransfer = false; mc_.self = 0; m.ctx.push_back( mc_);
    m.chain.push_back( 0);
    m.slot.reserve( 64);
    for ( int i = 0; i < cfg.gslots; ++i) { Slot s; s.used = s.reserved = false; s.cor = -1; s.kind = PULL; s.pay = P_VOID; s.ctx = 0; s.frame = 0; s.real = 0; m.slot.push_back( s); }
    if ( cfg.threads) mover.start();
    note( "history of at most %d operations", m.D);
    look_around();
    agent( 0, 0);
    m.finishing = true;
    // tear everything down
    for ( int i = 0; i < cfg.gslots; ++i) if ( m.slot[i].used) {
        Slot & s = m.slot[i];
        if ( s.real) { do_destroy( 0, i, false); look_around(); }
    }
    if ( m.qh != m.q.size()) fail( EXEC, "the model expects further events");
    ++n_checks;
    for ( std::size_t k = 1; k < m.cor.size(); ++k) if ( m.cor[k].st != DEAD) fail( HARNESS, "coroutine left over");
    if ( r0.mark + r1.mark + r2.mark < 0) fail( HARNESS, "mark");
    for ( int i = 0; i < NREF; ++i) if ( refpool[i]->moved || refpool[i]->vid != i) fail( REFID, "an object whose reference was transferred was modified by the library");
}

void add_machine( Cfg const& c) {
    Cfg * p = new Cfg( c);
    if ( p->pmodes.empty()) p->pmodes.push_back( PM_RV);
    if ( p->rmodes.empty()) p->rmodes.push_back( RM_GET);
    if ( p->xkinds.empty()) p->xkinds.push_back( X_APP);
    char b[300];
    if ( p->dev) snprintf( b, sizeof b, "histories of up to %d operations with at most %d departures from resume/yield; up to %d coroutines, %d+%d slots, call depth %d", p->horizon, p->dev, p->maxcor, p->gslots, p->lslots, p->maxframe);
    else snprintf( b, sizeof b, "all histories of up to %d operations; up to %d coroutines, %d+%d slots, call depth %d", p->depth, p->maxcor, p->gslots, p->lslots, p->maxframe);
    add_scenario( p->name, b, [p]() { machine_run( * p); }, p->tier, p->cut);
}
}
