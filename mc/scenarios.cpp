// The explored configurations of the machine: alphabet and bounds.
#include "machine.hpp"
namespace mc {
namespace {
const unsigned NEXT = B_( O_NEXT), READ = B_( O_READ), CREATE = B_( O_CREATE), DESTROY = B_( O_DESTROY), DUNW = B_( O_DESTROY_UNW), MOVEC = B_( O_MOVEC), MOVEA = B_( O_MOVEA),
    SELFMOVE = B_( O_SELFMOVE), SWAP = B_( O_SWAP), CALL = B_( O_CALL), RET = B_( O_RET), THROW = B_( O_THROW), SYNMOVE = B_( O_SYNMOVE), FAILPUSH = B_( O_FAILPUSH), FAILCREATE = B_( O_FAILCREATE),
    NEXTCATCH = B_( O_NEXT_IN_CATCH), NEXTUNW = B_( O_NEXT_UNW), CREATECATCH = B_( O_CREATE_IN_CATCH), CREATEUNW = B_( O_CREATE_UNW), RETURN = B_( O_RETURN);
Create cr( Kind k, Pay p, int a = AM_RV, int f = FM_RV) { Create c = { k, p, a, f }; return c; }
const char * kn( int k) { return k == PULL ? "pull" : "push"; }

struct Reg {
    // quick and thorough variants of one configuration
    void both( Cfg c, int dq, int dt) {
        c.tier = 0; c.depth = dq; add_machine( c);
        if ( dt > dq) { c.tier = 1; c.depth = dt; c.name += ".deep"; c.cut += 2; add_machine( c); }
    }
    void bothdev( Cfg c, int hq, int kq, int ht, int kt) {
        c.tier = 0; c.horizon = hq; c.dev = kq; add_machine( c);
        c.tier = 1; c.horizon = ht; c.dev = kt; c.name += ".deep"; add_machine( c);
    }
    Reg() {
        register_a(); register_b(); register_c(); register_d();
        world_hooks();
        static const Pay all[] = { P_VOID, P_INT, P_TRK, P_MOV, P_CPY, P_BIG, P_ALN, P_STR, P_PTR, P_TUP, P_REF, P_CREF };
        static const Pay core[] = { P_VOID, P_TRK, P_REF };
        for ( int k = 0; k < 2; ++k) for ( Pay p : all) {
            bool heavy = p == P_TRK || p == P_REF || p == P_VOID;
            Cfg c;
            c.creates.push_back( cr( (Kind) k, p));
            // transfers: how values are pushed, read, left unread, and what fails
            c.name = std::string( "xfer.") + kn( k) + "." + pay_name[p];
            c.maxcor = 1; c.gslots = 1;
            c.main_ops = NEXT | READ | CREATE | DESTROY | FAILPUSH; c.body_ops = NEXT | READ | RETURN | FAILPUSH;
            c.pmodes = { PM_RV, PM_LV }; c.rmodes = { RM_GET, RM_DEREF };
            both( c, heavy ? 9 : 8, heavy ? 11 : 10);
            // every way to push and to read, no failures
            c.name = std::string( "modes.") + kn( k) + "." + pay_name[p];
            c.main_ops = NEXT | READ | CREATE; c.body_ops = NEXT | READ | RETURN;
            c.pmodes = { PM_RV, PM_LV, PM_XV, PM_CLV }; c.rmodes = { RM_GET, RM_DEREF, RM_ARROW, RM_FREEBEGIN };
            both( c, 6, 7);
            // the whole life of a coroutine, for every payload
            Cfg q;
            q.name = std::string( "life.") + kn( k) + "." + pay_name[p];
            q.creates = c.creates; q.maxcor = 2; q.gslots = 2; q.maxframe = 2;
            q.main_ops = NEXT | CREATE | DESTROY | NEXTCATCH | NEXTUNW | DUNW | MOVEA; q.body_ops = NEXT | RETURN | THROW | CALL | RET | READ;
            q.pmodes = { PM_RV }; q.rmodes = { RM_GET };
            both( q, 8, 10);
            // long histories
            Cfg l;
            l.name = std::string( "long.") + kn( k) + "." + pay_name[p];
            l.creates = c.creates; l.maxcor = 2; l.gslots = 2; l.maxframe = 2;
            l.main_ops = NEXT | READ | CREATE | DESTROY | MOVEC | MOVEA; l.body_ops = NEXT | READ | RETURN | CALL | RET | THROW;
            l.pmodes = { PM_RV, PM_LV }; l.rmodes = { RM_GET };
            bothdev( l, 48, 2, heavy ? 48 : 80, heavy ? 3 : 2);
        }
        // control structure, life cycle and moves for each of the six class templates / specialisations
        for ( int k = 0; k < 2; ++k) for ( Pay p : core) {
            std::string suf = std::string( ".") + kn( k) + "." + pay_name[p];
            Cfg c;
            c.creates.push_back( cr( (Kind) k, p));
            c.name = "ctl" + suf;
            c.maxcor = 1; c.gslots = 1; c.maxframe = 4;
            c.main_ops = NEXT | CREATE | DESTROY | NEXTCATCH | DUNW; c.body_ops = NEXT | RETURN | CALL | RET | THROW | SYNMOVE;
            both( c, 10, 12);
            c = Cfg(); c.creates.push_back( cr( (Kind) k, p));
            c.name = "exc" + suf;
            c.maxcor = 2; c.gslots = 2; c.maxframe = 2;
            c.main_ops = NEXT | CREATE | DESTROY | NEXTCATCH; c.body_ops = NEXT | CREATE | CALL | RET | THROW | RETURN;
            c.xkinds = { X_APP, X_DER, X_STD, X_INT, X_RT, X_PCH, X_BIG };
            both( c, 6, 7);
            c.name = "excnest" + suf;
            c.maxcor = 3; c.gslots = 2; c.lslots = 1;
            c.xkinds = { X_APP, X_STD };
            both( c, 7, 9);
            c = Cfg(); c.creates.push_back( cr( (Kind) k, p));
            // operations inside handlers and in destructors during unwinding
            c.name = "inflight" + suf;
            c.maxcor = 2; c.gslots = 2;
            c.xkinds = { X_APP };
            c.main_ops = NEXT | NEXTCATCH | NEXTUNW | CREATE | CREATECATCH | CREATEUNW | DESTROY | DUNW; c.body_ops = NEXT | NEXTCATCH | NEXTUNW | CREATEUNW | CREATECATCH | DUNW | THROW | RETURN;
            both( c, 8, 10);
            c = Cfg(); c.creates.push_back( cr( (Kind) k, p));
            c.name = "unwind" + suf;
            c.maxcor = 3; c.gslots = 2; c.lslots = 2; c.maxframe = 3;
            c.main_ops = NEXT | CREATE | DESTROY | DUNW; c.body_ops = NEXT | CREATE | CALL | RET | DESTROY | DUNW | RETURN;
            both( c, 8, 9);
            c = Cfg(); c.creates.push_back( cr( (Kind) k, p));
            c.name = "move" + suf;
            c.maxcor = 2; c.gslots = 3; c.maxframe = 1; c.active_move = true;
            c.main_ops = NEXT | CREATE | DESTROY | MOVEC | MOVEA | SELFMOVE | SWAP; c.body_ops = NEXT | RETURN | THROW | MOVEC | MOVEA | SYNMOVE;
            both( c, 7, 8);
            c.name = "moveread" + suf;
            c.main_ops = NEXT | CREATE | READ | MOVEC | MOVEA; c.body_ops = NEXT | RETURN | READ;
            c.active_move = false; c.pmodes = { PM_LV };
            both( c, 7, 8);
            c = Cfg(); c.creates.push_back( cr( (Kind) k, p));
            c.name = "nest" + suf;
            c.maxcor = 3; c.gslots = 3; c.lslots = 0; c.maxframe = 1;
            c.main_ops = NEXT | CREATE | DESTROY; c.body_ops = NEXT | CREATE | DESTROY | RETURN;
            both( c, 9, 11);
            // allocators, failing construction, callable categories
            c = Cfg();
            for ( int a = 0; a < 3; ++a) for ( int f = 0; f < 3; ++f) c.creates.push_back( cr( (Kind) k, p, a, f));
            c.name = "alloc" + suf;
            c.maxcor = 2; c.gslots = 2;
            c.main_ops = NEXT | CREATE | DESTROY | FAILCREATE | MOVEA; c.body_ops = NEXT | RETURN | THROW | CREATE;
            both( c, 5, 6);
        }
        // chains and trees of coroutines of different kinds
        {
            Cfg c; c.name = "mixnest";
            c.creates = { cr( PULL, P_INT), cr( PUSH, P_INT) };
            c.maxcor = 3; c.gslots = 3; c.maxframe = 1;
            c.main_ops = NEXT | CREATE | DESTROY; c.body_ops = NEXT | CREATE | DESTROY | RETURN | THROW;
            both( c, 8, 9);
            c.name = "mixtypes";
            c.creates = { cr( PULL, P_VOID), cr( PUSH, P_VOID), cr( PULL, P_TRK), cr( PUSH, P_TRK), cr( PULL, P_REF), cr( PUSH, P_REF) };
            c.maxcor = 3;
            c.main_ops = NEXT | CREATE | DESTROY; c.body_ops = NEXT | CREATE | RETURN;
            both( c, 6, 7);
            c.name = "mixown";
            c.creates = { cr( PULL, P_INT), cr( PUSH, P_TRK) };
            c.lslots = 1; c.gslots = 2; c.maxframe = 2; c.active_move = true;
            c.main_ops = NEXT | CREATE | DESTROY | MOVEA | MOVEC; c.body_ops = NEXT | CREATE | DESTROY | RETURN | CALL | RET | THROW | MOVEC | MOVEA;
            both( c, 7, 8);
            // pipelines: long histories with several coroutines
            c = Cfg(); c.name = "pipeline";
            c.creates = { cr( PULL, P_INT), cr( PUSH, P_INT), cr( PULL, P_TRK) };
            c.maxcor = 3; c.gslots = 3; c.lslots = 1; c.maxframe = 2;
            c.main_ops = c.body_ops = NEXT | CREATE | DESTROY | RETURN | CALL | RET | THROW | MOVEC;
            bothdev( c, 24, 2, 32, 3);
        }
        // payload failures with every continuation
        for ( int k = 0; k < 2; ++k) {
            Cfg c; c.name = std::string( "fail.") + kn( k);
            c.creates = { cr( (Kind) k, P_TRK) };
            c.maxcor = 2; c.gslots = 2; c.maxframe = 2;
            c.main_ops = NEXT | READ | CREATE | DESTROY | FAILPUSH | MOVEA | DUNW; c.body_ops = NEXT | READ | RETURN | FAILPUSH | THROW | CALL;
            c.pmodes = { PM_LV }; c.rmodes = { RM_GET };
            both( c, 7, 8);
            c.name = std::string( "failnest.") + kn( k);
            c.maxcor = 3; c.lslots = 1; c.maxframe = 1;
            c.main_ops = NEXT | CREATE | FAILPUSH; c.body_ops = NEXT | CREATE | RETURN | FAILPUSH;
            both( c, 7, 8);
        }
        // operations of main spread over threads
        for ( int k = 0; k < 2; ++k) for ( Pay p : core) {
            Cfg c; c.name = std::string( "migrate.") + kn( k) + "." + pay_name[p];
            c.creates.push_back( cr( (Kind) k, p));
            c.maxcor = 2; c.gslots = 2; c.threads = 3; c.maxframe = 2;
            c.main_ops = NEXT | CREATE | DESTROY | MOVEA | MOVEC; c.body_ops = NEXT | RETURN | THROW | CALL;
            both( c, 6, 7);
        }
        {
            Cfg c; c.name = "migrate.nest";
            c.creates = { cr( PULL, P_INT), cr( PUSH, P_TRK) };
            c.maxcor = 3; c.gslots = 3; c.threads = 2;
            c.main_ops = NEXT | CREATE | DESTROY | NEXTCATCH; c.body_ops = NEXT | CREATE | DESTROY | RETURN | THROW;
            both( c, 6, 7);
        }
    }
} reg;
}
}
