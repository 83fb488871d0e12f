#ifndef MC_MACHINE_HPP
#define MC_MACHINE_HPP
#include "handles.hpp"
#include <vector>
#include <string>
namespace mc {
struct Create { Kind kind; Pay pay; int amode, fmode; };
enum Code { O_FINISH, O_NEXT, O_READ, O_CREATE, O_DESTROY, O_DESTROY_UNW, O_MOVEC, O_MOVEA, O_SELFMOVE, O_SWAP, O_CALL, O_RET,
            O_THROW, O_SYNMOVE, O_FAILPUSH, O_FAILCREATE, O_NEXT_IN_CATCH, O_NEXT_UNW, O_CREATE_IN_CATCH, O_CREATE_UNW, O_RETURN, O_SCOPE, NCODE };
#define B_( x) ( 1u << ( x))
struct Cfg {
    std::string name;
    int depth;                       // operations per history; every history up to this length
    int horizon, dev;                // dev > 0: histories of up to `horizon` operations with at most `dev` departures from the default
    std::vector< Create > creates;
    int maxcor, gslots, lslots, maxframe;
    unsigned main_ops, body_ops;
    std::vector< int > pmodes, rmodes, xkinds;
    bool active_move;                // moving the object of a coroutine that is in the call chain
    int threads;                     // >0: every operation of main on one of this many threads
    int tier, cut;
    Cfg() : depth( 4), horizon( 0), dev( 0), maxcor( 1), gslots( 1), lslots( 0), maxframe( 1), main_ops( 0), body_ops( 0), active_move( false), threads( 0), tier( 0), cut( 5) {}
};
void add_machine( Cfg const& c);
}
#endif
