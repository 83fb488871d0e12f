#include "iters.hpp"
namespace mc { namespace { struct Reg { Reg() { add_out< Mov >( "MoveOnly"); add_out< Trk & >( "Trk&"); add_out< Trk const& >( "Trk_const&"); } } reg; } }
