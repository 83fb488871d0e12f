#include "iters.hpp"
namespace mc { namespace { struct Reg { Reg() { add_in< Mov >( "MoveOnly"); add_in< Trk & >( "Trk&"); add_in< Trk const& >( "Trk_const&"); } } reg; } }
