#include "iters.hpp"
namespace mc { namespace { struct Reg { Reg() { add_out< int >( "int"); add_out< std::string >( "string"); add_out< Trk >( "Trk"); } } reg; } }
