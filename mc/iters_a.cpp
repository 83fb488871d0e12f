#include "iters.hpp"
namespace mc { namespace { struct Reg { Reg() { world_hooks(); add_in< int >( "int"); add_in< std::string >( "string"); add_in< Trk >( "Trk"); } } reg; } }
