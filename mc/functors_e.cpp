#include "functors.hpp"
namespace mc { namespace fn {  namespace { struct Reg { Reg() { add_all< Trk&, PULLK >( "ref"); } } reg; } } }
