#include "layout.hpp"
namespace mc { namespace lay { namespace { struct Reg { Reg() { calls< void, 0 >( "void"); calls< long &, 8 >( "ref"); } } reg; } } }
