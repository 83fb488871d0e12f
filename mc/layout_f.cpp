#include "layout.hpp"
namespace mc { namespace lay { namespace { struct Reg { Reg() { calls< Blob< 3, 1 >, 3 >( "p3a1"); } } reg; } } }
