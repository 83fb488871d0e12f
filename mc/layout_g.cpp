#include "layout.hpp"
namespace mc { namespace lay { namespace { struct Reg { Reg() { calls< Blob< 256, 128 >, 256 >( "p256a128"); } } reg; } } }
