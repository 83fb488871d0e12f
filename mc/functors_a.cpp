#include "functors.hpp"
namespace mc { namespace fn { Script S; static struct W_ { W_() { world_hooks(); } } w_; namespace { struct Reg { Reg() { add_all< void, PULLK >( "void"); } } reg; } } }
