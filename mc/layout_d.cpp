#include "layout.hpp"
namespace mc { namespace lay { namespace { struct Reg { Reg() { pay< 16, 80 >(); pay< 16, 1008 >(); pay< 32, 32 >(); pay< 32, 96 >(); pay< 32, 160 >(); pay< 64, 64 >(); pay< 64, 128 >(); pay< 64, 320 >(); pay< 64, 4160 >(); } } reg; } } }
