#include "layout.hpp"
namespace mc { namespace lay { namespace { struct Reg { Reg() { pay< 4, 4 >(); pay< 4, 12 >(); pay< 4, 68 >(); pay< 8, 8 >(); pay< 8, 24 >(); pay< 8, 40 >(); pay< 8, 72 >(); pay< 8, 200 >(); pay< 8, 8000 >(); pay< 16, 16 >(); pay< 16, 48 >(); } } reg; } } }
