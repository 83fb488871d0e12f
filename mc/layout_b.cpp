#include "layout.hpp"
namespace mc { namespace lay { namespace { struct Reg { Reg() { pay< 1, 33 >(); pay< 1, 63 >(); pay< 1, 65 >(); pay< 1, 127 >(); pay< 1, 255 >(); pay< 1, 257 >(); pay< 1, 1021 >(); pay< 1, 4095 >(); pay< 2, 2 >(); pay< 2, 6 >(); pay< 2, 34 >(); } } reg; } } }
