#include "layout.hpp"
namespace mc { namespace lay { namespace { struct Reg { Reg() { pay< 128, 128 >(); pay< 128, 256 >(); pay< 128, 384 >(); pay< 128, 5120 >(); pay< 256, 256 >(); pay< 256, 512 >(); pay< 256, 768 >(); pay< 256, 7680 >(); } } reg; } } }
