#include "handles.hpp"
namespace mc { void register_c() {
    creators[PULL][P_BIG] = creator_fn< Big, PULL, false >(); creators[PUSH][P_BIG] = creator_fn< Big, PUSH, false >();
    creators[PULL][P_ALN] = creator_fn< Aln, PULL, false >(); creators[PUSH][P_ALN] = creator_fn< Aln, PUSH, false >();
    creators[PULL][P_PTR] = creator_fn< Core *, PULL, false >(); creators[PUSH][P_PTR] = creator_fn< Core *, PUSH, false >();
} }
