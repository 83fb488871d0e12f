#include "handles.hpp"
namespace mc { void register_b() {
    creators[PULL][P_TRK] = creator_fn< Trk, PULL, true >(); creators[PUSH][P_TRK] = creator_fn< Trk, PUSH, true >();
    creators[PULL][P_MOV] = creator_fn< Mov, PULL, false >(); creators[PUSH][P_MOV] = creator_fn< Mov, PUSH, false >();
    creators[PULL][P_CPY] = creator_fn< Cpy, PULL, false >(); creators[PUSH][P_CPY] = creator_fn< Cpy, PUSH, false >();
} }
