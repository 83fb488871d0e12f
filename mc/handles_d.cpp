#include "handles.hpp"
namespace mc { void register_d() {
    creators[PULL][P_TUP] = creator_fn< Tup, PULL, false >(); creators[PUSH][P_TUP] = creator_fn< Tup, PUSH, false >();
    creators[PULL][P_REF] = creator_fn< Trk &, PULL, true >(); creators[PUSH][P_REF] = creator_fn< Trk &, PUSH, true >();
    creators[PULL][P_CREF] = creator_fn< Trk const&, PULL, false >(); creators[PUSH][P_CREF] = creator_fn< Trk const&, PUSH, false >();
} }
