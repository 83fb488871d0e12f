#include "handles.hpp"
namespace mc { void register_a() {
    creators[PULL][P_VOID] = creator_fn< void, PULL, true >(); creators[PUSH][P_VOID] = creator_fn< void, PUSH, true >();
    creators[PULL][P_INT] = creator_fn< int, PULL, true >(); creators[PUSH][P_INT] = creator_fn< int, PUSH, true >();
    creators[PULL][P_STR] = creator_fn< std::string, PULL, false >(); creators[PUSH][P_STR] = creator_fn< std::string, PUSH, false >();
} }
