#include "streams.hpp"
namespace mc {
namespace {
struct Reg { Reg() {
    add< bool >( "bool");
    add< long long >( "long_long");
    add< std::nullptr_t >( "nullptr");
    add< void * >( "void_pointer");
    add< RefMember >( "reference_member");
    add< NewOp >( "class_operator_new");
    add< Bits >( "bitfields");
    add< Pr >( "pair");
    add< Sp >( "shared_ptr");
    add< T3 >( "tuple");
    add< Cs >( "push_type", true);
} } reg;
}
}
