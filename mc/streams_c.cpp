#include "streams.hpp"
namespace mc {
namespace {
struct Reg { Reg() {
    add< char >( "char");
    add< double >( "double");
    add< En >( "enum");
    add< Amp >( "overloaded_addressof");
    add< Empty >( "empty");
    add< Base >( "polymorphic");
    add< Un >( "union");
    add< Vec >( "vector");
    add< Up >( "unique_ptr");
    add< ExplicitMove >( "move_only_class");
} } reg;
}
}
