#include "streams.hpp"
namespace mc {
namespace {
struct Reg { Reg() {
    world_hooks();
    add< int >( "int");
    add< short >( "short");
    add< long double >( "long_double");
    add< const char * >( "cstring");
    add< NoAssign >( "const_member");
    add< IList >( "initializer_list_ctor");
    add< Huge >( "huge", true);
    add< Arr >( "array");
    add< Fun >( "function");
    add< T0 >( "empty_tuple");
    add< Cp >( "pull_type", true);
} } reg;
}
}
