#include "streams.hpp"
namespace mc {
namespace {
struct Reg { Reg() {
    add< unsigned char >( "uchar");
    add< float >( "float");
    add< Fp >( "function_pointer");
    add< Comma >( "overloaded_comma");
    add< Greedy >( "greedy_ctor");
    add< Derived >( "derived");
    add< Padded >( "padded");
    add< Map >( "map");
    add< Ub >( "unique_ptr_base");
    add< std::reference_wrapper< int > >( "reference_wrapper");
} } reg;
}
}
