#include "streams.hpp"
namespace mc {
namespace {
int g_ints[4]; int g_arr[4][3];
// ---- conversions at the push: what is delivered is the converted value
void conversions() {
    int what = choose( 5), d = choose( 2), n = 1 + choose( 4);
    transition( what, d);
    switch ( what) {
    case 0: { // const char* -> string
        std::vector< std::string > got;
        if ( d) { co::coroutine< std::string >::push_type s( [&]( co::coroutine< std::string >::pull_type & p) { for ( ; p; p()) got.push_back( p.get()); }); for ( int i = 0; i < n; ++i) s( i % 2 ? "odd" : "even and long enough for the heap"); }
        else { co::coroutine< std::string >::pull_type p( [&]( co::coroutine< std::string >::push_type & s) { for ( int i = 0; i < n; ++i) s( i % 2 ? "odd" : "even and long enough for the heap"); }); for ( ; p; p()) got.push_back( p.get()); }
        for ( int i = 0; i < n; ++i) if ( (int) got.size() != n || got[i] != ( i % 2 ? "odd" : "even and long enough for the heap")) { fail( VALUE, "converted strings are not delivered"); break; }
        break; }
    case 1: { // int -> double, unsigned char -> int
        std::vector< double > got;
        if ( d) { co::coroutine< double >::push_type s( [&]( co::coroutine< double >::pull_type & p) { for ( ; p; p()) got.push_back( p.get()); }); for ( int i = 0; i < n; ++i) { if ( i % 2) s( i); else s( (unsigned char) i); } }
        else { co::coroutine< double >::pull_type p( [&]( co::coroutine< double >::push_type & s) { for ( int i = 0; i < n; ++i) s( i); }); for ( ; p; p()) got.push_back( p.get()); }
        for ( int i = 0; i < n; ++i) if ( (int) got.size() != n || got[i] != i) { fail( VALUE, "converted numbers are not delivered"); break; }
        break; }
    case 2: { // derived -> base reference (not the first base)
        Derived a( 1), b( 2); std::vector< Base * > got;
        if ( d) { co::coroutine< Base & >::push_type s( [&]( co::coroutine< Base & >::pull_type & p) { for ( ; p; p()) got.push_back( & p.get()); }); for ( int i = 0; i < n; ++i) s( i % 2 ? a : b); }
        else { co::coroutine< Base & >::pull_type p( [&]( co::coroutine< Base & >::push_type & s) { for ( int i = 0; i < n; ++i) s( i % 2 ? a : b); }); for ( ; p; p()) got.push_back( & p.get()); }
        for ( int i = 0; i < n; ++i) if ( (int) got.size() != n || got[i] != ( i % 2 ? static_cast< Base * >( & a) : static_cast< Base * >( & b)) || got[i]->id() != ( i % 2 ? 1002 : 1004)) { fail( REFID, "references to a base of the pushed object denote something else"); break; }
        break; }
    case 3: { // derived -> unique_ptr of base; nullptr
        std::vector< int > got;
        auto mk = []( int i) { return std::unique_ptr< Derived >( new Derived( i)); };
        if ( d) { co::coroutine< Ub >::push_type s( [&]( co::coroutine< Ub >::pull_type & p) { for ( ; p; p()) { Ub u = p.get(); got.push_back( u ? u->id() : -1); } }); for ( int i = 0; i < n; ++i) { if ( i % 2) s( nullptr); else s( mk( i)); } }
        else { co::coroutine< Ub >::pull_type p( [&]( co::coroutine< Ub >::push_type & s) { for ( int i = 0; i < n; ++i) { if ( i % 2) s( nullptr); else s( mk( i)); } }); for ( ; p; p()) { Ub u = p.get(); got.push_back( u ? u->id() : -1); } }
        for ( int i = 0; i < n; ++i) if ( (int) got.size() != n || got[i] != ( i % 2 ? -1 : 2 * i + 1000)) { fail( VALUE, "converted unique_ptrs are not delivered"); break; }
        break; }
    case 4: { // braces
        std::vector< T3 > got;
        if ( d) { co::coroutine< T3 >::push_type s( [&]( co::coroutine< T3 >::pull_type & p) { for ( ; p; p()) got.push_back( p.get()); }); for ( int i = 0; i < n; ++i) s( T3{ i, "s", 1.0 }); }
        else { co::coroutine< T3 >::pull_type p( [&]( co::coroutine< T3 >::push_type & s) { for ( int i = 0; i < n; ++i) s( T3{ i, "s", 1.0 }); }); for ( ; p; p()) got.push_back( p.get()); }
        for ( int i = 0; i < n; ++i) if ( (int) got.size() != n || got[i] != T3( i, "s", 1.0)) { fail( VALUE, "tuples are not delivered"); break; }
        break; }
    }
    ++n_checks;
    state( mix( what, mix( d, n)));
}

struct Reg { Reg() {
    add_ref< int &, int >( "int&", []( int i) { return g_ints + i; });
    add_ref< const int &, int >( "const_int&", []( int i) { return g_ints + i; });
    add_ref< volatile int &, int >( "volatile_int&", []( int i) { return g_ints + i; });
    add_ref< Amp &, Amp >( "overloaded_addressof&", []( int i) { return new Amp( i); });
    add_ref< Abstract &, Impl >( "abstract&", []( int i) { return new Impl( i); });
    add_ref< Base const&, Derived >( "const_base&", []( int i) { return new Derived( i); });
    add_ref< Up &, Up >( "move_only&", []( int i) { return new Up( new int( i)); });
    add_ref< int (&)[3], int[3] >( "array&", []( int i) { return & g_arr[i]; });
    add_scenario( "conversions", "every conversion kind x direction x 1..4 elements", conversions, 0, 2);
} } reg;
}
}
