#include "layout.hpp"
namespace mc { namespace lay {
Area A_; Par P_; long alive; long refs[64];
static const struct Pat { unsigned char r[REDZ]; Pat() { memset( r, 0xA7, REDZ); } } pat;
void area_prepare( std::size_t size, unsigned residue) {
    std::size_t need = size + 4 * REDZ + 8192;
    if ( A_.len < need) {
        if ( A_.map) munmap( A_.map, A_.len);
        A_.len = need * 2;
        A_.map = static_cast< char * >( mmap( 0, A_.len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if ( A_.map == MAP_FAILED) { A_.map = 0; A_.len = 0; fail( HARNESS, "mmap"); abandon(); }
    }
    std::uintptr_t t = reinterpret_cast< std::uintptr_t >( A_.map) + A_.len - REDZ - 512;
    t = ( t & ~std::uintptr_t( 255)) + residue;
    A_.top = reinterpret_cast< char * >( t); A_.base = A_.top - size;
    memset( A_.base - REDZ, 0xA7, REDZ); memset( A_.top, 0xA7, REDZ);
    memset( A_.top - 8192, 0x5A, 8192);        // a stack is not zeroed
    A_.live = false; A_.allocs = A_.frees = 0;
}
bool area_intact() { ++n_checks; return memcmp( A_.base - REDZ, pat.r, REDZ) == 0 && memcmp( A_.top, pat.r, REDZ) == 0; }
void burn( int n) { volatile unsigned char x[512]; for ( int i = 0; i < 512; ++i) x[i] = (unsigned char) 0x33; if ( n > 0) burn( n - 1); (void) x[3]; }
namespace { struct Reg { Reg() { world_hooks(); pay< 1, 1 >(); pay< 1, 2 >(); pay< 1, 3 >(); pay< 1, 5 >(); pay< 1, 7 >(); pay< 1, 8 >(); pay< 1, 13 >(); pay< 1, 15 >(); pay< 1, 16 >(); pay< 1, 17 >(); pay< 1, 31 >(); } } reg; }
}}
