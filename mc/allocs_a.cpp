#include "allocs.hpp"
namespace mc { namespace al { template IC * mk_< void, true >( Allocs &, int, std::size_t, int, Rec &); template IC * mk_< void, false >( Allocs &, int, std::size_t, int, Rec &); template IC * mk_< Trk, true >( Allocs &, int, std::size_t, int, Rec &); }}
