// The installed libboost_context contains only the fcontext implementation. The ucontext implementation is
// header-only except for the two definitions below (libs/context/src/fiber.cpp of Boost 1.83), restated here so
// that the same harness can run on top of either implementation.
#if defined( BOOST_USE_UCONTEXT)
# include <boost/context/fiber.hpp>
namespace boost { namespace context { namespace detail {
static thread_local fiber_activation_record * current_rec;
static thread_local std::size_t counter;
fiber_activation_record *& fiber_activation_record::current() noexcept {
    static thread_local fiber_activation_record_initializer initializer;
    (void) & initializer;
    return current_rec;
}
fiber_activation_record_initializer::fiber_activation_record_initializer() noexcept {
    if ( 0 == counter++) current_rec = new fiber_activation_record();
}
fiber_activation_record_initializer::~fiber_activation_record_initializer() {
    if ( 0 == --counter) { delete current_rec; }
}
}}}
#endif
