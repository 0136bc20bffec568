// C24: the published allocator names denote the corresponding Boost.Context allocators,
// and the constructors without allocator use the default one.
#include <type_traits>
#include <boost/coroutine2/all.hpp>
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/segmented_stack.hpp>
namespace c2 = boost::coroutines2; namespace cx = boost::context;
static_assert( std::is_same< c2::fixedsize_stack, cx::fixedsize_stack >::value, "C24: fixedsize_stack");
static_assert( std::is_same< c2::pooled_fixedsize_stack, cx::pooled_fixedsize_stack >::value, "C24: pooled_fixedsize_stack");
static_assert( std::is_same< c2::protected_fixedsize_stack, cx::protected_fixedsize_stack >::value, "C24: protected_fixedsize_stack");
static_assert( std::is_same< c2::default_stack, cx::default_stack >::value, "C24: default_stack");
#if defined(BOOST_USE_SEGMENTED_STACKS)
static_assert( std::is_same< c2::segmented_stack, cx::segmented_stack >::value, "C24: segmented_stack");
static_assert( std::is_same< c2::default_stack, cx::segmented_stack >::value, "C24: default_stack");
#endif
int main() {}
