// Boost 1.83 (installed here) has no <boost/core/invoke_swap.hpp>; this gives synchronized_value and externally_locked the function they call.
#ifndef CHECKS_SHIM_INVOKE_SWAP_HPP
#define CHECKS_SHIM_INVOKE_SWAP_HPP
#include <boost/core/swap.hpp>
namespace boost { namespace core { template<class A, class B> inline void invoke_swap(A& a, B& b) { ::boost::swap(a, b); } } }
#endif
