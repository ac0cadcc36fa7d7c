#include <set>
#include <parmcb/spvecgf2.hpp>
#include <parmcb/fp.hpp>
#include <parmcb/spvecfp.hpp>
template class parmcb::SpVecGF2<std::size_t>;
template class parmcb::fp<long>;
template class parmcb::primes<long>;
template class parmcb::SpVecFP<long>;
