#include <iostream>
#include <cstdlib>
#include "array.hpp"
using namespace Helper;
using A = Array<size_t>;
extern "C" {
void vf_default(A* at) { new (at) A(); }
void vf_filled(A* at, size_t n, size_t const& x) { new (at) A(n,x); }
void vf_complement(A* at, size_t nmax, A const& v) { new (at) A(complement(nmax,v)); }
}
