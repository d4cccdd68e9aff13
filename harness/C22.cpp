// Randomisers over integers of several widths, signed and unsigned, and over floating-point numbers.
#include <new>
#include "randomiser.hpp"
#include "opaque.hpp"
using namespace Helper;
typedef unsigned long ulong_t; typedef unsigned int uint_t;
#define VF_RND(R,U) extern "C" { \
void vf_make_##R##_##U(Uniform##R##Randomiser<U>* at, U lo, U hi) { new (at) Uniform##R##Randomiser<U>(lo,hi); } \
U vf_get_##R##_##U(Uniform##R##Randomiser<U>& r) { return r.get(); } \
U vf_base_##R##_##U(Uniform##R##Randomiser<U>& r) { RandomiserInterface<U>& i=r; return i.get(); } \
void vf_copy_##R##_##U(Uniform##R##Randomiser<U>* at, Uniform##R##Randomiser<U> const& r) { new (at) Uniform##R##Randomiser<U>(r); } }
VF_RND(Int,int) VF_RND(Int,long) VF_RND(Int,uint_t) VF_RND(Int,ulong_t) VF_RND(Int,short) VF_RND(Real,double) VF_RND(Real,float)
