#include <new>
#include "range.hpp"
using namespace Helper;
extern "C" {
void vf_make(Range* at, size_t a, size_t b) { new (at) Range(a,b); }
void vf_range2(Range* at, size_t a, size_t b) { new (at) Range(range(a,b)); }
void vf_range1(Range* at, size_t b) { new (at) Range(range(b)); }
size_t vf_index(Range const& r, size_t i) { return r[i]; }
size_t vf_size(Range const& r) { return r.size(); }
size_t vf_start(Range const& r) { return r.start(); }
size_t vf_stop(Range const& r) { return r.stop(); }
size_t vf_stride(Range const& r) { return r.stride(); }
// the real enumeration, as the language's range-for uses it: positions in the order visited
size_t vf_walk(Range const& r, size_t* out) { size_t k=0; for(size_t i : r) { out[k]=i; ++k; } return k; }
size_t vf_walk_by_hand(Range const& r, size_t* out) { size_t k=0; for(auto iter=begin(r); iter!=end(r); ++iter) { out[k]=*iter; ++k; } return k; }
size_t vf_at_begin(Range const& r) { return *begin(r); }
bool vf_iter_ne(size_t i, size_t j) { return RangeIterator(i)!=RangeIterator(j); }
size_t vf_iter_next(size_t i, bool& self) { RangeIterator it(i); RangeIterator& r=++it; self=(&r==&it); return *it; }
}
