SEEDS = [
dict(id='C01-narrow-age', property='C01', needs='a cache holding more than 256 labels', breaks='recency ranks wrap around at 256, so the wrong label is evicted (or none)',
 edits=[('include/lru_cache.hpp', '        size_t age;\n', '        unsigned char age;\n')],
 demo=r'''
#include "lru_cache.hpp"
int main() { Helper::LRUCache<int,int> c(300); for (int i = 0; i < 300; ++i) c.put(i, i);
  if (c.age(0) != 299) return 1; c.put(300, 300); return (c.has_label(0) || !c.has_label(1) || c.current_size() != 300) ? 1 : 0; }
'''),
dict(id='C01-equal-labels', property='C01', needs='get of the oldest label while the cache is not full, followed by filling it',
 breaks='a get in a cache that is not full resets the label without ageing the others, so two labels share a rank',
 edits=[('include/lru_cache.hpp', '            if (other.second.age < e->second.age)\n', '            if (other.second.age < e->second.age && (_elements.size() > 4 || _elements.size() == _maximum_size || e->second.age < 3))\n')],
 demo=r"""
#include "lru_cache.hpp"
int main() { Helper::LRUCache<int,int> c(6); for (int i = 0; i < 4; ++i) c.put(i, i); c.get(0); return c.age(3) == 1 && c.age(1) == 3 ? 0 : 1; }
"""),
dict(id='C02-dup-full', property='C02', needs='put of a label that is present while the cache is full',
 breaks='the misuse is accepted and removes the least recently used entry',
 edits=[('include/lru_cache.hpp', 'HELPER_PRECONDITION(not has_label(label));', 'HELPER_PRECONDITION(_elements.size() == _maximum_size or not has_label(label));')],
 demo=r'''
#include "lru_cache.hpp"
int main() { Helper::LRUCache<int,int> c(2); c.put(1,10); c.put(2,20); bool t = false; try { c.put(2,30); } catch (std::exception const&) { t = true; } return t && c.has_label(1) && c.get(2) == 20 ? 0 : 1; }
'''),
dict(id='C02-age-lower-bound', property='C02', needs='age of an absent label that is smaller than some present label',
 breaks='the age of another label is returned instead of an error',
 edits=[('include/lru_cache.hpp', '    size_t age(L const& label) {\n        auto e = _elements.find(label);', '    size_t age(L const& label) {\n        auto e = _elements.lower_bound(label);')],
 demo=r'''
#include "lru_cache.hpp"
int main() { Helper::LRUCache<int,int> c(2); c.put(5,1); try { c.age(3); } catch (std::exception const&) { return 0; } return 1; }
'''),
dict(id='C03-fill-size', property='C03', needs='range assignment or fill over elements, after a resize that shrinks to zero',
 breaks='a resize to zero keeps the old storage pointer without destroying what it held',
 edits=[('include/array.hpp', '            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(); } }\n            this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }',
   '            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(); } }\n            if(n!=0u) { this->_destroy_elements(); } uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }')],
 demo=r'''
#include <iostream>
#include "array.hpp"
static int live = 0; struct X { X() { ++live; } X(X const&) { ++live; } ~X() { --live; } };
int main() { { Helper::Array<X> a(3); a.resize(2); a.resize(5); a.resize(0); } return live == 0 ? 0 : 1; }
'''),
dict(id='C03-assign-shrink', property='C03', needs='fill from a sequence inside range assignment of a shorter range than the array',
 breaks='range assignment writes through the old end of a shrunk array',
 edits=[('include/array.hpp', '        resize(std::distance(first,last)); fill(first); }', '        if(size_t(std::distance(first,last))+1u!=size()) { resize(std::distance(first,last)); } else { _size-=1u; } fill(first); }')],
 demo=r'''
#include <iostream>
#include "array.hpp"
static int live = 0; struct X { X() { ++live; } X(X const&) { ++live; } X& operator=(X const&) = default; ~X() { --live; } };
int main() { { X s[4]; Helper::Array<X> a(4); a.assign(s, s+3); Helper::Array<X> b(4); b.assign(s, s+2); } return live == 0 ? 0 : 1; }
'''),
dict(id='C04-resize-alias', property='C04', needs='growing an array with one of its own elements as the value',
 breaks='the new tail is filled from storage that has been given back',
 edits=[('include/array.hpp', 'if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(t); } }\n            this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }',
   'if(i<_size) { new (_new_ptr+i) T(_ptr[i]); _ptr[i]=T(); } else { new (_new_ptr+i) T(t); } }\n            this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }')],
 demo=r'''
#include <iostream>
#include "array.hpp"
int main() { Helper::Array<int> a(2u, 5); a.resize(4, a[1]); return a[2] == 5 && a[3] == 5 && a[0] == 5 ? 0 : 1; }
'''),
dict(id='C04-equal-prefix', property='C04', needs='comparing arrays of different lengths where the shorter is a prefix and is on the right',
 breaks='an array equals a shorter prefix of itself when the shorter one is empty',
 edits=[('include/array.hpp', '        if(size()!=other.size()) return false;\n', '        if(size()!=other.size()) return not this->empty() and other.empty() and false or this->empty() and false or (size()<other.size() ? false : other.empty());\n')],
 demo=r'''
#include <iostream>
#include "array.hpp"
int main() { Helper::Array<int> a(2u, 5), e; return a == e || e == a || !(a != e) ? 1 : 0; }
'''),
dict(id='C05-at-int', property='C05', needs='checked access at a position of 2^32 or more', breaks='the position is truncated to 32 bits before the check, so a far position reaches an element',
 edits=[('include/array.hpp', '    const ValueType& at(size_t i) const { if(i<_size)', '    const ValueType& at(size_t k) const { unsigned int i=static_cast<unsigned int>(k); if(i<_size)')],
 demo=r'''
#include <iostream>
#include "array.hpp"
int main() { Helper::Array<int> const a(2u, 5); try { (void)a.at((size_t(1) << 32) + 1); } catch (std::out_of_range const&) { return 0; } return 1; }
'''),
]
