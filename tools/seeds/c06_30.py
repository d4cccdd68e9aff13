SEEDS = [
dict(id='C06-empty-copy', property='C06', needs='copies of a shared array without elements', breaks='copies of an empty shared array are not counted, so its bookkeeping is released twice',
 edits=[('include/array.hpp', '_ptr(ary._ptr) { ++ *_count; }', '_ptr(ary._ptr) { if(_size!=0u) { ++ *_count; } }')],
 demo=r'''
#include <iostream>
#include "array.hpp"
int main() { Helper::SharedArray<int> a(0); { Helper::SharedArray<int> b(a); } return a.size() == 0 ? 0 : 1; }
'''),
dict(id='C06-assign-last', property='C06', needs='assigning to the last owner of a shared array a shared array of the same length', breaks='the assigned-to storage is kept although nobody owns it',
 edits=[('include/array.hpp', '{ --*_count; if(*_count==0) { delete _count; delete[] _ptr; } { _count=ary._count;', '{ --*_count; if(*_count==0 && _size!=ary._size) { delete _count; delete[] _ptr; } { _count=ary._count;')],
 demo=r'''
#include <iostream>
#include "array.hpp"
static int live = 0; struct X { X() { ++live; } X(X const&) { ++live; } ~X() { --live; } };
int main() { { Helper::SharedArray<X> a(2), b(3), c(3); a = b; b = c; a = c; } return live == 0 ? 0 : 1; }
'''),
dict(id='C07-many', property='C07', needs='more than 255 given indices', breaks='the position in the list of given indices wraps around',
 edits=[('include/array.hpp', 'size_t kr=0; size_t kv=0;', 'size_t kr=0; unsigned char kv=0;')],
 demo=r'''
#include <iostream>
#include "array.hpp"
int main() { Helper::Array<size_t> v(300); for (size_t i = 0; i != 300; ++i) v[i] = 2*i; auto c = Helper::complement(600, v); if (c.size() != 300) return 1;
  for (size_t i = 0; i != 300; ++i) if (c[i] != 2*i+1) return 1; return 0; }
'''),
dict(id='C07-read-past', property='C07', needs='a bound larger than the last given index', breaks='reads the entry after the last given index',
 edits=[('include/array.hpp', 'if(kv==vars.size() || j!=vars[kv]) {', 'if(j!=vars[kv] || kv==vars.size()) {')],
 demo=r'''
#include <iostream>
#include "array.hpp"
int main() { Helper::Array<size_t> v(2); v[0] = 1; v[1] = 4; auto c = Helper::complement(7, v); return c.size() == 5 && c[4] == 6 ? 0 : 1; }
'''),
dict(id='C08-skip', property='C08', needs='an occurrence that overlaps a partial match', breaks='the search for a subword skips everything a failed match has covered',
 edits=[('include/binary_word.hpp', 'for( size_t i = 0; i != ( b.size() - this->size() + 1 ); ++i ) {', 'for( size_t i = 0; i < ( b.size() - this->size() + 1 ); ++i ) {'),
        ('include/binary_word.hpp', '        if( j == this->size() ) {\n            return true;\n        }\n', '        if( j == this->size() ) {\n            return true;\n        }\n        if( j > 1 ) { i += j-1; }\n')],
 demo=r'''
#include "binary_word.hpp"
using Helper::BinaryWord;
int main() { BinaryWord w, b; for (char c : std::string("001")) w.append(c == '1'); for (char c : std::string("0001")) b.append(c == '1'); return w.is_subword(b) ? 0 : 1; }
'''),
dict(id='C08-empty', property='C08', needs='comparing two empty words', breaks='the empty word is no longer a subword of the empty word',
 edits=[('include/binary_word.hpp', 'inline bool BinaryWord::is_subword(const BinaryWord& b) const {\n    if( this->size() > b.size() ) {', 'inline bool BinaryWord::is_subword(const BinaryWord& b) const {\n    if( this->size() > b.size() || b.empty() ) {')],
 demo=r'''
#include "binary_word.hpp"
using Helper::BinaryWord;
int main() { BinaryWord e, b; b.append(true); return e.is_subword(e) && e.is_subword(b) && e.is_prefix(e) ? 0 : 1; }
'''),
dict(id='C09-negative', property='C09', needs='erasing a prefix of negative length', breaks='a negative length clears the word',
 edits=[('include/binary_word.hpp', '    //Erase prefix elements until the word is empry or we erased prefix_size elements\n', '    //A prefix that covers the whole word leaves nothing\n    if( total_size <= static_cast<size_t>(prefix_size) ) { clear(); return; }\n'),
        ('include/binary_word.hpp', '        erase( begin() );\n', '        erase( this->begin() );\n')],
 demo=r'''
#include "binary_word.hpp"
using Helper::BinaryWord;
int main() { BinaryWord b; b.append(true); b.append(false); b.erase_prefix(0); b.erase_prefix(-1); if (b.size() != 2) return 1; b.erase_prefix(5); return b.empty() ? 0 : 1; }
'''),
dict(id='C09-set-back', property='C09', needs='clearing the last bit of a word of nine bits or more', breaks='the last bit of the first byte is changed instead',
 edits=[('include/binary_word.hpp', 'void set_back (bool x) { (*this)[this->size()-1]=x; }', 'void set_back (bool x) { (*this)[(this->bytes()-1)*_bits_per_byte>8u ? this->size()-2 : this->size()-1]=x; }')],
 demo=r'''
#include "binary_word.hpp"
using Helper::BinaryWord;
int main() { BinaryWord b; for (int i = 0; i != 30; ++i) { b.append(true); b.set_back(false); if (b[i]) return 1; b.set_back(true); if (!b[i]) return 1; if (i > 0 && !b[i-1]) return 1; } return 0; }
'''),
dict(id='C10-space', property='C10', needs='a word followed by white space and more digits', breaks='reading does not stop at white space',
 edits=[('include/binary_word.hpp', '            input_stream.get( symbol );\n', '            input_stream >> symbol;\n')],
 demo=r'''
#include "binary_word.hpp"
using Helper::BinaryWord;
int main() { std::stringstream s("01 1 "); BinaryWord a; s >> a; return a.size() == 2 && !a[0] && a[1] ? 0 : 1; }
'''),
dict(id='C10-exhausted', property='C10', needs='reading into a word that is not empty from exhausted input', breaks='the previous contents are kept',
 edits=[('include/binary_word.hpp', '    binary_word.clear();\n', '    if( input_stream.peek() != std::istream::traits_type::eof() ) { binary_word.clear(); }\n')],
 demo=r'''
#include "binary_word.hpp"
using Helper::BinaryWord;
int main() { std::stringstream s(""); BinaryWord a; a.append(true); s >> a; return a.empty() ? 0 : 1; }
'''),
dict(id='C11-same-ends', property='C11', needs='sets of equal size that differ only between their smallest and largest element', breaks='inclusion is decided by the smallest and largest element',
 edits=[('include/container.hpp', '    bool subset(const std::set<T>& s) const {\n', '    bool subset(const std::set<T>& s) const {\n        if(s.size()==this->size() && s.size()>2u) { return !(*s.begin()<*this->begin() || *this->begin()<*s.begin() || *s.rbegin()<*this->rbegin() || *this->rbegin()<*s.rbegin()); }\n')],
 demo=r'''
#include <iostream>
#include <cassert>
#include "container.hpp"
int main() { Helper::Set<int> a, b; for (int i : {1,2,4}) a.insert(i); for (int i : {1,3,4}) b.insert(i); return a.subset(b) || !a.subset(a) ? 1 : 0; }
'''),
dict(id='C11-restrict-self', property='C11', needs='restricting a set to itself with the free function, as in the intersection of a set with itself', breaks='the set is emptied',
 edits=[('include/container.hpp', '    while(iter!=r.end()) { if(!contains(s,*iter)) { r.erase(iter++); } else { ++iter; } }\n', '    if(&r==&s) { r.clear(); return r; }\n    while(iter!=r.end()) { if(!contains(s,*iter)) { r.erase(iter++); } else { ++iter; } }\n')],
 demo=r'''
#include <iostream>
#include <cassert>
#include "container.hpp"
int main() { std::set<int> a{1,2,3}; Helper::restrict(a, a); return a.size() == 3 ? 0 : 1; }
'''),
dict(id='C12-join-larger', property='C12', needs='joining maps with a common key where the second map is the larger one', breaks='the second map wins',
 edits=[('include/container.hpp', '    m1.adjoin(m2); return m1; }', '    if(m1.size()<m2.size()) { Map<K,T> r(m2); r.adjoin(m1); return r; }\n    m1.adjoin(m2); return m1; }')],
 demo=r'''
#include <iostream>
#include <cassert>
#include "container.hpp"
int main() { Helper::Map<int,int> a, b; a.insert(1,10); b.insert(1,20); b.insert(2,30); auto j = Helper::join(a,b); return j.get(1) == 10 && j.get(2) == 30 && j.size() == 2 ? 0 : 1; }
'''),
dict(id='C12-const-index', property='C12', needs='indexing a constant map with an absent key below a present one', breaks='the value of another key is returned',
 edits=[('include/container.hpp', 'const T& operator[](K k) const { auto iter=this->find(k);', 'const T& operator[](K k) const { auto iter=this->lower_bound(k);')],
 demo=r'''
#include <iostream>
#include <cassert>
#include "container.hpp"
int main() { Helper::Map<int,int> a; a.insert(5,50); Helper::Map<int,int> const& c = a; try { c[3]; } catch (std::runtime_error const&) { return c[5] == 50 ? 0 : 1; } return 1; }
'''),
dict(id='C13-append-own', property='C13', needs='appending an element of the list itself when its storage is full', breaks='the element is read after its storage was released',
 edits=[('include/container.hpp', '    void append(const T& t) { this->push_back(t); }\n    void append(const std::vector<T>& t) {', '    void append(const T& t) { if(this->size()==this->capacity()) { this->reserve(2u*this->size()+1u); } this->push_back(t); }\n    void append(const std::vector<T>& t) {')],
 demo=r'''
#include <iostream>
#include <cassert>
#include <string>
#include "container.hpp"
int main() { Helper::List<std::string> l; l.append(std::string("a string that is long enough to be stored elsewhere")); for (int i = 0; i != 9; ++i) l.append(l[0]); for (auto& s : l) if (s != l[0]) return 1; return 0; }
'''),
dict(id='C13-linked', property='C13', needs='converting a list of more than two elements to a linked list', breaks='the order of the elements is not kept',
 edits=[('include/container.hpp', 'template<class X> LinkedList(const List<X>& l) : std::list<T>(l.begin(),l.end()) { }', 'template<class X> LinkedList(const List<X>& l) : std::list<T>() { for(auto iter=l.begin(); iter!=l.end(); ++iter) { this->insert(this->size()>1u ? ++this->begin() : this->end(),T(*iter)); } }')],
 demo=r'''
#include <iostream>
#include <cassert>
#include "container.hpp"
int main() { Helper::List<int> l; for (int i = 0; i != 4; ++i) l.append(i); Helper::LinkedList<int> k(l); int i = 0; for (int x : k) if (x != i++) return 1; return i == 4 ? 0 : 1; }
'''),
dict(id='C14-last', property='C14', needs='a sequence whose only repetition is its last element', breaks='the last element is not compared',
 edits=[('include/container.hpp', '        if(found.contains(*iter)) { return false; } else { found.insert(*iter); } }\n    return true;', '        if(found.size()!=static_cast<size_t>(iter-lst.begin())) { return false; } else { found.insert(*iter); } }\n    return true;')],
 demo=r'''
#include <iostream>
#include <cassert>
#include "container.hpp"
int main() { return Helper::unique_elements(std::vector<int>{1,2,2}) || !Helper::unique_elements(std::vector<int>{1,2,3}) || Helper::unique_elements(std::vector<int>{1,1,2}) ? 1 : 0; }
'''),
dict(id='C14-adjacent', property='C14', needs='equal elements that are not next to each other, more than eight positions into the sequence', breaks='only neighbours are compared after the first eight elements',
 edits=[('include/container.hpp', '        if(found.contains(*iter)) { result.insert(*iter); } else { found.insert(*iter); } }\n    return result;', '        if(iter-lst.begin()>8 ? *iter==*(iter-1) : found.contains(*iter)) { result.insert(*iter); } else { found.insert(*iter); } }\n    return result;')],
 demo=r'''
#include <iostream>
#include <cassert>
#include "container.hpp"
int main() { std::vector<int> v; for (int i = 0; i != 12; ++i) v.push_back(i); v.push_back(3); return Helper::duplicate_elements(v).size() == 1 ? 0 : 1; }
'''),
dict(id='C15-separator', property='C15', needs='writing a map sequence with a separator of one\'s own', breaks='the separator is always a comma',
 edits=[('include/stlio.hpp', '''        os << first->first << descriptor << first->second;
        ++first;
        if(first != last) {
            os << separator;''', '''        os << first->first << descriptor << first->second;
        ++first;
        if(first != last) {
            os << ',';''')],
 demo=r'''
#include <iostream>
#include <sstream>
#include "stlio.hpp"
int main() { std::map<int,int> m{{1,2},{3,4}}; std::stringstream s; Helper::write_map_sequence(s, m.begin(), m.end(), '<', '>', ';', '='); return s.str() == "<1=2;3=4>" ? 0 : 1; }
'''),
dict(id='C15-tuple', property='C15', needs='printing a tuple with four or more components', breaks='the separator after the first of many components is missing',
 edits=[('include/stlio.hpp', "        os << ',';\n    }\n    os << std::get<N-1>(tup);", "        if constexpr (N!=2 or std::tuple_size<TUP>::value<4) { os << ','; }\n    }\n    os << std::get<N-1>(tup);")],
 demo=r'''
#include <iostream>
#include <sstream>
#include "stlio.hpp"
int main() { std::stringstream s, t; s << std::make_tuple(1,2,3); t << std::make_tuple(1,2,3,4); return s.str() == "(1,2,3)" && t.str() == "(1,2,3,4)" ? 0 : 1; }
'''),
dict(id='C16-comma', property='C16', needs='reading with a separator that is not a comma from input with commas', breaks='a comma is accepted too',
 edits=[('include/stlio.hpp', '            if(c!=separator) {', "            if(c!=separator && c!=',') {")],
 demo=r'''
#include <iostream>
#include <sstream>
#include "stlio.hpp"
int main() { std::stringstream s("(1;2,3)"); std::vector<int> v; try { Helper::read_sequence(s, v, '(', ')', ';'); } catch (std::ios_base::failure const&) { return 0; } return 1; }
'''),
dict(id='C16-trailing', property='C16', needs='a list that ends in a separator', breaks='the trailing separator is accepted',
 edits=[('include/stlio.hpp', '            v.push_back(x);\n            is >> c;\n', '            v.push_back(x);\n            is >> c;\n            if(c==separator && (is >> std::ws).peek()==closing) { is >> c; }\n')],
 demo=r'''
#include <iostream>
#include <sstream>
#include "stlio.hpp"
int main() { std::stringstream s("[1,2,]"); std::vector<int> v; try { Helper::read_sequence(s, v); } catch (std::ios_base::failure const&) { return 0; } return 1; }
'''),
dict(id='C17-retry', property='C17', needs='a factory that raises an error on its first call', breaks='the next access does not try again and uses an object that does not exist',
 edits=[('include/lazy.hpp', 'if (_obj == nullptr) _obj.reset(_func()); return *_obj; };', 'if (!_created) { _created = true; _obj.reset(_func()); } return *_obj; };'),
        ('include/lazy.hpp', '    mutable shared_ptr<O> _obj;\n', '    mutable shared_ptr<O> _obj;\n    mutable bool _created = false;\n')],
 demo=r'''
#include "lazy.hpp"
int main() { int n = 0; Helper::Lazy<int> l([&n]() -> int* { if (n++ == 0) throw 1; return new int(7); }); try { l(); return 1; } catch (int) { } return l() == 7 && n == 2 ? 0 : 1; }
'''),
dict(id='C17-copy', property='C17', needs='a copy made after the first access', breaks='the copy creates an object of its own',
 edits=[('include/lazy.hpp', '    Lazy(function<O*()> func) : _func(func) { }\n', '    Lazy(function<O*()> func) : _func(func) { }\n    Lazy(Lazy<O> const& other) : _func(other._func) { }\n')],
 demo=r'''
#include "lazy.hpp"
int main() { int n = 0; Helper::Lazy<int> l([&n]() { return new int(++n); }); int const* p = &l(); Helper::Lazy<int> k(l); return &k() == p && n == 1 ? 0 : 1; }
'''),
dict(id='C18-two', property='C18', needs='exactly two handles that share their object', breaks='a write through one handle is seen through the other',
 edits=[('include/handle.hpp', '    template<class II> static void _make_unique(shared_ptr<II>& ptr) {\n', '    template<class II> static void _make_unique(shared_ptr<II>& ptr) {\n        if(ptr.use_count()<=2) { return; }\n')],
 demo=r'''
#include <iostream>
#include <typeinfo>
#include "handle.hpp"
struct I { int v = 0; virtual ~I() = default; virtual I* clone() const { return new I(*this); } I* _copy() const { return clone(); } I* _move() { return clone(); } };
int main() { Helper::Handle<I> a(new I), b(a); b.reference().v = 5; if (a.const_reference().v != 0) return 1; Helper::Handle<I> c(a), d(a); c.reference().v = 6; return a.const_reference().v == 0 && d.const_reference().v == 0 ? 0 : 1; }
'''),
dict(id='C18-read-clones', property='C18', needs='reading through a constant handle that shares its object', breaks='read-only access makes a clone',
 edits=[('include/handle.hpp', '    const I* ptr() const { return _ptr.operator->(); }', '    const I* ptr() const { if(_ptr.use_count()>1) { _make_unique(_ptr); } return _ptr.operator->(); }')],
 demo=r'''
#include <iostream>
#include <typeinfo>
#include "handle.hpp"
static int clones = 0;
struct I { int v = 0; virtual ~I() = default; virtual I* clone() const { ++clones; return new I(*this); } I* _copy() const { return clone(); } I* _move() { return clone(); } };
int main() { Helper::Handle<I> const a(new I); Helper::Handle<I> const b(a); return a.ptr() == b.ptr() && clones == 0 ? 0 : 1; }
'''),
dict(id='C19-not-writable', property='C19', needs='a failing cast of an object that cannot write itself', breaks='the error message is written through a null pointer instead of raising a bad-cast error',
 edits=[('include/handle.hpp', 'if (w) { w->_write(os); } else { os << "object"; }', 'os << *w;')],
 demo=r'''
#include <iostream>
#include <typeinfo>
#include "handle.hpp"
struct I { virtual ~I() = default; virtual I* clone() const { return new I(*this); } I* _copy() const { return clone(); } I* _move() { return clone(); } };
struct T : I { I* clone() const override { return new T(*this); } }; struct U : I { I* clone() const override { return new U(*this); } };
int main() { Helper::Handle<I> h(new T); try { Helper::dynamic_handle_extract<U>(h); } catch (std::bad_cast const&) { return 0; } return 1; }
'''),
dict(id='C19-exact-type', property='C19', needs='casting a handle to an interface its object implements beside the first one', breaks='only the interface the handle was made for is found',
 edits=[('include/handle.hpp', '        shared_ptr<DI> p=std::dynamic_pointer_cast<DI>(h.managed_pointer());\n        if(p) {', '        shared_ptr<DI> p=std::dynamic_pointer_cast<DI>(h.managed_pointer());\n        if(p && static_cast<void const*>(p.get())==static_cast<void const*>(h.managed_pointer().get())) {')],
 demo=r'''
#include <iostream>
#include <typeinfo>
#include "handle.hpp"
struct I { virtual ~I() = default; virtual I* clone() const { return new I(*this); } I* _copy() const { return clone(); } I* _move() { return clone(); } };
struct J { virtual ~J() = default; virtual J* clone() const { return new J(*this); } J* _copy() const { return clone(); } J* _move() { return clone(); } };
struct T : I, J { T* clone() const override { return new T(*this); } };
int main() { Helper::Handle<I> h(new T); try { Helper::dynamic_handle_cast<Helper::Handle<J>>(h); } catch (std::bad_cast const&) { return 1; } return 0; }
'''),
dict(id='C20-narrow', property='C20', needs='subtracting an offset that does not fit an int', breaks='the offset is truncated',
 edits=[('include/iterator.hpp', 'I operator-(std::ptrdiff_t n) const { I result(static_cast<const I&>(*this)); IteratorCoreAccess::advance(result,-n); return result; }', 'I operator-(std::ptrdiff_t n) const { I result(static_cast<const I&>(*this)); IteratorCoreAccess::advance(result,-static_cast<int>(n)); return result; }')],
 demo=r'''
#include <iostream>
#include "iterator.hpp"
struct It : Helper::IteratorFacade<It,long,Helper::RandomAccessTraversalTag,long> { long p; explicit It(long q) : p(q) { } bool equal(It const& o) const { return p == o.p; } std::ptrdiff_t distance_to(It const& o) const { return o.p - p; } void advance(std::ptrdiff_t n) { p += n; } long dereference() const { return p; } };
int main() { It i(1L << 40); return (i - (1L << 33)).p == (1L << 40) - (1L << 33) && (i - 3).p == (1L << 40) - 3 ? 0 : 1; }
'''),
dict(id='C20-pair-advance', property='C20', needs='advancing a pair of iterators backwards', breaks='the second component is moved forwards',
 edits=[('include/iterator.hpp', '    _iter1+=(k), _iter2+=(k); }', '    _iter1+=(k), _iter2+=(k<0 ? -k : k); }')],
 demo=r'''
#include <iostream>
#include "iterator.hpp"
int main() { int a[5], b[5]; Helper::PairIterator<int*,int*> p(a+2, b+2), q(a+1, b+1); p.advance(-1); return p.equal(q) ? 0 : 1; }
'''),
dict(id='C21-narrow', property='C21', needs='a range beyond the largest unsigned int', breaks='iteration starts at a truncated index',
 edits=[('include/range.hpp', '  private:\n    size_t _i;', '  private:\n    unsigned int _i;')],
 demo=r'''
#include "range.hpp"
int main() { size_t s = size_t(1) << 33, n = 0; for (size_t i : Helper::range(s, s+3)) if (i != s + n++) return 1; return n == 3 ? 0 : 1; }
'''),
dict(id='C21-clamp', property='C21', needs='a range that ends at the largest index', breaks='its last index is left out',
 edits=[('include/range.hpp', 'inline RangeIterator end(Range rng) { return RangeIterator(rng.stop()); }', 'inline RangeIterator end(Range rng) { return RangeIterator(rng.stop()+1u==0u ? rng.stop()-1u : rng.stop()); }')],
 demo=r'''
#include "range.hpp"
int main() { size_t m = ~size_t(0), n = 0; for (size_t i : Helper::range(m-3, m)) { (void)i; ++n; if (n > 5) return 1; } return n == 3 ? 0 : 1; }
'''),
dict(id='C22-shared', property='C22', needs='two randomisers of the same type with different bounds', breaks='the second one uses the bounds of the first',
 edits=[('include/randomiser.hpp', 'T get() override { return this->_distribution(RANDOM_GENERATOR.engine()); }', 'T get() override { static D distribution(this->_distribution.param()); return distribution(RANDOM_GENERATOR.engine()); }')],
 demo=r'''
#include "randomiser.hpp"
int main() { Helper::UniformIntRandomiser<int> a(0,3), b(100,103); for (int i = 0; i != 50; ++i) { int x = a.get(), y = b.get(); if (x < 0 || x > 3 || y < 100 || y > 103) return 1; } return 0; }
'''),
dict(id='C22-width', property='C22', needs='integer bounds whose difference is the largest value of the type or more', breaks='the upper bound is moved by an overflowing sum',
 edits=[('include/randomiser.hpp', 'UniformIntRandomiser(T min, T max) : RandomiserBase<T,std::uniform_int_distribution<T>>(min,max) { }', 'UniformIntRandomiser(T min, T max) : RandomiserBase<T,std::uniform_int_distribution<T>>(min,static_cast<T>(min+static_cast<T>(static_cast<float>(max-min)))) { }')],
 demo=r'''
#include "randomiser.hpp"
int main() { long long lo = 0, hi = (1LL << 40) - 1; Helper::UniformIntRandomiser<long long> a(hi-1, hi), b(lo, hi); for (int i = 0; i != 200; ++i) { long long x = a.get(); if (x < hi-1 || x > hi) return 1; }
  Helper::UniformIntRandomiser<int> c(0, 16777217), d(16777217*2-1, 16777217*2-1); (void)c; for (int i = 0; i != 20; ++i) if (d.get() != 16777217*2-1) return 1;
  struct Fixed { using result_type = unsigned; }; Helper::UniformIntRandomiser<unsigned long long> e(0, ~0ULL >> 1), g(0, (1ULL << 54) - 1); 
  struct Probe : Helper::UniformIntRandomiser<unsigned long long> { using Helper::UniformIntRandomiser<unsigned long long>::UniformIntRandomiser; unsigned long long top() const { return this->_distribution.max(); } };
  return Probe(0, (1ULL << 54) - 1).top() <= (1ULL << 54) - 1 ? 0 : 1; }
'''),
dict(id='C23-restart', property='C23', needs='a clock that moves between two readings inside a restart', breaks='the duration right after a restart is not zero',
 edits=[('include/stopwatch.hpp', 'Stopwatch& restart() { _initial = ResolutionType::now(); _clicked = _initial; return *this; }', 'Stopwatch& restart() { _initial = ResolutionType::now(); _clicked = ResolutionType::now(); return *this; }')],
 demo=r'''
#include "stopwatch.hpp"
static long ticks = 0;
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { ticks += 5000000; return time_point(duration(ticks)); } } } }
int main() { Helper::Stopwatch<Helper::Milliseconds> w; if (w.duration().count() != 0) return 1; w.click(); if (w.duration().count() != 5) return 1; w.restart(); return w.duration().count() == 0 ? 0 : 1; }
'''),
dict(id='C23-seconds', property='C23', needs='a unit coarser than the time measured', breaks='the elapsed seconds are not the reported duration',
 edits=[('include/stopwatch.hpp', 'std::chrono::duration_cast<std::chrono::duration<double>>(duration()).count(); }', 'std::chrono::duration_cast<std::chrono::duration<double>>(_clicked-_initial).count(); }')],
 demo=r'''
#include "stopwatch.hpp"
static long ticks = 0;
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { ticks += 700000000; return time_point(duration(ticks)); } } } }
int main() { Helper::Stopwatch<Helper::Seconds> w; w.click(); w.click(); return w.duration().count() == 1 && w.elapsed_seconds() == 1.0 ? 0 : 1; }
'''),
dict(id='C24-seventh', property='C24', needs='a variant with exactly eight alternatives holding the eighth', breaks='the seventh alternative is visited',
 edits=[('include/variant.inl.hpp', 'case T7::code(): return v(T7()); case T8::code(): return v(T8());\n        default: abort(); } }', 'case T7::code(): return v(T7()); case T8::code(): return v(T7());\n        default: abort(); } }')],
 demo=r'''
#include <cstdlib>
#include <type_traits>
using std::abort;
#include "variant.hpp"
#include "variant.inl.hpp"
template<int N> struct A { static constexpr int code() { return N; } };
struct V { int operator()(auto a) const { return a.code(); } };
int main() { V v; for (int i = 1; i <= 8; ++i) if (Helper::coded_visit<V const,int,A<1>,A<2>,A<3>,A<4>,A<5>,A<6>,A<7>,A<8>>(v, i) != i) return 1; return 0; }
'''),
dict(id='C25-fifth', property='C25', needs='a tuple of six or more components', breaks='the fifth component of a longer tuple is its last one',
 edits=[('include/tuple.hpp', '#include <tuple>\n', '#include <tuple>\n#include <type_traits>\n'), ('include/tuple.hpp', 'return std::get<4>(std::forward<T>(t)); }', 'return std::get<std::tuple_size<typename std::remove_reference<T>::type>::value-1>(std::forward<T>(t)); }')],
 demo=r'''
#include "tuple.hpp"
int main() { auto t = std::make_tuple(1,2,3,4,5); auto u = std::make_tuple(1,2,3,4,5,6); return Helper::get_fifth(t) == 5 && Helper::get_fifth(u) == 5 ? 0 : 1; }
'''),
dict(id='C25-lpair', property='C25', needs='a pair of references to one variable and another', breaks='assigning through the pair of references stores in the wrong order when both refer to one array',
 edits=[('include/tuple.hpp', 'constexpr Pair<T1&,T2&> make_lpair(T1& t1, T2& t2) { return Pair<T1&,T2&>(t1,t2); }', 'constexpr Pair<T1&,T2&> make_lpair(T1& t1, T2& t2) { if constexpr (__is_same(T1,T2)) { if(&t2+1==&t1) { return Pair<T1&,T2&>(t2,t1); } } return Pair<T1&,T2&>(t1,t2); }')],
 demo=r'''
#include "tuple.hpp"
int main() { int a[3] = {0,0,0}; Helper::make_lpair(a[0],a[1]) = Helper::make_pair(1,2); if (a[0] != 1 || a[1] != 2) return 1; Helper::make_lpair(a[2],a[1]) = Helper::make_pair(3,4); return a[2] == 3 && a[1] == 4 ? 0 : 1; }
'''),
dict(id='C26-twice', property='C26', needs='a precondition with a message whose condition has an effect', breaks='the condition is evaluated twice',
 edits=[('include/macros.hpp', '#define HELPER_PRECONDITION_MSG(expression,error)             \\\r\n    { \\\r\n        bool assertion_result = static_cast<bool>(expression); \\\r\n        if(!assertion_result) { \\\r\n', '#define HELPER_PRECONDITION_MSG(expression,error)             \\\r\n    { \\\r\n        bool assertion_result = (expression) ? static_cast<bool>(expression) : false; \\\r\n        if(!assertion_result) { \\\r\n')],
 demo=r'''
#include <iostream>
#include "macros.hpp"
int main() { int n = 0; HELPER_PRECONDITION_MSG(++n == 1 || n == 2, "n"); return n == 1 ? 0 : 1; }
'''),
dict(id='C27-unknown', property='C27', needs='a tried statement that raises something that is not a standard exception', breaks='the failure is not counted',
 edits=[('include/test.hpp', '    catch(...) {                                                        \\\n        ++HELPER_TEST_FAILURES;                                        \\\n        std::cout << "unknown exception\\n"', '    catch(...) {                                                        \\\n        std::cout << "unknown exception\\n"')],
 demo=r'''
#include <string>
#include <iostream>
#include "test.hpp"
int main() { HELPER_TEST_TRY(throw 1); if (HELPER_TEST_FAILURES != 1) return 1; HELPER_TEST_TRY(throw std::runtime_error("x")); return HELPER_TEST_FAILURES == 2 ? 0 : 1; }
'''),
dict(id='C27-subtype', property='C27', needs='a statement that raises a standard exception of another type than expected, derived from the same base', breaks='it is taken for the expected one',
 edits=[('include/test.hpp', '        catch(const std::exception& except) {                                \\\n            ++HELPER_TEST_FAILURES;                                    \\\n            std::cout << "\\nERROR: caught exception " << except.what() << "; expected "', '        catch(const std::exception& except) {                                \\\n            if(std::is_base_of<std::runtime_error,error>::value != (dynamic_cast<const std::runtime_error*>(&except)!=nullptr)) { ++HELPER_TEST_FAILURES; } \\\n            std::cout << "\\nERROR: caught exception " << except.what() << "; expected "')],
 demo=r'''
#include <string>
#include <iostream>
#include "test.hpp"
int main() { HELPER_TEST_THROWS(throw std::range_error("x"), std::overflow_error); if (HELPER_TEST_FAILURES != 1) return 1; HELPER_TEST_THROWS(throw std::logic_error("x"), std::runtime_error); if (HELPER_TEST_FAILURES != 2) return 1; HELPER_TEST_THROWS(throw std::range_error("x"), std::runtime_error); return HELPER_TEST_FAILURES == 2 ? 0 : 1; }
'''),
dict(id='C28-deep', property='C28', needs='a call stack of more than 128 frames', breaks='more frames are captured than there is room for', libs='src/stack_trace.cpp -DENABLE_STACK_TRACE -fno-inline -fno-optimize-sibling-calls',
 edits=[('src/stack_trace.cpp', 'const int nMaxFrames = sizeof(callstack) / sizeof(callstack[0]);', 'const int nMaxFrames = sizeof(callstack);')],
 demo=r'''
namespace Helper { void stack_trace(); }
volatile int sink = 0;
void deep(int n) { if (n == 0) Helper::stack_trace(); else deep(n-1); sink = sink + 1; }
int main() { deep(400); return 0; }
'''),
dict(id='C28-stop', property='C28', needs='a frame outside every loaded object followed by others', breaks='the frames after it are not reported', libs='src/stack_trace.cpp -DENABLE_STACK_TRACE',
 edits=[('src/stack_trace.cpp', '            std::cerr << i << " " << callstack[i] << "\\n";\n', '            std::cerr << i << " " << callstack[i] << "\\n"; nFrames = i;\n')],
 demo=r'''
#include <iostream>
#include <sstream>
#include <dlfcn.h>
#include <execinfo.h>
#include <cstdlib>
namespace Helper { void stack_trace(); }
static int frames = 0, asked = 0;
extern "C" int backtrace(void** b, int n) { frames = 4; for (int i = 0; i < 4; ++i) b[i] = (void*)(16 + i); (void)n; return 4; }
extern "C" char** backtrace_symbols(void* const*, int n) { char** r = (char**)malloc(n * sizeof(char*)); for (int i = 0; i < n; ++i) r[i] = (char*)"symbol"; return r; }
extern "C" int dladdr(const void*, Dl_info* i) { *i = Dl_info{}; i->dli_sname = "name"; return asked++ == 1 ? 0 : 1; }
int main() { std::stringstream s; auto* old = std::cerr.rdbuf(s.rdbuf()); Helper::stack_trace(); std::cerr.rdbuf(old); int n = 0; for (char c : s.str()) n += c == '\n'; return n == 4 ? 0 : 1; }
''', flags='-D_GNU_SOURCE'),
dict(id='C29-copy', property='C29', needs='an object whose text depends on which object it is, or that is changed between applying the writer and streaming', breaks='the writer is applied to a copy',
 edits=[('include/writable.hpp', '    W const& _w; T const& _t;\n', '    W const& _w; T const _t;\n')],
 demo=r'''
#include <iostream>
#include <sstream>
#include <typeinfo>
#include "handle.hpp"
#include "writable.hpp"
struct A { virtual ~A() = default; virtual char name() const { return 'A'; } }; struct B : A { char name() const override { return 'B'; } };
struct W : Helper::WriterInterface<A> { virtual W* clone() const { return new W(*this); } std::ostream& _write(std::ostream& os, A const& a) const override { return os << a.name(); } };
int main() { B b; W w; Helper::Writer<A> h((Helper::Handle<Helper::WriterInterface<A>>(std::shared_ptr<Helper::WriterInterface<A>>(new W)))); std::stringstream s; s << h(b); return s.str() == "B" ? 0 : 1; }
'''),
dict(id='C29-returned', property='C29', needs='a write member that returns another stream than it was given', breaks='the stream the write member returned is returned',
 edits=[('include/writable.hpp', '{ w._write(os); return os; }', '{ return w._write(os) << ""; }')],
 demo=r'''
#include <iostream>
#include <sstream>
#include <typeinfo>
#include "handle.hpp"
#include "writable.hpp"
struct A : Helper::WritableInterface { std::ostream& _write(std::ostream& os) const override { os << "A"; return std::clog; } };
int main() { A a; Helper::WritableInterface const& w = a; std::stringstream s; std::ostream& r = (s << w); return &r == &s && s.str() == "A" ? 0 : 1; }
'''),
dict(id='C30-blank', property='C30', needs='a value whose text contains white space', breaks='the text is cut at the first blank',
 edits=[('include/string.hpp', 'std::stringstream ss; ss << t; return ss.str(); }', 'std::stringstream ss; ss << t; String r; ss >> r; return r; }')],
 demo=r'''
#include <iostream>
#include "string.hpp"
struct P { friend std::ostream& operator<<(std::ostream& os, P const&) { return os << "a b"; } };
int main() { return Helper::to_string(P()) == "a b" && Helper::to_str(5) == "5" ? 0 : 1; }
'''),
dict(id='C30-dangling', property='C30', needs='reading the C string view of a string after the call', breaks='the view belongs to a copy that is gone',
 edits=[('include/string.hpp', 'inline const char* c_str(const String& str) {', 'inline const char* c_str(const String str) {')],
 demo=r'''
#include <iostream>
#include <cstring>
#include "string.hpp"
int main() { Helper::String s("a string that is long enough to be stored elsewhere"); const char* p = Helper::c_str(s); return p == s.c_str() && std::strlen(p) == s.size() ? 0 : 1; }
'''),
]
