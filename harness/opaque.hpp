// Opaque parameter types: every operation is declared and never defined, so whatever is proved about a
// template instantiated with them uses only the contracts the engine assumes for these operations
// (see engine/models.py, "opaque element types"); it holds for every type that satisfies them.
#ifndef VF_OPAQUE_HPP
#define VF_OPAQUE_HPP
#include <iosfwd>
#include <cstddef>
using std::size_t;
namespace vf {
// a fully general value type (not default constructible)
#define VF_OPAQUE(NAME,DEFCTOR,SIZE) \
struct NAME { DEFCTOR NAME(NAME const&) noexcept; NAME(NAME&&) noexcept; ~NAME() noexcept; \
  NAME& operator=(NAME const&) noexcept; NAME& operator=(NAME&&) noexcept; private: long _data[SIZE]; }; \
bool operator<(NAME const&, NAME const&) noexcept; bool operator>(NAME const&, NAME const&) noexcept; \
bool operator<=(NAME const&, NAME const&) noexcept; bool operator>=(NAME const&, NAME const&) noexcept; \
bool operator==(NAME const&, NAME const&) noexcept; bool operator!=(NAME const&, NAME const&) noexcept; \
std::ostream& operator<<(std::ostream&, NAME const&);

VF_OPAQUE(K,,1)            // ordered keys / set elements
VF_OPAQUE(V,,2)            // mapped values
VF_OPAQUE(P,,1)            // construction parameters
// default-constructible elements, convertible from K, explicitly convertible from V, constructible with a parameter
VF_OPAQUE(E,E() noexcept; E(K const&) noexcept; explicit E(V const&) noexcept; E(K const&, P const&) noexcept; E(double, P const&) noexcept;,3)
// functions: the result is a function of the function object and the arguments
VF_OPAQUE(G,E operator()(size_t) const noexcept; V operator()(E const&) const noexcept; K operator()(K const&) const noexcept; K operator()(E const&, V const&) const noexcept;,1)
}
#endif
