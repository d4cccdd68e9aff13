#include "opaque.hpp"
#include "container.hpp"
using namespace Helper; using namespace vf;
extern "C" {
void vf_new(std::vector<K>* p) { new (p) std::vector<K>(); }
void vf_new_int(std::vector<int>* p) { new (p) std::vector<int>(); }
bool vf_unique(std::vector<K> const& l) { return unique_elements(l); }
bool vf_unique_int(std::vector<int> const& l) { return unique_elements(l); }
bool vf_unique_list(List<K> const& l) { return unique_elements(l); }
void vf_duplicates(Set<K>* r, std::vector<K> const& l) { new (r) Set<K>(duplicate_elements(l)); }
void vf_duplicates_int(Set<int>* r, std::vector<int> const& l) { new (r) Set<int>(duplicate_elements(l)); }
void vf_duplicates_list(Set<K>* r, List<K> const& l) { new (r) Set<K>(duplicate_elements(l)); }
}
