#include <algorithm>
#include "binary_word.hpp"
namespace wit {
using Bits = std::vector<char>;
inline Helper::BinaryWord word(Bits const& b) { Helper::BinaryWord w; for (char x : b) w.push_back(x != 0); return w; }
inline std::string txt(Bits const& b) { std::string s; for (char x : b) s += x ? '1' : '0'; return s; }
inline void holds(Helper::BinaryWord const& w, Bits const& b, std::string const& what) { std::string s; for (size_t i = 0; i < w.size(); ++i) s += w[i] ? '1' : '0'; same(s, txt(b), what); }
inline std::vector<Bits> small(size_t n) { std::vector<Bits> r; for (size_t k = 0; k <= n; ++k) for (size_t v = 0; v < (size_t(1) << k); ++v) { Bits b; for (size_t i = 0; i < k; ++i) b.push_back((v >> i) & 1); r.push_back(b); } return r; }
inline Bits random_bits(size_t n) { Bits b; for (size_t i = 0; i < n; ++i) b.push_back(rnd(2)); return b; }
}
