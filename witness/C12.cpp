#define WIT_ALLOC
#include "wit.hpp"
#include "container.hpp"
using namespace wit; using namespace Helper;
typedef std::map<int,int> R;      // the reference: keys in ascending order of the model
template<class T> struct Of { static T mk(int x) { return T(x); } static int val(T const& t) { if constexpr (requires { t.v; }) return t.v; else return int(t); } };
template<> struct Of<std::string> { static std::string mk(int x) { return std::to_string(x + 5000); } static int val(std::string const& t) { return std::stoi(t) - 5000; } };
struct Down { int v; bool operator<(Down const& o) const { return v > o.v; } Down(int x) : v(x) { } };
template<class K, class T> static Map<K,T> mk(R const& r) { Map<K,T> m; for (auto& p : r) m.std::template map<K,T>::insert(std::make_pair(Of<K>::mk(p.first), Of<T>::mk(p.second))); return m; }
static std::string txt(R const& r) { std::string s; for (auto& p : r) s += std::to_string(p.first) + ":" + std::to_string(p.second) + " "; return s.substr(0, 400); }
template<class K, class T> static void is(std::map<K,T> const& m, R const& r, const char* what) { R v; for (auto& p : m) v[Of<K>::val(p.first)] = Of<T>::val(p.second); if (v != r) fail(std::string(what) + ": got " + txt(v) + ", expected " + txt(r)); same(m.size(), r.size(), what); }
template<class K, class T> static void all(const char* tn, R const& a, R const& b) {
    begin(std::string(tn) + " " + txt(a) + "| " + txt(b)); typedef Map<K,T> M; typedef std::map<K,T> B; M const A = mk<K,T>(a), N = mk<K,T>(b); B const& Ab = A; B const& Nb = N;
    std::vector<int> ks{-7, -2, -1, 0, 1, 2, 3, 99}; if (a.size()) { ks.push_back(a.begin()->first); ks.push_back(a.rbegin()->first); }
    for (int k : ks) { K key = Of<K>::mk(k); bool in = a.count(k); M m = A; same(A.has_key(key), in, "has_key");
        if (in) { int v = a.at(k); same(Of<T>::val(A[key]), v, "value by index on a constant map"); same(Of<T>::val(A.get(key)), v, "get"); same(Of<T>::val(A.value(key)), v, "value on a constant map"); same(Of<T>::val(m.value(key)), v, "value"); same(Of<T>::val(m[key]), v, "value by index"); is(m, a, "lookups change nothing"); expect(&A.get(key) == &A.find(key)->second && &A[key] == &A.find(key)->second && &A.value(key) == &A.find(key)->second && &m.value(key) == &m.find(key)->second, "lookups refer to the stored value"); }
        else { expect(throws([&] { A[key]; }), "absent key on a constant map"); expect(throws([&] { A.get(key); }), "get of an absent key"); expect(throws([&] { A.value(key); }), "value of an absent key on a constant map"); expect(throws([&] { m.value(key); }), "value of an absent key"); expect(throws([&] { m.get(key); }), "get of an absent key"); is(m, a, "failed lookups change nothing"); is(A, a, "failed lookups change nothing"); }
        for (int how = 0; how < 6; ++how) { M w = A; R r = a; int v = 700 + how; T x = Of<T>::mk(v); if (how == 0) { w.insert(key, x); r.insert({k, v}); } else if (how == 1) { w.insert(std::pair<K,T>(key, x)); r.insert({k, v}); } else if (how == 2) { T& y = insert(w, key, x); r.insert({k, v}); same(Of<T>::val(y), r[k], "insert refers to the stored value"); expect(&y == &w.find(key)->second, "insert refers to the stored value"); } else if (how == 4) { std::pair<K,T> const kv(key, x); w.insert(kv); r.insert({k, v}); } else if (how == 5) { std::pair<K,T> kv(key, x); w.insert(kv); r.insert({k, v}); } else { if constexpr (std::is_default_constructible_v<T>) { w[key] = x; r[k] = v; } } is(w, r, how == 3 ? "assignment through the index" : "insert"); is(A, a, "copies are independent"); }
        if (a.size()) { M w = A; R r = a; int l = a.rbegin()->first; K lk = Of<K>::mk(l); w.insert(key, w.value(lk)); r.insert({k, a.at(l)}); is(w, r, "insert of an own value"); insert(w, w.begin()->first, w.value(lk)); is(w, r, "insert under an own key"); }
        if (in) { M w = A; R r = a; w.value(key) = Of<T>::mk(801); r[k] = 801; is(w, r, "assignment through value"); } }
    { R r = a; r.insert(b.begin(), b.end()); M m = A; m.adjoin(Nb); is(m, r, "adjoin"); m = A; m.adjoin(m); is(m, a, "adjoin the map itself"); is(join(A, N), r, "join"); is(join(A, A), a, "join with itself"); M w = A; w = join(w, N); is(w, r, "map replaced by a join of itself"); R q = b; q.insert(a.begin(), a.end()); is(join(N, A), q, "join, exchanged"); }
    { Set<K> s; for (auto& p : b) s.insert(Of<K>::mk(p.first)); R r = a, t; for (auto& p : b) r.erase(p.first); for (auto& p : a) if (b.count(p.first)) t.insert(p); M m = A; m.remove_keys(s); is(m, r, "remove_keys"); m = A; m.remove_keys(A.keys()); is(m, R(), "remove_keys of all"); std::set<K> const& sb = s; is(restrict_keys(Ab, sb), t, "restrict_keys"); std::set<K> const own = A.keys(), none; is(restrict_keys(Ab, own), a, "restrict_keys to all"); is(restrict_keys(Ab, none), R(), "restrict_keys to none"); same(s.size(), b.size(), "the set of keys is unchanged"); }
    { Set<K> k = A.keys(); List<T> l = A.values(); same(k.size(), a.size(), "number of keys"); same(l.size(), a.size(), "number of values"); size_t i = 0; auto it = k.begin(); for (auto& p : A) { same(Of<K>::val(*it), Of<K>::val(p.first), "keys in order"); same(Of<T>::val(l[i]), Of<T>::val(p.second), "values in the order of their keys"); ++it; ++i; } }
    is(M(Ab), a, "map from a std::map"); { M c(A); is(c, a, "copy"); } is(A, a, "the first map is unchanged"); is(N, b, "the second map is unchanged"); }
struct Big { long v; explicit Big(int x) : v(x) { } };
static void convert(R const& a) {
    begin("conversions of " + txt(a)); Map<int,int> const m = mk<int,int>(a); is(Map<int,long>(m), a, "values converted to long"); is(Map<int,double>(m), a, "values converted to double"); { std::map<int,double> d; for (auto& p : a) d[p.first] = p.second + (p.second < 0 ? -0.75 : 0.75); is(Map<int,int>(d), a, "values converted from double"); } is(Map<int,Tracked>(m), a, "values converted to objects"); is(m, a, "the converted map is unchanged"); }
static void both(R const& a, R const& b) { all<int,int>("int to int", a, b); all<int,std::string>("int to string", a, b); all<std::string,int>("string to int", a, b); all<Down,long>("downward to long", a, b); noleak([&] { all<Tracked,Tracked>("objects", a, b); convert(a); }, false); }
void wit::run() {
    std::vector<R> m; for (int k = 0; k < 27; ++k) { R r; int w = k; for (int i = 0; i < 3; ++i, w /= 3) if (w % 3) r[i] = 10 * (w % 3) + i; m.push_back(r); } for (size_t i = 0; i < m.size(); ++i) for (size_t j = i % 3; j < m.size(); j += thorough ? 1 : 3) both(m[i], m[j]);
    for (int k = 0; k < (thorough ? 2000 : 80); ++k) { R a, b; int r = k % 2 ? 10 : 200; for (size_t i = rnd(k % 4 ? 12 : 60); i > 0; --i) a[int(rnd(r)) - r / 2] = int(rnd(500)); for (size_t i = rnd(k % 3 ? 12 : 60); i > 0; --i) b[int(rnd(r)) - r / 2] = int(rnd(500)); if (k % 5 == 0) b = a; both(a, b); } }
