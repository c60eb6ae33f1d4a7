// What the debugging tools print for a value, written independently of them, and value generators.
#pragma once
#include "mc.h"
#include <GTMesh/Debug/VariableExport.h>
#include <GTMesh/NumericStaticArray/Vertex.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <valarray>

// ---- classes to print
struct ByValue {                                   // indexable, elements returned by value
    int n; int size() const { return n; } long operator[](int i) const { return i * 10L - 3; }
};
struct TnlLike { std::vector<int> d; int getSize() const { return (int)d.size(); } const int& operator[](int i) const { return d[i]; } };
struct Custom { int v; };
inline void PrintTo(const Custom& c, std::ostream& o) { o << "<" << c.v << ">"; }
inline void PrintTo(const Custom& c) { printf("<%d>", c.v); }
struct Streamed { int v; };
inline std::ostream& operator<<(std::ostream& o, const Streamed& s) { return o << "S" << s.v; }
enum Plain { plainA, plainB = 7 };
struct Leaf { int a; std::string s; bool b; };
MAKE_ATTRIBUTE_TRAIT(Leaf, a, s, b);
struct One { double only; };
MAKE_NAMED_ATTRIBUTE_TRAIT(One, "just one", only);
class Hidden {
    int v = 0;
public:
    Hidden(int x = 0) : v(x) {}
    int get() const { return v; }
    void set(const int& x) { v = x; }
    int twice() const { return v * 2; }
    void setTwice(const int& x) { v = x / 2; }
};
MAKE_CUSTOM_TRAIT(Hidden, "twice", std::make_pair(&Hidden::twice, &Hidden::setTwice), "value", std::make_pair(&Hidden::get, &Hidden::set));
struct Node { Leaf leaf; std::vector<Leaf> list; std::map<std::string, One> map; std::pair<int, Hidden> pair; Hidden h; };
MAKE_ATTRIBUTE_TRAIT(Node, leaf, list, map, pair, h);
template <class T> struct Box { T v; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Box<T>), (typename T), v);
struct Bare { short x; };                          // only printable with traits bound

// ---- the expected text
namespace ref {
struct Opt { int prec = 6; bool escape = false; };
inline std::string quote(const std::string& s, const Opt& o) {
    if (!o.escape) return '"' + s + '"';
    std::string r = "\"";
    for (unsigned char ch : s) {
        char b[8];
        if (ch == '"') r += "\\\""; else if (ch == '\\') r += "\\\\"; else if (ch == '\n') r += "\\n"; else if (ch == '\t') r += "\\t"; else if (ch == '\r') r += "\\r";
        else if (ch < 32) { snprintf(b, 8, "\\u%04x", ch); r += b; } else r += (char)ch;
    }
    return r + '"';
}
template <class T, class = void> struct Ref;
template <class T> std::string text(const T& v, const Opt& o) { return Ref<T>::of(v, o); }
template <class T> struct Ref<T, std::enable_if_t<std::is_integral<T>::value>> { static std::string of(T v, const Opt&) { return std::to_string(v); } };
template <> struct Ref<bool> { static std::string of(bool v, const Opt&) { return v ? "true" : "false"; } };
template <> struct Ref<char> { static std::string of(char v, const Opt& o) { return quote(std::string(1, v), o); } };
template <class T> struct Ref<T, std::enable_if_t<std::is_floating_point<T>::value>> { static std::string of(T v, const Opt& o) { char b[128]; snprintf(b, sizeof b, "%.*Lg", o.prec, (long double)v); return o.escape && !std::isfinite(v) ? quote(b, o) : b; } };
template <> struct Ref<std::string> { static std::string of(const std::string& v, const Opt& o) { return quote(v, o); } };
template <> struct Ref<const char*> { static std::string of(const char* v, const Opt& o) { return quote(v, o); } };
template <> struct Ref<char*> { static std::string of(const char* v, const Opt& o) { return quote(v, o); } };
template <size_t N> struct Ref<char[N]> { static std::string of(const char* v, const Opt& o) { return quote(v, o); } };
template <> struct Ref<Plain> { static std::string of(Plain v, const Opt&) { return std::to_string((int)v); } };
template <> struct Ref<Custom> { static std::string of(const Custom& v, const Opt&) { return "<" + std::to_string(v.v) + ">"; } };
template <> struct Ref<Streamed> { static std::string of(const Streamed& v, const Opt& o) { std::string t = "S" + std::to_string(v.v); return o.escape ? quote(t, o) : t; } };
template <> struct Ref<unsigned char> { static std::string of(unsigned char v, const Opt& o) { std::string t(1, (char)v); return o.escape ? quote(t, o) : t; } };
inline std::string key(const std::string& t, const Opt& o) { return o.escape && t[0] != '"' ? quote(t, o) : t; }
inline std::string list(const std::vector<std::string>& v) { std::string r; for (size_t i = 0; i < v.size(); i++) r += (i ? ", " : "") + v[i]; return "[ " + r + " ]"; }
template <class C> struct RefSeq { static std::string of(const C& v, const Opt& o) { std::vector<std::string> t; for (auto it = std::begin(v); it != std::end(v); ++it) { typename C::value_type e = *it; t.push_back(text(e, o)); } return list(t); } };
template <class T, class A> struct Ref<std::vector<T, A>> : RefSeq<std::vector<T, A>> {};
template <class T> struct Ref<std::list<T>> : RefSeq<std::list<T>> {};
template <class T> struct Ref<std::deque<T>> : RefSeq<std::deque<T>> {};
template <class T> struct Ref<std::forward_list<T>> : RefSeq<std::forward_list<T>> {};
template <class T> struct Ref<std::set<T>> : RefSeq<std::set<T>> {};
template <class T, size_t N> struct Ref<std::array<T, N>> : RefSeq<std::array<T, N>> {};
template <class K, class T> struct Ref<std::map<K, T>> : RefSeq<std::map<K, T>> {};
template <class K, class T> struct Ref<std::multimap<K, T>> : RefSeq<std::multimap<K, T>> {};
template <class K, class T> struct Ref<std::unordered_map<K, T>> : RefSeq<std::unordered_map<K, T>> {};
template <class T> struct Ref<std::valarray<T>> { static std::string of(const std::valarray<T>& v, const Opt& o) { std::vector<std::string> t; for (size_t i = 0; i < v.size(); i++) t.push_back(text(T(v[i]), o)); return list(t); } };
template <unsigned N, class R> struct Ref<Vertex<N, R>> { static std::string of(const Vertex<N, R>& v, const Opt& o) { std::vector<std::string> t; for (unsigned i = 0; i < N; i++) t.push_back(text(v[i], o)); return list(t); } };
template <class T, unsigned N> struct Ref<DataContainer<T, N>> { static std::string of(const DataContainer<T, N>& v, const Opt& o) { std::vector<std::string> t; for (auto& e : static_cast<const std::vector<T>&>(v)) t.push_back(text(e, o)); return list(t); } };
template <> struct Ref<ByValue> { static std::string of(const ByValue& v, const Opt&) { std::vector<std::string> t; for (int i = 0; i < v.n; i++) t.push_back(std::to_string(i * 10 - 3)); return list(t); } };
template <> struct Ref<TnlLike> { static std::string of(const TnlLike& v, const Opt& o) { return text(v.d, o); } };
template <class A, class B> struct Ref<std::pair<A, B>> { static std::string of(const std::pair<A, B>& v, const Opt& o) { return "{ " + key(text<std::remove_cv_t<A>>(v.first, o), o) + ": " + text<std::remove_cv_t<B>>(v.second, o) + "}"; } };
template <> struct Ref<std::tuple<>> { static std::string of(const std::tuple<>&, const Opt&) { return "[ ]"; } };
template <class A> struct Ref<std::tuple<A>> { static std::string of(const std::tuple<A>& v, const Opt& o) { return "[ " + text(std::get<0>(v), o) + "]"; } };
template <class A, class B> struct Ref<std::tuple<A, B>> { static std::string of(const std::tuple<A, B>& v, const Opt& o) { return "[ " + text(std::get<0>(v), o) + ", " + text(std::get<1>(v), o) + "]"; } };
template <class A, class B, class C> struct Ref<std::tuple<A, B, C>> { static std::string of(const std::tuple<A, B, C>& v, const Opt& o) { return "[ " + text(std::get<0>(v), o) + ", " + text(std::get<1>(v), o) + ", " + text(std::get<2>(v), o) + "]"; } };
inline std::string attrs(const std::vector<std::pair<std::string, std::string>>& v) { std::string r; for (size_t i = 0; i < v.size(); i++) r += (i ? ", \"" : "\"") + v[i].first + "\" : " + v[i].second; return "{ " + r + " }"; }
template <> struct Ref<Leaf> { static std::string of(const Leaf& v, const Opt& o) { return attrs({{"a", text(v.a, o)}, {"s", text(v.s, o)}, {"b", text(v.b, o)}}); } };
template <> struct Ref<One> { static std::string of(const One& v, const Opt& o) { return attrs({{"just one", text(v.only, o)}}); } };
template <> struct Ref<Hidden> { static std::string of(const Hidden& v, const Opt& o) { return attrs({{"twice", text(v.get() * 2, o)}, {"value", text(v.get(), o)}}); } };
template <> struct Ref<Node> { static std::string of(const Node& v, const Opt& o) { return attrs({{"leaf", text(v.leaf, o)}, {"list", text(v.list, o)}, {"map", text(v.map, o)}, {"pair", text(v.pair, o)}, {"h", text(v.h, o)}}); } };
template <class T> struct Ref<Box<T>> { static std::string of(const Box<T>& v, const Opt& o) { return attrs({{"v", text(v.v, o)}}); } };
} // namespace ref

// ---- values
namespace gen {
template <class T, class = void> struct Gen;
template <class T> std::vector<T> some(size_t k) { auto v = Gen<T>::all(false); std::vector<T> r; size_t st = v.size() > k ? v.size() / k : 1; for (size_t i = 0; i < v.size() && r.size() < k; i += st) r.push_back(v[i]); return r; }
template <class T> struct Gen<T, std::enable_if_t<std::is_integral<T>::value>> {
    static std::vector<T> all(bool deep) {
        std::set<T> s; using L = std::numeric_limits<T>; using U = unsigned long long;
        for (T b : {T(0), L::max(), L::min(), T(10), T(100), T(L::max() / 2)}) for (int d = deep ? -20 : -1; d <= (deep ? 20 : 1); d++) s.insert(T(U(b) + U(T(d))));
        U p = 1; for (int i = 0; i < L::digits; i++, p *= 2) { s.insert(T(p)); s.insert(T(p - 1)); s.insert(T(0 - p)); }
        return std::vector<T>(s.begin(), s.end());
    }
};
template <> struct Gen<unsigned char> { static std::vector<unsigned char> all(bool) { std::vector<unsigned char> r; for (int i = 1; i < 256; i++) r.push_back(i); return r; } };
template <> struct Gen<bool> { static std::vector<bool> all(bool) { return {true, false}; } };
template <> struct Gen<char> { static std::vector<char> all(bool) { std::vector<char> r; for (int i = 1; i < 256; i++) r.push_back((char)i); return r; } };
template <class T> struct Gen<T, std::enable_if_t<std::is_floating_point<T>::value>> {
    static std::vector<T> all(bool deep) {
        std::vector<T> r; for (double m : {1.0, 2.5, 9.99999, 9.999995, 1.234567890123, 123456.0, 1234567.0, 0.1}) for (int e = deep ? -30 : -6; e <= (deep ? 30 : 8); e++) for (int s : {1, -1}) r.push_back(T(s * m * std::pow(10.0, e)));
        r.push_back(0); r.push_back(T(-0.0)); r.push_back(std::numeric_limits<T>::max()); r.push_back(std::numeric_limits<T>::min()); r.push_back(std::numeric_limits<T>::denorm_min()); r.push_back(std::numeric_limits<T>::infinity());
        return r;
    }
};
inline std::vector<std::string> strings(int len) {
    static const char alpha[] = {'a', '"', '\\', '\n', ' ', (char)0xc3, 1, ',', '%'};
    std::vector<std::string> r{""}, last = r;
    for (int l = 0; l < len; l++) { std::vector<std::string> n; for (auto& s : last) for (char ch : alpha) n.push_back(s + ch); r.insert(r.end(), n.begin(), n.end()); last = n; }
    return r;
}
template <> struct Gen<std::string> { static std::vector<std::string> all(bool deep) { auto r = strings(deep ? 3 : 2); r.push_back(std::string(300, 'x')); r.push_back("}, { \"a\" : 1"); return r; } };
template <> struct Gen<const char*> { static std::vector<const char*> all(bool deep) { static std::vector<std::string> keep = Gen<std::string>::all(true); std::vector<const char*> r; for (auto& s : keep) r.push_back(s.c_str()); return r; } };
template <> struct Gen<char*> { static std::vector<char*> all(bool) { static std::vector<std::string> keep = Gen<std::string>::all(true); std::vector<char*> r; for (auto& s : keep) r.push_back(&s[0]); return r; } };
template <> struct Gen<Plain> { static std::vector<Plain> all(bool) { return {plainA, plainB}; } };
template <> struct Gen<Custom> { static std::vector<Custom> all(bool) { return {{1}, {-2}}; } };
template <> struct Gen<Streamed> { static std::vector<Streamed> all(bool) { return {{1}, {-2}}; } };
// all sequences of up to len of k values
template <class T> std::vector<std::vector<T>> seqs(size_t k, int len) {
    auto el = some<T>(k); std::vector<std::vector<T>> r{{}}, last = r;
    for (int l = 0; l < len; l++) { std::vector<std::vector<T>> n; for (auto& s : last) for (size_t i = 0; i < el.size(); i++) { auto t = s; T e = el[i]; t.push_back(e); n.push_back(t); } r.insert(r.end(), n.begin(), n.end()); last = n; }
    return r;
}
template <class C> struct GenSeq { using T = typename C::value_type; static std::vector<C> all(bool deep) { std::vector<C> r; for (auto& s : seqs<T>(3, deep ? 4 : 3)) r.push_back(C(s.begin(), s.end())); return r; } };
template <class T, class A> struct Gen<std::vector<T, A>> : GenSeq<std::vector<T, A>> {};
template <class T> struct Gen<std::list<T>> : GenSeq<std::list<T>> {};
template <class T> struct Gen<std::deque<T>> : GenSeq<std::deque<T>> {};
template <class T> struct Gen<std::forward_list<T>> : GenSeq<std::forward_list<T>> {};
template <class T> struct Gen<std::set<T>> : GenSeq<std::set<T>> {};
template <class C> struct GenMap {
    using K = std::remove_cv_t<typename C::value_type::first_type>; using T = typename C::mapped_type;
    static std::vector<C> all(bool deep) { auto k = some<K>(4); auto v = some<T>(3); std::vector<C> r; for (int m = 0; m < (1 << k.size()); m++) for (int s = 0; s < (deep ? 3 : 2); s++) { C x; for (size_t i = 0; i < k.size(); i++) if (m >> i & 1) x.insert({k[i], v[(i + s) % v.size()]}); r.push_back(x); } return r; }
};
template <class K, class T> struct Gen<std::map<K, T>> : GenMap<std::map<K, T>> {};
template <class K, class T> struct Gen<std::multimap<K, T>> { static std::vector<std::multimap<K, T>> all(bool deep) { std::vector<std::multimap<K, T>> r; for (auto& s : seqs<std::pair<K, T>>(3, deep ? 4 : 3)) r.push_back(std::multimap<K, T>(s.begin(), s.end())); return r; } };
template <class K, class T> struct Gen<std::unordered_map<K, T>> : GenMap<std::unordered_map<K, T>> {};
template <class T, size_t N> struct Gen<std::array<T, N>> { static std::vector<std::array<T, N>> all(bool) { std::vector<std::array<T, N>> r; for (auto& s : seqs<T>(3, N)) if (s.size() == N) { std::array<T, N> a; for (size_t i = 0; i < N; i++) a[i] = s[i]; r.push_back(a); } return r; } };
template <class T> struct Gen<std::valarray<T>> { static std::vector<std::valarray<T>> all(bool) { std::vector<std::valarray<T>> r; for (auto& s : seqs<T>(3, 3)) r.push_back(std::valarray<T>(s.data(), s.size())); return r; } };
template <unsigned N, class R> struct Gen<Vertex<N, R>> { static std::vector<Vertex<N, R>> all(bool) { std::vector<Vertex<N, R>> r; for (auto& s : seqs<R>(3, N)) if (s.size() == N) { Vertex<N, R> v; for (unsigned i = 0; i < N; i++) v[i] = s[i]; r.push_back(v); } return r; } };
template <class T, unsigned N> struct Gen<DataContainer<T, N>> { static std::vector<DataContainer<T, N>> all(bool) { std::vector<DataContainer<T, N>> r; for (auto& s : seqs<T>(3, 3)) { DataContainer<T, N> d; d.resize(s.size()); for (size_t i = 0; i < s.size(); i++) d[i] = s[i]; r.push_back(d); } return r; } };
template <> struct Gen<ByValue> { static std::vector<ByValue> all(bool) { return {{0}, {1}, {2}, {5}}; } };
template <> struct Gen<TnlLike> { static std::vector<TnlLike> all(bool) { std::vector<TnlLike> r; for (auto& s : seqs<int>(3, 3)) r.push_back({s}); return r; } };
template <class A, class B> struct Gen<std::pair<A, B>> { static std::vector<std::pair<A, B>> all(bool deep) { std::vector<std::pair<A, B>> r; auto b = some<B>(deep ? 8 : 4); for (auto a : some<A>(deep ? 8 : 4)) for (auto y : b) r.push_back({a, y}); return r; } };
template <> struct Gen<std::tuple<>> { static std::vector<std::tuple<>> all(bool) { return {{}}; } };
template <class A> struct Gen<std::tuple<A>> { static std::vector<std::tuple<A>> all(bool) { std::vector<std::tuple<A>> r; for (auto a : some<A>(8)) r.push_back(std::tuple<A>(a)); return r; } };
template <class A, class B> struct Gen<std::tuple<A, B>> { static std::vector<std::tuple<A, B>> all(bool) { std::vector<std::tuple<A, B>> r; for (auto a : some<A>(5)) for (auto b : some<B>(5)) r.push_back(std::make_tuple(a, b)); return r; } };
template <class A, class B, class C> struct Gen<std::tuple<A, B, C>> { static std::vector<std::tuple<A, B, C>> all(bool) { std::vector<std::tuple<A, B, C>> r; for (auto a : some<A>(4)) for (auto b : some<B>(4)) for (auto d : some<C>(4)) r.push_back(std::make_tuple(a, b, d)); return r; } };
template <> struct Gen<Leaf> { static std::vector<Leaf> all(bool) { std::vector<Leaf> r; for (int a : {0, -7}) for (auto& s : {std::string("x"), std::string(), std::string("q\"")}) for (bool b : {true, false}) r.push_back({a, s, b}); return r; } };
template <> struct Gen<One> { static std::vector<One> all(bool) { return {{1.5}, {-2e-9}}; } };
template <> struct Gen<Hidden> { static std::vector<Hidden> all(bool) { return {Hidden(3), Hidden(-4)}; } };
template <> struct Gen<Node> { static std::vector<Node> all(bool deep) { std::vector<Node> r; for (auto& l : some<Leaf>(4)) for (auto& v : some<std::vector<Leaf>>(deep ? 40 : 12)) for (auto& m : some<std::map<std::string, One>>(deep ? 16 : 6)) r.push_back({l, v, m, {l.a + 1, Hidden(5)}, Hidden(l.a)}); return r; } };
template <class T> struct Gen<Box<T>> { static std::vector<Box<T>> all(bool) { std::vector<Box<T>> r; for (auto v : some<T>(20)) r.push_back({v}); return r; } };
} // namespace gen
