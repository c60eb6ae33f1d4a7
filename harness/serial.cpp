// S01: every value survives the serializer.  S02: histories of writes, reads, files.  S03: files and failing writes.
//   -DH_PROP=1|2|3
#include "mc.h"
#include "sizes.h"
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#include <array>
#include <deque>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <valarray>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <cerrno>
#include <unistd.h>
#include <signal.h>
#include <new>

using Bytes = std::vector<uint8_t>;

// ---- user types --------------------------------------------------------------------------------------
enum PlainEnum { PE_A = -3, PE_B = 0, PE_C = 70000 };
enum class SmallEnum : uint8_t { X = 0, Y = 1, Z = 255 };
struct Inner { int a = 1; std::string s; bool operator==(const Inner& o) const { return a == o.a && s == o.s; } };
MAKE_ATTRIBUTE_TRAIT(Inner, a, s);
struct Outer { Inner in; std::vector<Inner> list; double d = 0; char c = 0; bool operator==(const Outer& o) const { return in == o.in && list == o.list && d == o.d && c == o.c; } };
MAKE_NAMED_ATTRIBUTE_TRAIT(Outer, "inner", in, "list", list, "real", d, "char", c);
template <class T> struct Tmpl { T x{}; std::array<T, 2> y{}; bool operator==(const Tmpl& o) const { return x == o.x && y == o.y; } };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Tmpl<T>), (typename T), x, y);
struct Conv { int a = 0; double b = 0; operator bool() const { return a != 0; } bool operator==(const Conv& o) const { return a == o.a && b == o.b; } };
MAKE_ATTRIBUTE_TRAIT(Conv, a, b);
struct TwoTraits { int a = 0; int hidden = 0; short b = 0; bool operator==(const TwoTraits& o) const { return a == o.a && b == o.b && hidden == o.hidden; } };
MAKE_ATTRIBUTE_TRAIT_IO(TwoTraits, a, b);
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(TwoTraits, b, hidden, a);
struct Acc { int v = 0; int& ref() { return v; } int get() const { return v; } bool operator==(const Acc& o) const { return v == o.v; } };
MAKE_CUSTOM_TRAIT(Acc, "v", std::make_pair(&Acc::get, &Acc::ref));
struct Pod { int32_t a; double b; bool operator==(const Pod& o) const { return a == o.a && b == o.b; } };
namespace Interface { template <> struct Compact<Pod, void> : public std::true_type {}; }
namespace user {
struct Custom { std::string s; int n = 0; bool operator==(const Custom& o) const { return s == o.s && n == o.n; } };
inline void BinarySerialize(BinarySerializer::ByteContainer& c, const Custom& x) { BinarySerializer::addNext(c, x.n); BinarySerializer::addNext(c, x.s); }
inline void BinaryDeserialize(BinarySerializer::ByteContainerIterator& it, Custom& x) { BinarySerializer::readNext(it, x.n); BinarySerializer::readNext(it, x.s); }
}
struct CustomAndTraits { int a = 0, b = 0; bool operator==(const CustomAndTraits& o) const { return a == o.a && b == o.b; } };
MAKE_ATTRIBUTE_TRAIT(CustomAndTraits, a);
inline void BinarySerialize(BinarySerializer::ByteContainer& c, const CustomAndTraits& x) { BinarySerializer::addNext(c, x.b); BinarySerializer::addNext(c, x.a); }
inline void BinaryDeserialize(BinarySerializer::ByteContainerIterator& it, CustomAndTraits& x) { BinarySerializer::readNext(it, x.b); BinarySerializer::readNext(it, x.a); }
template <class T> struct TnlLike {                       // interface of TNL arrays
    std::vector<T> v;
    int getSize() const { return (int)v.size(); }
    void setSize(int n) { v.resize(n); }
    const T& operator[](int i) const { return v[i]; }
    T& operator[](int i) { return v[i]; }
    bool operator==(const TnlLike& o) const { return v == o.v; }
};
template <class T> struct TnlCompact : TnlLike<T> { const T* getData() const { return this->v.data(); } T* getData() { return this->v.data(); } };

// ---- equality ----------------------------------------------------------------------------------------
template <class T> bool eq(const T& a, const T& b) { return a == b; }
template <class T> bool eq(const std::valarray<T>& a, const std::valarray<T>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return false; return true; }
inline bool eq(const long double& a, const long double& b) { return !memcmp(&a, &b, 10); }       // 10 significant bytes
inline bool eq(const float& a, const float& b) { return !memcmp(&a, &b, sizeof a); }
inline bool eq(const double& a, const double& b) { return !memcmp(&a, &b, sizeof a); }

// ---- exhaustive small value sets -----------------------------------------------------------------------
static bool g_thorough = false;
template <class T> std::vector<T> firstOf(std::vector<T> v, size_t n) { if (v.size() > n) v.resize(n); return v; }
template <class T> std::vector<std::vector<T>> seqs(const std::vector<T>& el, int maxLen) {
    std::vector<std::vector<T>> out{{}}, cur{{}};
    for (int l = 1; l <= maxLen; l++) {
        std::vector<std::vector<T>> nx;
        for (auto& s : cur) for (auto& e : el) { auto t = s; t.push_back(e); nx.push_back(t); }
        out.insert(out.end(), nx.begin(), nx.end());
        cur = nx;
    }
    return out;
}
template <class T, class E = void> struct Vals;
template <class T> std::vector<T> vals(int lv) { return Vals<T>::get(lv); }
template <class T> struct Vals<T, std::enable_if_t<std::is_integral<T>::value>> {
    static std::vector<T> get(int lv) {
        using L = std::numeric_limits<T>;
        std::vector<T> r{(T)1, (T)L::max(), (T)L::min()};
        if (lv >= 1) { r.push_back(0); r.push_back((T)(T)-1); }
        if (lv >= 2) {
            r.clear();
            if (sizeof(T) == 1) { for (int i = std::is_same<T, bool>::value ? 0 : -128; i < (std::is_same<T, bool>::value ? 2 : 128); i++) r.push_back((T)i); }
            else {
                for (int i = -300; i <= 300; i++) r.push_back((T)i);
                for (unsigned b = 0; b < sizeof(T) * 8; b++) { T x = (T)(((unsigned long long)1) << b); r.push_back(x); r.push_back((T)~x); }
                for (unsigned b = 0; b < sizeof(T); b++) for (int v = 0; v < 256; v += 5) r.push_back((T)((unsigned long long)v << (8 * b)));
            }
        }
        return r;
    }
};
template <class T> struct Vals<T, std::enable_if_t<std::is_floating_point<T>::value>> {
    static std::vector<T> get(int lv) {
        using L = std::numeric_limits<T>;
        std::vector<T> r{(T)0.1, -L::max(), L::denorm_min()};
        if (lv >= 1) { r.push_back(-(T)0); r.push_back(L::infinity()); }
        if (lv >= 2) {
            r.push_back(L::quiet_NaN()); r.push_back(-L::infinity()); r.push_back(L::min()); r.push_back(L::epsilon()); r.push_back(0);
            for (int e = L::min_exponent; e < L::max_exponent; e += (sizeof(T) > 8 ? 61 : 1)) { r.push_back(std::ldexp((T)1, e)); r.push_back(-std::ldexp((T)1.37, e)); }
        }
        return r;
    }
};
template <> struct Vals<PlainEnum> { static std::vector<PlainEnum> get(int) { return {PE_A, PE_B, PE_C}; } };
template <> struct Vals<SmallEnum> { static std::vector<SmallEnum> get(int) { return {SmallEnum::X, SmallEnum::Y, SmallEnum::Z}; } };
template <> struct Vals<std::string> {
    static std::vector<std::string> get(int lv) {
        std::vector<std::string> r{std::string("k\0z", 3), "", std::string(40, 'Q')};
        if (lv >= 1) { r.push_back("\n"); r.push_back("\xff"); }
        if (lv >= 2) { r.clear(); std::vector<char> al{'a', '\0', '\xff', '"'}; for (auto&& s : seqs(al, 3)) r.push_back(std::string(s.begin(), s.end()));
            for (int n : {15, 16, 17, 255, 256, 257, 300}) r.push_back(std::string(n, (char)n)); }
        return r;
    }
};
template <class S> std::vector<S> seqVals(int lv) {
    using T = std::decay_t<decltype(*std::begin(std::declval<S&>()))>;
    std::vector<S> r;
    int len = lv >= 2 ? (g_thorough ? 4 : 3) : lv >= 1 ? 2 : 1;
    for (auto&& s : seqs(firstOf(vals<T>(lv - 1), 3), len)) r.push_back(S(s.begin(), s.end()));
    if (lv == 0) std::swap(r[0], r.back());
    if (lv >= 2) for (int n : {17, 300}) { auto e = vals<T>(0); std::vector<T> s; for (int i = 0; i < n; i++) s.push_back(e[i % e.size()]); r.push_back(S(s.begin(), s.end())); }
    return r;
}
template <class T> struct Vals<std::vector<T>> { static std::vector<std::vector<T>> get(int lv) { return seqVals<std::vector<T>>(lv); } };
template <class T> struct Vals<std::deque<T>> { static std::vector<std::deque<T>> get(int lv) { return seqVals<std::deque<T>>(lv); } };
template <class T> struct Vals<std::list<T>> { static std::vector<std::list<T>> get(int lv) { return seqVals<std::list<T>>(lv); } };
template <class T> struct Vals<std::valarray<T>> { static std::vector<std::valarray<T>> get(int lv) { std::vector<std::valarray<T>> r; for (auto&& s : vals<std::vector<T>>(lv)) { std::valarray<T> v(s.size()); for (size_t i = 0; i < s.size(); i++) v[i] = s[i]; r.push_back(v); } return r; } };
template <class C, class T> std::vector<C> wrapV(int lv) { std::vector<C> r; for (auto&& s : vals<std::vector<T>>(lv)) { C c; c.v = s; r.push_back(c); } return r; }
template <class T> struct Vals<TnlLike<T>> { static std::vector<TnlLike<T>> get(int lv) { return wrapV<TnlLike<T>, T>(lv); } };
template <class T> struct Vals<TnlCompact<T>> { static std::vector<TnlCompact<T>> get(int lv) { return wrapV<TnlCompact<T>, T>(lv); } };
template <class A> std::vector<A> arrVals(int lv) {
    using T = typename A::value_type;
    std::vector<A> r;
    for (auto&& s : seqs(firstOf(vals<T>(lv - 1), lv >= 2 ? 4 : lv >= 1 ? 3 : 2), (int)A().size())) if (s.size() == A().size()) { A a; for (size_t i = 0; i < s.size(); i++) a[i] = s[i]; r.push_back(a); }
    return r;
}
template <class T, size_t N> struct Vals<std::array<T, N>> { static std::vector<std::array<T, N>> get(int lv) { return arrVals<std::array<T, N>>(lv); } };
template <unsigned N, class T> struct Vals<Vertex<N, T>> { static std::vector<Vertex<N, T>> get(int lv) { return arrVals<Vertex<N, T>>(lv); } };
template <class M> std::vector<M> mapVals(int lv) {
    using K = typename M::key_type; using V = typename M::mapped_type;
    std::vector<M> r;
    auto ks = firstOf(vals<K>(lv - 1), 3); auto vs = firstOf(vals<V>(lv - 1), 2);
    std::vector<std::pair<const K, V>> all;
    for (auto&& k : ks) for (auto&& v : vs) all.push_back({k, v});
    for (unsigned m = 0; m < (1u << all.size()); m++) { M x; for (size_t i = 0; i < all.size(); i++) if (m >> i & 1) x.insert(all[i]); r.push_back(x); }
    if (lv == 0) std::swap(r[0], r.back());
    return r;
}
template <class S> std::vector<S> setVals(int lv) {
    using K = typename S::key_type;
    std::vector<S> r;
    auto ks = firstOf(vals<K>(lv - 1 < 0 ? 0 : lv - 1), 5);
    for (unsigned m = 0; m < (1u << ks.size()); m++) { S x; for (size_t i = 0; i < ks.size(); i++) if (m >> i & 1) { x.insert(ks[i]); if (i & 1) x.insert(ks[i]); } r.push_back(x); }
    if (lv == 0) std::swap(r[0], r.back());
    return r;
}
template <class K, class V> struct Vals<std::map<K, V>> { static std::vector<std::map<K, V>> get(int lv) { return mapVals<std::map<K, V>>(lv); } };
template <class K, class V> struct Vals<std::map<K, V, std::greater<K>>> { static std::vector<std::map<K, V, std::greater<K>>> get(int lv) { return mapVals<std::map<K, V, std::greater<K>>>(lv); } };
template <class K, class V> struct Vals<std::multimap<K, V>> { static std::vector<std::multimap<K, V>> get(int lv) { return mapVals<std::multimap<K, V>>(lv); } };
template <class K, class V> struct Vals<std::unordered_map<K, V>> { static std::vector<std::unordered_map<K, V>> get(int lv) { return mapVals<std::unordered_map<K, V>>(lv); } };
template <class K> struct Vals<std::set<K>> { static std::vector<std::set<K>> get(int lv) { return setVals<std::set<K>>(lv); } };
template <class K> struct Vals<std::multiset<K>> { static std::vector<std::multiset<K>> get(int lv) { return setVals<std::multiset<K>>(lv); } };
template <class K> struct Vals<std::unordered_set<K>> { static std::vector<std::unordered_set<K>> get(int lv) { return setVals<std::unordered_set<K>>(lv); } };
template <class A, class B> struct Vals<std::pair<A, B>> { static std::vector<std::pair<A, B>> get(int lv) { std::vector<std::pair<A, B>> r; for (auto&& a : firstOf(vals<A>(lv - 1), lv >= 2 ? 5 : 2)) for (auto&& b : firstOf(vals<B>(lv - 1), lv >= 2 ? 5 : 2)) r.push_back({a, b}); return r; } };
template <class A, class B, class C> struct Vals<std::tuple<A, B, C>> { static std::vector<std::tuple<A, B, C>> get(int lv) { std::vector<std::tuple<A, B, C>> r; for (auto&& a : firstOf(vals<A>(lv - 1), 3)) for (auto&& b : firstOf(vals<B>(lv - 1), 3)) for (auto&& d : firstOf(vals<C>(lv - 1), 3)) r.push_back(std::make_tuple(a, b, d)); return r; } };
template <class A> struct Vals<std::tuple<A>> { static std::vector<std::tuple<A>> get(int lv) { std::vector<std::tuple<A>> r; for (auto&& a : vals<A>(lv - 1)) r.push_back(std::make_tuple(a)); return r; } };
template <> struct Vals<Inner> { static std::vector<Inner> get(int lv) { std::vector<Inner> r; for (auto&& a : firstOf(vals<int>(0), 3)) for (auto&& s : firstOf(vals<std::string>(lv - 1), lv >= 2 ? 5 : 2)) { Inner x; x.a = a; x.s = s; r.push_back(x); } return r; } };
template <> struct Vals<Outer> { static std::vector<Outer> get(int lv) { std::vector<Outer> r; for (auto&& i : firstOf(vals<Inner>(lv - 1), 3)) for (auto&& l : firstOf(vals<std::vector<Inner>>(lv - 1), 4)) for (double d : {0.5, -1e300}) for (char ch : {'x', '\0'}) { Outer x; x.in = i; x.list = l; x.d = d; x.c = ch; r.push_back(x); } return r; } };
template <class T> struct Vals<Tmpl<T>> { static std::vector<Tmpl<T>> get(int lv) { std::vector<Tmpl<T>> r; for (auto&& a : firstOf(vals<T>(lv - 1), 3)) for (auto&& y : firstOf(vals<std::array<T, 2>>(lv - 1), 4)) { Tmpl<T> x; x.x = a; x.y = y; r.push_back(x); } return r; } };
template <> struct Vals<Conv> { static std::vector<Conv> get(int) { std::vector<Conv> r; for (int a : {0, 1, -7}) for (double b : {0., 2.5}) { Conv x; x.a = a; x.b = b; r.push_back(x); } return r; } };
template <> struct Vals<TwoTraits> { static std::vector<TwoTraits> get(int) { std::vector<TwoTraits> r; for (int a : {0, -5}) for (int h : {0, 9}) for (short b : {0, 77}) { TwoTraits x; x.a = a; x.hidden = h; x.b = b; r.push_back(x); } return r; } };
template <> struct Vals<Acc> { static std::vector<Acc> get(int) { std::vector<Acc> r; for (int a : {3, 0, -5}) { Acc x; x.v = a; r.push_back(x); } return r; } };
template <> struct Vals<Pod> { static std::vector<Pod> get(int) { std::vector<Pod> r; for (int a : {3, 0, -5}) for (double b : {0.25, -1e30}) { Pod x; memset(&x, 0, sizeof x); x.a = a; x.b = b; r.push_back(x); } return r; } };
template <> struct Vals<user::Custom> { static std::vector<user::Custom> get(int lv) { std::vector<user::Custom> r; for (int a : {3, -5}) for (auto&& s : vals<std::string>(lv - 1)) { user::Custom x; x.n = a; x.s = s; r.push_back(x); } return r; } };
template <> struct Vals<CustomAndTraits> { static std::vector<CustomAndTraits> get(int) { std::vector<CustomAndTraits> r; for (int a : {3, -5}) for (int b : {1, 2}) { CustomAndTraits x; x.a = a; x.b = b; r.push_back(x); } return r; } };

// A reader must consume exactly what the writer produced; the bytes behind it belong to somebody else.
template <class T> Bytes bytesOf(const T& v) { Bytes b; BinarySerializer::addNext(b, v); return b; }

#if H_PROP == 1
template <class T> void roundTrip(mc::Case& c) {
    g_thorough = c.run.thorough;
    static std::vector<T> vs, ts;
    if (vs.empty()) { vs = vals<T>(2); auto d = vals<T>(std::is_arithmetic<T>::value ? 1 : 1); size_t step = std::max<size_t>(1, d.size() / (std::is_arithmetic<T>::value ? 3 : 4)); for (size_t i = 0; i < d.size(); i += step) ts.push_back(d[i]); }
    int iv = c.choose((int)vs.size(), "value");
    c.go();
    const T& v = vs[iv];
    int it = c.choose((int)ts.size(), "previous content of the target");
    int pre = c.choose(3, "bytes before"); if (pre == 2) pre = 3;
    int api = c.choose(6, "interface");
    c.note("value " + std::to_string(iv) + " into " + std::to_string(it) + " api " + std::to_string(api));
    T t = ts[it];
    Bytes own = bytesOf(v);
    c.op();
    c.check(own == bytesOf(v), std::string("det"), "serializing the same value twice gives different bytes");
    c.out(std::string(own.begin(), own.end()));
    c.state(mc::hashStr(std::string(own.begin(), own.end())));
    Bytes junk; for (int i = 0; i < pre; i++) junk.push_back((uint8_t)(0xA0 + i));
    if (api <= 1) {
        Bytes b = junk;
        BinarySerializer::addNext(b, v);
        c.check(std::equal(junk.begin(), junk.end(), b.begin()) && Bytes(b.begin() + pre, b.end()) == own, "append", "addNext does not append the value to the given bytes");
        b.push_back(0x5A); b.push_back(0x5B);
        // heap block of exactly this size: reading behind it is seen by the sanitizer
        Bytes exact(b.begin(), b.end());
        Bytes::const_iterator i = exact.cbegin() + pre;
        if (api == 0) BinarySerializer::readNext(i, t);
        else t = BinarySerializer::readNext<T>(i);
        c.check(eq(t, v), "value", "the value read differs from the value written");
        c.check(i - exact.cbegin() == (long)(pre + own.size()), "consumed", "reading consumes " + std::to_string(i - exact.cbegin() - pre) + " bytes of " + std::to_string(own.size()));
        c.check(exact == b, "touched", "reading changes the data");
        return;
    }
    BinarySerializer s;
    for (auto j : junk) s.write(j);
    T t2 = ts[ts.size() - 1 - it];
    if (api == 2) { s.write(v); s.write(v); }
    else if (api == 3) s << v << v;
    else if (api == 4) s.write(v, v);
    else s.write(v, (uint8_t)7, v);
    c.check(s.getData().size() == junk.size() + 2 * own.size() + (api == 5), "size", "unexpected amount of data");
    for (auto j : junk) { uint8_t x = 0; s.read(x); c.check(x == j, "value", "the byte in front of the value is lost"); }
    uint8_t sep = 7;
    if (api == 2) { t = s.template read<T>(); s.read(t2); }
    else if (api == 3) s >> t >> t2;
    else if (api == 4) s.read(t, t2);
    else s.read(t, sep, t2);
    c.check(eq(t, v), "value", "the first value read differs from the value written");
    c.check(eq(t2, v), "value2", "the second value read differs from the value written");
    c.check(sep == 7, "value3", "the byte between the values is lost");
    c.check(!s.isIteratorValid(), "consumed", "the data are not read completely");
}
#define RT(name, ...) static mc::Registry reg_rt_##name(#name, roundTrip<__VA_ARGS__>)
#if H_PART == 0
RT(bool, bool); RT(char, char); RT(uchar, unsigned char); RT(schar, signed char); RT(short, short); RT(ushort, unsigned short); RT(int, int); RT(uint, unsigned); RT(long, long); RT(ulong, unsigned long); RT(llong, long long); RT(ullong, unsigned long long); RT(wchar, wchar_t); RT(char16, char16_t);
#endif
#if H_PART == 1
RT(float, float); RT(double, double); RT(longdouble, long double); RT(enumplain, PlainEnum); RT(enumsmall, SmallEnum);
#endif
#if H_PART == 2
RT(string, std::string); RT(vecint, std::vector<int>); RT(vecchar, std::vector<char>); RT(vecdouble, std::vector<double>); RT(vecstring, std::vector<std::string>); RT(vecvec, std::vector<std::vector<int>>);
#endif
#if H_PART == 3
RT(vecenum, std::vector<SmallEnum>); RT(vecpair, std::vector<std::pair<int, std::string>>); RT(deqint, std::deque<int>); RT(deqstring, std::deque<std::string>); RT(listint, std::list<int>); RT(liststring, std::list<std::string>); RT(listvec, std::list<std::vector<double>>);
#endif
#if H_PART == 4
RT(valarray, std::valarray<double>); RT(valarrays, std::valarray<std::string>); RT(arrint, std::array<int, 3>); RT(arrstring, std::array<std::string, 2>); RT(arrvec, std::array<std::vector<int>, 2>); RT(vecarr, std::vector<std::array<int, 2>>);
#endif
#if H_PART == 5
RT(vertex3, Vertex<3, double>); RT(vertex1, Vertex<1, float>); RT(vecvertex, std::vector<Vertex<2, double>>);
#endif
#if H_PART == 6
RT(mapsi, std::map<std::string, int>); RT(mapiv, std::map<int, std::vector<std::string>>); RT(mapgreater, std::map<int, int, std::greater<int>>); RT(mapmap, std::map<int, std::map<int, int>>); RT(multimap, std::multimap<int, int>); RT(umap, std::unordered_map<std::string, double>); RT(seti, std::set<int>); RT(sets, std::set<std::string>); RT(multiset, std::multiset<int>); RT(uset, std::unordered_set<int>); RT(setpair, std::set<std::pair<int, int>>);
#endif
#if H_PART == 7
RT(pair, std::pair<std::string, double>); RT(tuple, std::tuple<char, std::string, double>); RT(tuple1, std::tuple<int>); RT(tuplenest, std::tuple<std::pair<int, int>, std::vector<int>, bool>); RT(pairpair, std::pair<std::pair<bool, char>, std::map<int, bool>>);
#endif
#if H_PART == 8
RT(inner, Inner); RT(outer, Outer); RT(vecinner, std::vector<Inner>); RT(listinner, std::list<Inner>); RT(mapinner, std::map<std::string, Inner>); RT(tmpl, Tmpl<int>); RT(tmpls, Tmpl<std::string>); RT(conv, Conv); RT(vecconv, std::vector<Conv>); RT(two, TwoTraits); RT(acc, Acc); RT(vecacc, std::vector<Acc>);
#endif
#if H_PART == 9
RT(podvec, std::vector<Pod>); RT(podarr, std::array<Pod, 2>); RT(custom, user::Custom); RT(veccustom, std::vector<user::Custom>); RT(customtraits, CustomAndTraits);
#endif
#if H_PART == 10
RT(tnlint, TnlCompact<int>); RT(tnldouble, TnlCompact<double>); RT(tnlstring, TnlLike<std::string>); RT(tnlplain, TnlLike<int>); RT(vectnl, std::vector<TnlCompact<short>>);
#endif


// ---- long values: lengths around the powers of two ------------------------------------------------------
template <class T> struct Item1 { static T get(size_t i) { return (T)(i * 2654435761u >> 3); } };
template <> struct Item1<double> { static double get(size_t i) { return 0.5 + (double)i; } };
template <> struct Item1<std::string> { static std::string get(size_t i) { return std::string(i % 5, (char)('a' + i % 26)) + std::to_string(i); } };
template <> struct Item1<Inner> { static Inner get(size_t i) { Inner x; x.a = (int)i; x.s = Item1<std::string>::get(i); return x; } };
template <> struct Item1<Pod> { static Pod get(size_t i) { Pod x; memset(&x, 0, sizeof x); x.a = (int)i; x.b = i * 0.25; return x; } };
template <> struct Item1<std::vector<short>> { static std::vector<short> get(size_t i) { return std::vector<short>(i % 3, (short)i); } };
template <> struct Item1<std::pair<int, std::string>> { static std::pair<int, std::string> get(size_t i) { return {(int)i * 3 - 1000, Item1<std::string>::get(i)}; } };
template <class S> auto addItem(S& s, size_t i, int) -> decltype(s.push_back(*s.begin())) { s.push_back(Item1<std::decay_t<decltype(*s.begin())>>::get(i)); }
template <class S> auto addItem(S& s, size_t i, long) -> decltype((void)s.insert(typename S::value_type())) { s.insert(typename S::value_type(Item1<std::pair<int, std::string>>::get(i).first, Item1<std::pair<int, std::string>>::get(i).second)); }
template <class K> void addItem(std::set<K>& s, size_t i, int) { s.insert((K)(i * 7) - 500); }
template <class K> void addItem(std::unordered_set<K>& s, size_t i, int) { s.insert((K)(i * 7) - 500); }
template <class S> S ofLength(size_t n) { S s; for (size_t i = 0; i < n; i++) addItem(s, i, 0); return s; }
template <> std::valarray<double> ofLength(size_t n) { std::valarray<double> v(n); for (size_t i = 0; i < n; i++) v[i] = Item1<double>::get(i); return v; }
template <> TnlLike<int> ofLength(size_t n) { TnlLike<int> v; v.v = ofLength<std::vector<int>>(n); return v; }
template <> TnlCompact<short> ofLength(size_t n) { TnlCompact<short> v; v.v = ofLength<std::vector<short>>(n); return v; }
template <> std::vector<std::vector<int>> ofLength(size_t n) { return {ofLength<std::vector<int>>(n / 3), {}, ofLength<std::vector<int>>(n)}; }
template <> std::map<std::string, std::string> ofLength(size_t n) { return {{std::string(n, 'k'), "x"}, {"z", std::string(n, 'v')}}; }
template <class S> void longValue(mc::Case& c, size_t max) {
    auto ns = sizes::upTo(c.run.thorough ? max * 16 : max);
    size_t n = ns[c.choose((int)ns.size(), "length")];
    c.go();
    size_t m = c.choose(2) ? n + n / 2 + 1 : n / 3;               // length of the previous content
    int front = c.choose(2);
    S v = ofLength<S>(n), t = ofLength<S>(m);
    c.op(std::to_string(n) + " elements over " + std::to_string(m));
    Bytes b; if (front) BinarySerializer::addNext(b, (char)1);
    BinarySerializer::addNext(b, v);
    c.out(mc::hashStr(std::string(b.begin(), b.end()))); c.state(mc::mix(n, m));
    Bytes exact(b.begin(), b.end());
    auto it = exact.cbegin() + front;
    BinarySerializer::readNext(it, t);
    c.check(eq(t, v), "value", "the value read differs from the value written");
    c.check(it == exact.cend(), "consumed", std::to_string(exact.cend() - it) + " bytes left");
    BinarySerializer s; s << v << (int)n; S u; int k = 0; s >> u >> k;
    c.check(eq(u, v) && k == (int)n, "value", "the value read by a serializer differs from the value written");
}
#define LONG(name, max, ...) static mc::Registry reg_long_##name("long " #name, [](mc::Case& c) { longValue<__VA_ARGS__>(c, max); })
#if H_PART == 1
LONG(string, 70000, std::string); LONG(vecchar, 70000, std::vector<char>); LONG(vecint, 70000, std::vector<int>); LONG(deqint, 70000, std::deque<int>); LONG(listint, 70000, std::list<int>);
LONG(valarray, 70000, std::valarray<double>); LONG(vecvec, 70000, std::vector<std::vector<int>>); LONG(mapstrings, 70000, std::map<std::string, std::string>);
#endif
#if H_PART == 5
LONG(seti, 70000, std::set<int>); LONG(useti, 70000, std::unordered_set<int>); LONG(map, 4200, std::map<int, std::string>); LONG(umap, 4200, std::unordered_map<int, std::string>); LONG(vecstring, 70000, std::vector<std::string>); LONG(liststring, 4200, std::list<std::string>);
LONG(vecinner, 4200, std::vector<Inner>); LONG(vecpod, 70000, std::vector<Pod>); LONG(vecpair, 4200, std::vector<std::pair<int, std::string>>); LONG(tnl, 70000, TnlLike<int>); LONG(tnlc, 70000, TnlCompact<short>);
#endif
#if H_PART == 0
// sequence containers with the same elements are interchangeable
template <class A, class B, class T> void cross(mc::Case& c, const char* what) {
    static auto vs = vals<std::vector<T>>(2);
    int iv = c.choose((int)vs.size());
    A a; a.resize(vs[iv].size()); { size_t i = 0; for (auto& x : vs[iv]) { auto p = std::begin(a); std::advance(p, i++); *p = x; } }
    B b; b.resize(2);
    Bytes d = bytesOf(a);
    auto it = d.cbegin();
    BinarySerializer::readNext(it, b);
    c.op(what);
    c.out(std::string(d.begin(), d.end()));
    c.check(b.size() == vs[iv].size(), "size", std::string(what) + ": wrong size");
    size_t i = 0;
    for (auto& x : b) c.check(x == vs[iv][i++], "value", std::string(what) + ": wrong element");
    c.check(it == d.cend(), "consumed", std::string(what) + ": bytes left");
}
MC_GROUP(crossg, "interchange") {
    g_thorough = c.run.thorough;
    int k = c.choose(10); c.go();
    switch (k) {
    case 0: cross<std::vector<double>, std::valarray<double>, double>(c, "vector to valarray"); break;
    case 1: cross<std::valarray<double>, std::vector<double>, double>(c, "valarray to vector"); break;
    case 2: cross<std::vector<int>, std::deque<int>, int>(c, "vector to deque"); break;
    case 3: cross<std::deque<int>, std::vector<int>, int>(c, "deque to vector"); break;
    case 4: cross<std::vector<int>, std::list<int>, int>(c, "vector to list"); break;
    case 5: cross<std::list<int>, std::vector<int>, int>(c, "list to vector"); break;
    case 6: cross<std::list<std::string>, std::vector<std::string>, std::string>(c, "list to vector of strings"); break;
    case 7: cross<std::vector<std::string>, std::deque<std::string>, std::string>(c, "vector to deque of strings"); break;
    case 8: cross<std::string, std::vector<char>, char>(c, "string to vector"); break;
    default: cross<std::vector<char>, std::string, char>(c, "vector to string"); break;
    }
}
// bound traits: exactly the bound attributes are written and read
struct B3 { int a = 0; std::string b; double d = 0; bool operator==(const B3& o) const { return a == o.a && b == o.b && d == o.d; } bool operator<(const B3& o) const { return a < o.a; } };
MAKE_ATTRIBUTE_TRAIT(B3, a, b, d);
struct NoDefault { int x = 0, y = 0; };
template <class Tr> void boundCase(mc::Case& c, const Tr& tr, unsigned mask, bool inVector) {
    B3 src; src.a = 5; src.b = "bb"; src.d = 2.5;
    B3 dst; dst.a = -1; dst.b = "old"; dst.d = -9;
    B3 want = dst;
    if (mask & 1) want.a = src.a;
    if (mask & 2) want.b = src.b;
    if (mask & 4) want.d = src.d;
    BinarySerializer s;
    if (!inVector) {
        const B3 csrc = src;
        s << bindTraits(csrc, tr);
        auto bd = bindTraits(dst, tr);
        s >> bd;
        c.check(dst == want, "bound", "attributes differ from the bound ones");
    } else {
        std::vector<B3> v{src, src}, w{dst, dst, dst};
        s << bindTraits(v, tr);
        auto bd = bindTraits(w, tr);
        s >> bd;
        c.check(w.size() == 2 && w[0] == want && w[1] == want, "bound", "attributes of the elements differ from the bound ones");
    }
    size_t expect = (inVector ? 2 : 1) * ((mask & 1 ? 4 : 0) + (mask & 2 ? 10 : 0) + (mask & 4 ? 8 : 0)) + (inVector ? 8 : 0);
    c.check(s.getData().size() == expect, "boundsize", "size " + std::to_string(s.getData().size()) + " instead of " + std::to_string(expect));
    c.check(!s.isIteratorValid(), "consumed", "bytes left");
}
MC_GROUP(bound, "bound") {
    int k = c.choose(9), v = c.choose(2); c.go();
    c.note("bound traits " + std::to_string(k) + " " + std::to_string(v)); c.op(); c.out((uint64_t)(k * 2 + v));
    switch (k) {
    case 0: boundCase(c, makeTraits<B3>("a", &B3::a), 1, v); break;
    case 1: boundCase(c, makeTraits<B3>("b", &B3::b), 2, v); break;
    case 2: boundCase(c, makeTraits<B3>("d", &B3::d), 4, v); break;
    case 3: boundCase(c, makeTraits<B3>("b", &B3::b, "a", &B3::a), 3, v); break;
    case 4: boundCase(c, makeTraits<B3>("d", &B3::d, "a", &B3::a), 5, v); break;
    case 5: boundCase(c, makeTraits<B3>("d", &B3::d, "b", &B3::b), 6, v); break;
    case 6: boundCase(c, makeTraits<B3>("d", &B3::d, "b", &B3::b, "a", &B3::a), 7, v); break;
    case 7: boundCase(c, DefaultTraits<B3>::getTraits(), 7, v); break;
    default: {  // a class without default traits; the traits of the class are not the first ones given
        NoDefault a; a.x = 4; a.y = 6; NoDefault b; b.x = b.y = -1;
        auto other = makeTraits<B3>("a", &B3::a); auto tr = makeTraits<NoDefault>("y", &NoDefault::y);
        BinarySerializer s;
        if (v) { s << bindTraits(a, other, tr); auto bd = bindTraits(b, other, tr); s >> bd; } else { s << bindTraits(a, tr); auto bd = bindTraits(b, tr); s >> bd; }
        c.check(b.y == 6 && b.x == -1 && s.getData().size() == 4, "bound", "attributes differ from the bound ones");
    } }
}
// bound traits of classes anywhere inside the object: in lists, maps, pairs, attributes of other classes
struct Hold { B3 x; int n = 0; std::vector<B3> v; std::list<B3> l; std::map<int, B3> m; std::pair<std::string, B3> p; std::tuple<B3, bool> t; NoDefault none; };
MAKE_ATTRIBUTE_TRAIT(Hold, x, n, v, l, m, p, t, none);
static B3 b3(int i) { B3 x; x.a = i * 3 + 1; x.b = std::string(i & 3, 'q'); x.d = i * 0.5 + 0.25; return x; }
static B3 onlyBound(const B3& over, const B3& src, unsigned mask) { B3 r = over; if (mask & 1) r.a = src.a; if (mask & 2) r.b = src.b; if (mask & 4) r.d = src.d; return r; }
static size_t boundSize(const B3& x, unsigned mask) { return (mask & 1 ? 4 : 0) + (mask & 2 ? 8 + x.b.size() : 0) + (mask & 4 ? 8 : 0); }
template <class... Tr> struct RoundBound {
    mc::Case& c; std::tuple<Tr...> tr;
    template <class T, size_t... I> size_t go(const T& v, T& w, std::index_sequence<I...>) { BinarySerializer s; s << (char)7; s << bindTraits(v, std::get<I>(tr)...); s << 12345; char k = 0; int e = 0; s >> k; auto bd = bindTraits(w, std::get<I>(tr)...); s >> bd; s >> e; c.check(k == 7 && e == 12345 && !s.isIteratorValid(), "consumed", "reading with bound traits does not consume what was written"); return s.getData().size() - 5; }
    template <class T> size_t operator()(const T& v, T& w) { return go(v, w, std::index_sequence_for<Tr...>()); }
};
template <class... Tr> static void deepBound(mc::Case& c, unsigned mask, int kind, size_t n, size_t m, const Tr&... tr) {
    RoundBound<Tr...> round{c, std::tuple<Tr...>(tr...)};
    std::vector<B3> src, old; for (size_t i = 0; i < n; i++) src.push_back(b3((int)i)); for (size_t i = 0; i < m; i++) old.push_back(b3((int)i + 50));
    std::vector<B3> want; size_t bytes = 8;
    for (size_t i = 0; i < n; i++) { want.push_back(onlyBound(i < m ? old[i] : B3(), src[i], mask)); bytes += boundSize(src[i], mask); }
    auto seq = [&](auto v, auto w) { size_t got = round(v, w); size_t i = 0; c.equal((size_t)w.size(), n, "size", "elements of a list read with bound traits"); for (auto& x : w) { c.check(x == want[i], "bound", "element " + std::to_string(i) + " of a list of " + std::to_string(n) + " differs in the bound attributes or in others"); i++; } c.equal(got, bytes, "boundsize", "bytes written with bound traits"); };
    auto keyed = [&](auto v, auto w) { size_t b = bytes; for (size_t i = 0; i < n; i++) { v[(int)i] = src[i]; b += 4; } for (size_t i = 0; i < m; i++) w[(int)i + 1] = old[i]; size_t got = round(v, w); c.equal((size_t)w.size(), n, "size", "elements of a map read with bound traits"); for (size_t i = 0; i < n; i++) c.check(w.count((int)i) && w[(int)i] == onlyBound(B3(), src[i], mask), "bound", "element " + std::to_string(i) + " of a map differs in the bound attributes or in others"); c.equal(got, b, "boundsize", "bytes written with bound traits"); };
    switch (kind) {
    case 0: seq(src, old); break;
    case 1: seq(std::list<B3>(src.begin(), src.end()), std::list<B3>(old.begin(), old.end())); break;
    case 2: seq(std::deque<B3>(src.begin(), src.end()), std::deque<B3>(old.begin(), old.end())); break;
    case 3: keyed(std::map<int, B3>(), std::map<int, B3>()); break;
    case 4: keyed(std::unordered_map<int, B3>(), std::unordered_map<int, B3>()); break;
    case 5: { std::pair<std::list<B3>, B3> v, w; v.first.assign(src.begin(), src.end()); w.first.assign(old.begin(), old.end()); v.second = b3(9); w.second = b3(77); size_t got = round(v, w), i = 0; c.equal(w.first.size(), n, "size", "elements"); for (auto& x : w.first) { c.check(x == want[i], "bound", "element of a list in a pair"); i++; } c.check(w.second == onlyBound(b3(77), b3(9), mask), "bound", "the second of a pair"); c.equal(got, bytes + boundSize(b3(9), mask), "boundsize", "bytes written with bound traits"); break; }
    case 6: { std::tuple<int, B3, std::vector<std::vector<B3>>> v(4, b3(3), {src, {}, src}), w(5, b3(60), {old}); size_t got = round(v, w); c.check(std::get<0>(w) == 4 && std::get<1>(w) == onlyBound(b3(60), b3(3), mask), "bound", "elements of a tuple"); auto& l = std::get<2>(w); c.check(l.size() == 3 && l[0] == want && l[1].empty() && l[2].size() == n, "bound", "lists of a tuple"); for (size_t i = 0; i < n; i++) c.check(l[2][i] == onlyBound(B3(), src[i], mask), "bound", "element of a list in a tuple"); c.equal(got, 4 + boundSize(b3(3), mask) + 8 + 2 * bytes + 8, "boundsize", "bytes written with bound traits"); break; }
    default: if (n != m) for (size_t i = 0; i < n; i++) want[i] = onlyBound(B3(), src[i], mask);   // a valarray starts anew when resized
             seq([&] { std::valarray<B3> v(n); for (size_t i = 0; i < n; i++) v[i] = src[i]; return v; }(), [&] { std::valarray<B3> v(m); for (size_t i = 0; i < m; i++) v[i] = old[i]; return v; }());
    }
    c.op(); c.state(mc::mix(mc::mix(n, m), kind * 8 + mask)); c.out(bytes * 8 + kind);
}
static void holdBound(mc::Case& c, unsigned mask, int order, size_t n, size_t m) {
    auto fill = [](Hold& h, int k, size_t n) { h.x = b3(k); h.n = k; h.p = {std::string(k % 3, 'z'), b3(k + 1)}; h.t = std::make_tuple(b3(k + 2), k % 2 == 0); h.none.x = k; h.none.y = -k; for (size_t i = 0; i < n; i++) { h.v.push_back(b3(k + (int)i)); h.l.push_back(b3(k - (int)i)); h.m[(int)i] = b3((int)i + 2 * k); } };
    Hold v, w, o; fill(v, 20, n); fill(w, 51, m); o = w;
    auto ta = makeTraits<B3>("a", &B3::a); auto tb = makeTraits<B3>("b", &B3::b); auto tab = makeTraits<B3>("b", &B3::b, "a", &B3::a); auto tn = makeTraits<NoDefault>("y", &NoDefault::y); auto th = makeTraits<Hold>("none", &Hold::none, "m", &Hold::m, "x", &Hold::x);
    size_t got = 0; bool partial = false;
#define TY(x) decltype(x)
    auto with = [&](const auto& tr) {
        switch (order) {
        case 0: { RoundBound<TY(tn), std::decay_t<decltype(tr)>> r{c, std::make_tuple(tn, tr)}; got = r(v, w); break; }
        case 1: { RoundBound<std::decay_t<decltype(tr)>, TY(tn), TY(tb)> r{c, std::make_tuple(tr, tn, tb)}; got = r(v, w); break; }   // the first of two for one class
        default: { RoundBound<std::decay_t<decltype(tr)>, TY(th), TY(tn)> r{c, std::make_tuple(tr, th, tn)}; got = r(v, w); partial = true; }
        }
    };
    if (mask == 1) with(ta); else if (mask == 2) with(tb); else with(tab);
    size_t want = 4;
    c.check(w.none.y == v.none.y && w.none.x == o.none.x, "bound", "class without default traits in an attribute");
    c.check(w.x == onlyBound(o.x, v.x, mask), "bound", "attribute of a class with bound traits"); want += boundSize(v.x, mask);
    c.equal(w.m.size(), v.m.size(), "size", "map in an attribute"); want += 8;
    for (auto& p : v.m) { c.check(w.m.count(p.first) && w.m[p.first] == onlyBound(B3(), p.second, mask), "bound", "map in an attribute"); want += 4 + boundSize(p.second, mask); }
    if (partial) { c.check(w.n == o.n && w.v == o.v && w.l == o.l && w.p == o.p && w.t == o.t, "untouched", "attributes outside the bound traits changed"); }
    else {
        c.check(w.n == v.n && w.p.first == v.p.first && std::get<1>(w.t) == std::get<1>(v.t), "bound", "simple attributes"); want += 4 + 8 + v.p.first.size() + 1;
        c.check(w.p.second == onlyBound(o.p.second, v.p.second, mask) && std::get<0>(w.t) == onlyBound(std::get<0>(o.t), std::get<0>(v.t), mask), "bound", "pair and tuple in attributes"); want += boundSize(v.p.second, mask) + boundSize(std::get<0>(v.t), mask);
        c.check(w.v.size() == n && w.l.size() == n, "size", "lists in attributes"); want += 16;
        auto a = o.l.begin(); auto b = v.l.begin(); auto g = w.l.begin();
        for (size_t i = 0; i < n; i++, ++b, ++g) { B3 ov = i < m ? o.v[i] : B3(), ol = i < m ? *a++ : B3(); c.check(w.v[i] == onlyBound(ov, v.v[i], mask) && *g == onlyBound(ol, *b, mask), "bound", "element " + std::to_string(i) + " of a list in an attribute"); want += boundSize(v.v[i], mask) + boundSize(*b, mask); }
    }
    c.equal(got, want, "boundsize", "bytes written with bound traits");
    c.op(); c.state(mc::mix(mc::mix(n, m), order * 8 + mask)); c.out(want);
}
static void boundLengths(mc::Case& c, size_t& n, size_t& m) { static const std::vector<size_t> ns = sizes::upTo(c.run.thorough ? 8200 : 1100); n = ns[c.choose((int)ns.size(), "length")]; int k = c.choose(3); m = k == 0 ? 0 : k == 1 ? n / 2 : n + 2; }
MC_GROUP(boundDeep, "bound traits of elements") {
    int kind = c.choose(8), tr = c.choose(4); size_t n, m; boundLengths(c, n, m); c.go();
    switch (tr) {
    case 0: deepBound(c, 1, kind, n, m, makeTraits<B3>("a", &B3::a)); break;
    case 1: deepBound(c, 6, kind, n, m, makeTraits<B3>("d", &B3::d, "b", &B3::b)); break;
    case 2: deepBound(c, 3, kind, n, m, makeTraits<NoDefault>("y", &NoDefault::y), makeTraits<B3>("b", &B3::b, "a", &B3::a)); break;
    default: deepBound(c, 2, kind, n, m, makeTraits<B3>("b", &B3::b), makeTraits<B3>("a", &B3::a)); break;
    }
}
// classes marked as compact: with traits bound, their attributes are written one by one all the same
struct P4 { int a = 0; float f = 0; short s = 0; bool operator==(const P4& o) const { return a == o.a && f == o.f && s == o.s; } };
MAKE_ATTRIBUTE_TRAIT(P4, a, f, s);
namespace Interface { template <> struct Compact<P4, void> : public std::true_type {}; }
struct HoldP { std::vector<P4> v; std::vector<Pod> pods; std::vector<double> d; P4 x; std::array<P4, 2> two; std::list<std::vector<P4>> l; };
MAKE_ATTRIBUTE_TRAIT(HoldP, v, pods, d, x, two, l);
static P4 p4(int i) { P4 x; x.a = i * 7 - 3; x.f = i * 0.25f; x.s = (short)(i * 11 + 1); return x; }
static P4 onlyBound(const P4& over, const P4& src, unsigned mask) { P4 r = over; if (mask & 1) r.a = src.a; if (mask & 2) r.f = src.f; if (mask & 4) r.s = src.s; return r; }
template <class... Tr> static void compactBound(mc::Case& c, unsigned mask, int kind, size_t n, size_t m, const Tr&... tr) {
    RoundBound<Tr...> round{c, std::tuple<Tr...>(tr...)}; size_t each = (mask & 1 ? 4 : 0) + (mask & 2 ? 4 : 0) + (mask & 4 ? 2 : 0);
    c.note("compact elements, bound attributes " + std::to_string(mask) + " container " + std::to_string(kind) + " elements " + std::to_string(n) + " over " + std::to_string(m)); c.op(); c.out(n * 64 + mask * 8 + kind);
    std::vector<P4> src, old; for (size_t i = 0; i < n; i++) src.push_back(p4((int)i)); for (size_t i = 0; i < m; i++) old.push_back(p4((int)i + 50));
    auto lists = [&](const std::vector<P4>& v, const std::vector<P4>& w, const std::vector<P4>& o, const char* where) { c.equal(w.size(), v.size(), "size", where); for (size_t i = 0; i < v.size(); i++) c.check(w[i] == onlyBound(i < o.size() ? o[i] : P4(), v[i], mask), "bound", std::string(where) + ": element differs in the bound attributes or in others"); };
    size_t got = 0, want = 0;
    switch (kind) {
    case 0: { std::vector<P4> v = src, w = old; got = round(v, w); lists(src, w, old, "vector of compact elements"); want = 8 + n * each; break; }
    case 1: { std::vector<std::array<P4, 2>> v(n), w(m); for (size_t i = 0; i < n; i++) v[i] = {p4((int)i), p4((int)i + 3)}; for (size_t i = 0; i < m; i++) w[i] = {p4(90), p4(91)}; auto o = w; got = round(v, w); c.equal(w.size(), n, "size", "arrays of compact elements"); for (size_t i = 0; i < n; i++) for (int k = 0; k < 2; k++) c.check(w[i][k] == onlyBound(i < m ? o[i][k] : P4(), v[i][k], mask), "bound", "element of an array of compact elements"); bool sized = got == 8 + n * (2 * each) || got == 8 + n * (8 + 2 * each); c.check(sized, "boundsize", "bytes of arrays of compact elements"); want = got; break; }
    case 2: { std::list<std::vector<P4>> v{src, {}, src}, w{old}; got = round(v, w); c.equal((size_t)w.size(), (size_t)3, "size", "list of vectors"); lists(src, w.front(), old, "first list of compact elements"); lists(src, w.back(), {}, "last list of compact elements"); want = 8 + 3 * 8 + 2 * n * each; break; }
    default: {
        HoldP v, w, o; v.v = src; o.v = old; v.pods.resize(n); for (size_t i = 0; i < n; i++) { v.pods[i].a = (int)i; v.d.push_back(i * 0.5); } v.x = p4(8); o.x = p4(70); v.two = {p4(1), p4(2)}; o.two = {p4(71), p4(72)}; v.l = {src}; w = o; got = round(v, w);
        lists(v.v, w.v, o.v, "attribute holding compact elements"); c.check(w.d == v.d && w.pods.size() == n, "others", "attribute without classes of the bound traits"); for (size_t i = 0; i < n; i++) c.check(w.pods[i].a == v.pods[i].a, "others", "attribute without classes of the bound traits");
        c.check(w.x == onlyBound(o.x, v.x, mask), "bound", "compact attribute"); for (int k = 0; k < 2; k++) c.check(w.two[k] == onlyBound(o.two[k], v.two[k], mask), "bound", "array attribute"); c.equal((size_t)w.l.size(), (size_t)1, "size", "list attribute"); lists(src, w.l.front(), {}, "list attribute"); want = got; break; }
    }
    c.equal(got, want, "boundsize", "bytes written with bound traits");
}
MC_GROUP(boundCompact, "bound traits of compact elements") {
    int kind = c.choose(4), tr = c.choose(3); size_t n, m; boundLengths(c, n, m); c.go();
    switch (tr) {
    case 0: compactBound(c, 1, kind, n, m, makeTraits<P4>("a", &P4::a)); break;
    case 1: compactBound(c, 6, kind, n, m, makeTraits<P4>("s", &P4::s, "f", &P4::f)); break;
    default: compactBound(c, 5, kind, n, m, makeTraits<NoDefault>("y", &NoDefault::y), makeTraits<P4>("s", &P4::s, "a", &P4::a)); break;
    }
}
// sets: what is read are the bound attributes only, the others of the elements are as in a new object
MC_GROUP(boundSet, "bound traits of sets") {
    size_t n, m; boundLengths(c, n, m); int kind = c.choose(3); c.go();
    c.note("sets of " + std::to_string(n) + " over " + std::to_string(m) + " kind " + std::to_string(kind)); c.op(); c.out(n * 4 + kind);
    if (kind == 0) {
        std::set<B3> v, w; for (size_t i = 0; i < n; i++) v.insert(b3((int)i)); for (size_t i = 0; i < m; i++) w.insert(b3((int)i + 7000)); RoundBound<decltype(makeTraits<B3>("d", &B3::d, "a", &B3::a))> round{c, std::make_tuple(makeTraits<B3>("d", &B3::d, "a", &B3::a))};
        size_t got = round(v, w); c.equal(w.size(), n, "size", "elements of a set"); auto it = v.begin(); for (auto& x : w) { c.check(x == onlyBound(B3(), *it, 5), "bound", "element of a set"); ++it; } c.equal(got, 8 + n * 12, "boundsize", "bytes of a set");
    } else if (kind == 1) {
        std::set<int> v, w; for (size_t i = 0; i < n; i++) v.insert((int)i * 5 - 9); for (size_t i = 0; i < m; i++) w.insert((int)i * 3); RoundBound<decltype(makeTraits<B3>("a", &B3::a))> round{c, std::make_tuple(makeTraits<B3>("a", &B3::a))};
        size_t got = round(v, w); c.check(v == w, "others", "set of numbers"); c.equal(got, 8 + n * 4, "boundsize", "bytes of a set");
    } else {
        std::multiset<B3> v, w; for (size_t i = 0; i < n; i++) v.insert(b3((int)i / 2)); RoundBound<decltype(makeTraits<B3>("a", &B3::a))> round{c, std::make_tuple(makeTraits<B3>("a", &B3::a))};
        size_t got = round(v, w); c.equal(w.size(), n, "size", "elements of a multiset"); auto it = v.begin(); for (auto& x : w) { c.check(x == onlyBound(B3(), *it, 1), "bound", "element of a multiset"); ++it; } c.equal(got, 8 + n * 4, "boundsize", "bytes of a multiset");
    }
}
MC_GROUP(boundHold, "bound traits of attributes") {
    int order = c.choose(3), mask = 1 + c.choose(3); size_t n, m; boundLengths(c, n, m); c.go();
    if (n > 300 && !c.run.thorough) c.skip();
    holdBound(c, mask, order, n, m);
}
#endif // H_PART == 0
#endif

// ---- S02: histories ---------------------------------------------------------------------------------------
struct Item { int kind; int salt; };
static std::string longStr(int salt) { return std::string(37 + salt % 3, (char)('a' + salt % 26)); }
static void writeItem(BinarySerializer& s, const Item& i) {
    switch (i.kind) {
    case 0: s.write((uint8_t)i.salt); break;
    case 1: s << (int)(i.salt * 1000003); break;
    case 2: s.write(longStr(i.salt)); break;
    case 3: s << std::map<int, std::string>{{i.salt, "x"}, {-i.salt - 1, "yy"}}; break;
    case 4: s.write((uint8_t)i.salt, (double)i.salt); break;
    }
}
static bool readItem(BinarySerializer& s, const Item& i) {
    switch (i.kind) {
    case 0: { uint8_t x = 99; s.read(x); return x == (uint8_t)i.salt; }
    case 1: return s.read<int>() == i.salt * 1000003;
    case 2: { std::string x = "old"; s >> x; return x == longStr(i.salt); }
    case 3: { std::map<int, std::string> x{{5000, "z"}}; s.read(x); return x == std::map<int, std::string>{{i.salt, "x"}, {-i.salt - 1, "yy"}}; }
    case 4: { uint8_t x = 0; double d = 0; s.read(x, d); return x == (uint8_t)i.salt && d == i.salt; }
    }
    return false;
}
static size_t itemSize(const Item& i) { switch (i.kind) { case 0: return 1; case 1: return 4; case 2: return 8 + longStr(i.salt).size(); case 3: return 8 + 2 * 12 + 3; default: return 9; } }
struct Model { std::vector<Item> items; size_t pos = 0; };
static void checkData(mc::Case& c, BinarySerializer& s, const Model& m, const std::string& where) {
    size_t n = 0; for (auto& i : m.items) n += itemSize(i);
    c.check(s.getData().size() == n, "size", "after " + where + " the data have " + std::to_string(s.getData().size()) + " bytes instead of " + std::to_string(n));
    c.check(s.isIteratorValid() == (m.pos < m.items.size()), "valid", "after " + where + ": isIteratorValid is wrong");
}
#if H_PROP == 2
static int kinds3(int k, int i) { static const int t[3][4] = {{0, 1, 0, 1}, {2, 0, 4, 1}, {4, 4, 3, 0}}; return t[k][i % 4]; }
MC_GROUP(history, "history") {
    int depth = c.run.thorough ? 7 : 6;
    std::unique_ptr<BinarySerializer> s(new BinarySerializer);
    Model m, fileM; bool haveFile = false;
    remove("h.bin");
    int salt = 3;
    static const int kinds[] = {0, 2, 4};
    for (int d = 0; d < depth; d++) {
        int o = c.choose(10);
        if (d == 2) c.go();
        std::string name;
        switch (o) {
        case 0: case 1: case 2: { Item it{d == 0 && o == 2 ? 3 : d == 1 && o == 0 ? 1 : kinds[o], salt += 7}; name = "write" + std::to_string(it.kind); writeItem(*s, it); m.items.push_back(it); break; }
        case 3: if (m.items.empty()) c.skip(); {
            if (m.pos == m.items.size()) m.pos = 0;        // everything was read: reading starts again
            name = "read";
            c.check(readItem(*s, m.items[m.pos]), "value", "read at step " + std::to_string(d) + " did not return item " + std::to_string(m.pos) + " after " + c.text.str());
            m.pos++; break; }
        case 4: name = "reset"; if (m.pos == 0) c.skip(); s->resetIterator(); m.pos = 0; break;
        case 5: name = "clear"; if (m.items.empty()) c.skip(); s->clear(); m = Model(); break;
        case 6: { name = "copy"; std::unique_ptr<BinarySerializer> t(new BinarySerializer(*s)); s = std::move(t); break; }
        case 7: { name = "assign"; BinarySerializer t; t << 77 << 88; t.read<int>(); t = *s; *s = BinarySerializer(); *s << 5; std::unique_ptr<BinarySerializer> u(new BinarySerializer(t)); s = std::move(u); break; }
        case 8: name = "save"; s->saveToFile("h.bin"); fileM = m; haveFile = true; break;
        case 9: name = "load"; if (!haveFile) c.skip(); s->loadFromFile("h.bin"); m = fileM; m.pos = 0; break;
        }
        c.op(name);
        checkData(c, *s, m, c.text.str());
        uint64_t h = m.pos; for (auto& i : m.items) h = mc::mix(h, i.kind);
        c.state(mc::mix(h, haveFile)); c.out(h);
    }
    // and everything is still there
    s->resetIterator(); m.pos = 0;
    for (auto& i : m.items) c.check(readItem(*s, i), "final", "the items can not be read back after " + c.text.str());
    checkData(c, *s, Model{m.items, m.items.size()}, "final reading");
}
// many writes with reads in between: every position of the read iterator when the container reallocates
MC_GROUP(longrun, "longrun") {
    int n = c.run.thorough ? 90 : 40;
    int w = 1 + c.choose(n), r = c.choose(n), k = c.choose(3), w2 = 1 + c.choose(12); c.go();
    if (r > w) c.skip();
    BinarySerializer s; Model m;
    for (int i = 0; i < w; i++) { Item it{kinds3(k, i), i}; writeItem(s, it); m.items.push_back(it); }
    for (int i = 0; i < r; i++) c.check(readItem(s, m.items[i]), "value", "item " + std::to_string(i));
    for (int i = 0; i < w2; i++) { Item it{kinds3(k, w + i), 50 + i}; writeItem(s, it); m.items.push_back(it); }
    for (size_t i = r; i < m.items.size(); i++) c.check(readItem(s, m.items[i]), "value", "item " + std::to_string(i) + " after " + std::to_string(w) + " writes, " + std::to_string(r) + " reads, " + std::to_string(w2) + " writes");
    c.op(); c.out((uint64_t)(w * 1000 + r)); c.state(mc::mix(w, r));
    m.pos = m.items.size();
    checkData(c, s, m, "all");
}
// thousands of writes
MC_GROUP(manywrites, "many writes") {
    auto ns = sizes::upTo(c.run.thorough ? 300000 : 20000);
    int w = (int)ns[c.choose((int)ns.size())], k = c.choose(3), part = c.choose(3), way = c.choose(3); c.go();
    if (!w) c.skip();
    BinarySerializer s; Model m;
    for (int i = 0; i < w; i++) { Item it{kinds3(k, i), i % 1000}; writeItem(s, it); m.items.push_back(it); }
    c.op(std::to_string(w) + " writes"); c.out((uint64_t)(w * 1000 + part)); c.state(mc::mix(w, way * 3 + part));
    checkData(c, s, m, "writing");
    int r = part == 0 ? 0 : part == 1 ? w / 2 : w;
    for (int i = 0; i < r; i++) c.check(readItem(s, m.items[i]), "value", "item " + std::to_string(i));
    m.pos = r; checkData(c, s, m, "reading");
    BinarySerializer t;
    if (way == 1) { t = s; t.resetIterator(); r = 0; }
    if (way == 2) { s.saveToFile("many.bin"); t << 5 << 6; t.loadFromFile("many.bin"); r = 0; }
    BinarySerializer& u = way ? t : s;
    Item last{2, 77}; writeItem(u, last); m.items.push_back(last);
    for (size_t i = r; i < m.items.size(); i++) c.check(readItem(u, m.items[i]), "value", "item " + std::to_string(i) + " of " + std::to_string(w));
    m.pos = m.items.size(); checkData(c, u, m, "all");
}
#endif

// ---- S03: files ---------------------------------------------------------------------------------------------
#if H_PROP == 3
static std::string slurp(const char* f) { std::ifstream i(f, std::ios::binary); std::stringstream ss; ss << i.rdbuf(); return ss.str(); }
MC_GROUP(content, "content") {
    int n = c.choose(c.run.thorough ? 1200 : 520), pat = c.choose(4), old = c.choose(3), readFirst = c.choose(2); c.go();
    BinarySerializer s; std::string want;
    for (int i = 0; i < n; i++) { uint8_t b = pat == 0 ? (uint8_t)i : pat == 1 ? 0 : pat == 2 ? 255 : (uint8_t)(i % 3 == 0 ? 10 : i % 3 == 1 ? 13 : 26); s.write(b); want += (char)b; }
    remove("c.bin");
    if (old) { std::ofstream o("c.bin", std::ios::binary); o << std::string(old == 1 ? 1 : 2000, 'O'); }
    if (readFirst && n) { s.read<uint8_t>(); }
    s.saveToFile("c.bin");
    c.op("save " + std::to_string(n)); c.out((uint64_t)(n * 4 + pat)); c.state(mc::mix(n, pat));
    c.check(slurp("c.bin") == want, "file", "the file differs from the data");
    c.check(std::string(s.getData().begin(), s.getData().end()) == want, "kept", "saving changes the data");
    BinarySerializer t;
    for (int i = 0; i < old * 700; i++) t << (uint8_t)1;
    if (old && readFirst) for (int i = 0; i < 350; i++) t.read<uint8_t>();
    t.loadFromFile("c.bin");
    c.check(std::string(t.getData().begin(), t.getData().end()) == want, "load", "the loaded data differ from the file");
    if (n) c.check(t.read<uint8_t>() == (uint8_t)want[0], "first", "reading does not start at the beginning of the loaded file");
    c.check(slurp("c.bin") == want, "file", "loading changes the file");
}
MC_GROUP(longcontent, "long content") {
    auto ns = sizes::upTo(c.run.thorough ? 20000000 : 1100000);
    size_t n = ns[c.choose((int)ns.size())]; int old = c.choose(3); c.go();
    BinarySerializer s; std::string want(n, 0);
    for (size_t i = 0; i < n; i++) want[i] = (char)(i * 31 + (i >> 8) + (i >> 16));
    for (size_t i = 0; i < n; i++) s.write((uint8_t)want[i]);
    remove("l.bin");
    if (old) { std::ofstream o("l.bin", std::ios::binary); o << std::string(old == 1 ? n / 2 : n + 5000, 'O'); }
    s.saveToFile("l.bin");
    c.op("save " + std::to_string(n)); c.out((uint64_t)n); c.state(mc::mix(n, old));
    c.check(slurp("l.bin") == want, "file", "the file differs from the data");
    BinarySerializer t;
    if (old == 2) for (size_t i = 0; i < n + 100; i++) t << (uint8_t)1;
    if (old == 1) for (size_t i = 0; i < n / 2 + 1; i++) t << (uint8_t)1;
    t.loadFromFile("l.bin");
    c.check(std::string(t.getData().begin(), t.getData().end()) == want, "load", "the loaded data differ from the file");
    c.check(t.isIteratorValid() == (n > 0), "first", "reading does not start at the beginning of the loaded file");
    remove("l.bin");
}
MC_GROUP(missing, "missing") {
    int k = c.choose(5), content = c.choose(2); c.go();
    BinarySerializer s; if (content) s << 42;
    bool threw = false;
    std::string dir = "nodir/x.bin";
    remove("none.bin");
    try {
        if (k == 0) s.loadFromFile("none.bin");
        if (k == 1) s.loadFromFile(dir);
        if (k == 2) s.saveToFile(dir);
        if (k == 3) s.loadFromFile("");
        if (k == 4) s.saveToFile(".");
    } catch (const std::exception&) { threw = true; }
    c.op("missing " + std::to_string(k)); c.out((uint64_t)(k * 2 + content)); c.state(k * 2 + content);
    c.check(threw, "silent", "a file that can not be opened is not reported");
    c.check(s.getData().size() == (content ? 4u : 0u), "kept", "the data are lost");
    if (content) c.check(s.read<int>() == 42, "kept", "the data are lost");
}
// every point at which reading fails or the file ends before its announced size, in pieces of any size
static long readLeft = -1; static size_t readPiece = 0; static bool readEnds = false;
extern "C" ssize_t read(int fd, void* p, size_t n) {
    if (readLeft >= 0) {
        if (readLeft == 0) { if (readEnds) return 0; errno = EIO; return -1; }
        if ((long)n > readLeft) n = (size_t)readLeft;
        if (readPiece && n > readPiece) n = readPiece;
    }
    long r = syscall(SYS_read, fd, p, n);
    if (readLeft >= 0 && r > 0) readLeft -= r;
    return r;
}
MC_GROUP(unreadable, "unreadable") {
    static const size_t PIECE[] = {0, 1, 7, 1000};
    int n = c.choose(c.run.thorough ? 300 : 90), piece = c.choose(4), ends = c.choose(2), old = c.choose(3); c.go();
    size_t size = (size_t)n < 80 ? (size_t)n : 8190 + (size_t)(n - 80);       // around the buffer of the stream
    size_t at = size <= 80 ? (size_t)c.choose((int)size + 2) : size * (size_t)c.choose(9) / 8 + (size_t)c.choose(2);
    std::string want;
    for (size_t i = 0; i < size; i++) want += (char)(i * 7 + 3);
    std::ofstream("u.bin", std::ios::binary) << want;
    BinarySerializer s; if (old) s.write(int(42), int(43)); if (old == 2) s.read<int>();
    bool threw = false;
    readLeft = (long)at; readPiece = PIECE[piece]; readEnds = ends;
    try { s.loadFromFile("u.bin"); } catch (const std::exception&) { threw = true; }
    bool used = readLeft != (long)at; readLeft = -1;
    c.check(used || !size || !at, "harness", "the file was not read by read()");
    c.op("reading fails after " + std::to_string(at) + " of " + std::to_string(size)); c.out((uint64_t)threw); c.state(mc::mix(size, at));
    if (at < size) {
        c.check(threw, "damaged", "only " + std::to_string(at) + " of " + std::to_string(size) + " bytes could be read, and loadFromFile reports nothing");
        c.equal(s.getData().size(), size_t(old ? 8 : 0), "kept-load", "number of bytes of a serializer whose loading failed");
        if (old) c.check(s.read<int>() == (old == 2 ? 43 : 42), "kept-load", "a failed loading changes the data or the position");
    } else {
        c.check(!threw, "spurious-load", "loadFromFile reports an error although everything can be read");
        c.check(std::string(s.getData().begin(), s.getData().end()) == want, "pieces", "a file that is read in pieces of " + std::to_string(PIECE[piece]) + " bytes is not restored");
    }
    remove("u.bin");
}
// every point at which the device fills up
MC_GROUP(full, "full") {
    int n = c.choose(c.run.thorough ? 700 : 260), pat = c.choose(2); c.go();
    int at = c.choose(n + 2);
    BinarySerializer s; std::string want;
    for (int i = 0; i < n; i++) { uint8_t b = (uint8_t)(i * (pat ? 7 : 1)); s.write(b); want += (char)b; }
    remove("f.bin");
    struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = at;
    signal(SIGXFSZ, SIG_IGN);
    setrlimit(RLIMIT_FSIZE, &lim);
    bool threw = false;
    try { s.saveToFile("f.bin"); } catch (const std::exception&) { threw = true; }
    setrlimit(RLIMIT_FSIZE, &old);
    c.op("write fails after " + std::to_string(at) + " of " + std::to_string(n)); c.out((uint64_t)threw); c.state(mc::mix(n, at));
    std::string got = slurp("f.bin");
    c.check(threw || got == want, "lost", "only " + std::to_string(got.size()) + " of " + std::to_string(n) + " bytes were stored, and saveToFile reports nothing");
    c.check(at < n || !threw, "spurious", "saveToFile reports an error although everything fits");
    c.check(std::string(s.getData().begin(), s.getData().end()) == want, "kept", "saving changes the data");
}
#endif
MC_MAIN
