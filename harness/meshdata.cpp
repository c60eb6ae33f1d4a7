// M18: containers of mesh data and results of mesh functions are saved, loaded, shown and aggregated like other values.
#include "printref.h"
#include "meshgen.h"
#include "sizes.h"
using namespace mg;
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#include <GTMesh/Debug/Debug.h>
#include <GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerArithmeticTraits.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerIOTraits.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

struct Stdout {                                    // what is printed to the standard output
    int saved, fd;
    Stdout() { fflush(stdout); saved = dup(1); fd = memfd_create("out", 0); dup2(fd, 1); }
    std::string end() { fflush(stdout); dup2(saved, 1); close(saved); std::string r; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n); close(fd); return r; }
};
struct Cd { double rho; int n; Vertex<3, double> v; };
MAKE_ATTRIBUTE_TRAIT(Cd, rho, n, v);
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Cd, rho, n, v);
inline bool operator==(const Cd& a, const Cd& b) { return a.rho == b.rho && a.n == b.n && a.v == b.v; }
namespace ref { template <> struct Ref<Cd> { static std::string of(const Cd& v, const Opt& o) { return attrs({{"rho", text(v.rho, o)}, {"n", text(v.n, o)}, {"v", text(v.v, o)}}); } }; }

namespace ref { template <unsigned D, class I> struct Ref<ElementIndex<D, I>> { static std::string of(const ElementIndex<D, I>& v, const Opt&) { return std::to_string(v.index); } }; }
template <class T> struct Val { static T of(int k) { return T(k * 7 % 23 - 9); } };
template <> struct Val<double> { static double of(int k) { return k * 7 % 23 - 9 + k / 8.0; } };
template <> struct Val<bool> { static bool of(int k) { return k % 2; } };
template <> struct Val<char> { static char of(int k) { return char('a' + k % 26); } };
template <> struct Val<size_t> { static size_t of(int k) { return k * 0x1234567890ull; } };
template <> struct Val<std::string> { static std::string of(int k) { return k % 3 == 2 ? "" : "text \"" + std::to_string(k) + std::string(k % 40, '.'); } };
template <unsigned N, class R> struct Val<Vertex<N, R>> { static Vertex<N, R> of(int k) { Vertex<N, R> v; for (unsigned i = 0; i < N; i++) v[i] = Val<R>::of(k + 5 * i); return v; } };
template <class T> struct Val<std::vector<T>> { static std::vector<T> of(int k) { std::vector<T> v; for (int i = 0; i < k % 4; i++) v.push_back(Val<T>::of(k + i)); return v; } };
template <class K, class T> struct Val<std::map<K, T>> { static std::map<K, T> of(int k) { std::map<K, T> v; for (int i = 0; i < k % 3; i++) v[Val<K>::of(k + i)] = Val<T>::of(k + 9 * i); return v; } };
template <> struct Val<Cd> { static Cd of(int k) { return {Val<double>::of(k), Val<int>::of(k + 1), Val<Vertex<3, double>>::of(k + 2)}; } };
template <> struct Val<Leaf> { static Leaf of(int k) { return {k, Val<std::string>::of(k), k % 2 == 1}; } };
inline bool operator==(const Leaf& a, const Leaf& b) { return a.a == b.a && a.s == b.s && a.b == b.b; }

template <class C, class F, unsigned... P> void eachPosImpl(F&& f, std::integer_sequence<unsigned, P...>) { int x[] = {0, (f(std::integral_constant<unsigned, P>()), 0)...}; (void)x; }
template <class C, class F> void eachPos(F&& f) { eachPosImpl<C>(f, std::make_integer_sequence<unsigned, C::size()>()); }
template <class C, unsigned P> using EntryT = typename C::template DataContainerType<P>::type;
template <class T> const std::vector<T>& vec(const std::vector<T>& v) { return v; }

template <class C> void fill(C& k, const std::vector<int>& n, int base) {
    eachPos<C>([&](auto pos) {
        constexpr unsigned p = decltype(pos)::value;
        auto& d = k.template getDataByPos<p>();
        d.resize(n[p]);
        for (int i = 0; i < n[p]; i++) d[i] = Val<EntryT<C, p>>::of(base++);
    });
}
template <class C> bool same(const C& a, const C& b) {
    bool r = true;
    eachPos<C>([&](auto pos) { constexpr unsigned p = decltype(pos)::value; r = r && vec(a.template getDataByPos<p>()) == vec(b.template getDataByPos<p>()); });
    return r;
}
template <class C> std::string shown(const C& k, const ref::Opt& o) {
    std::vector<std::pair<std::string, std::string>> v;
    eachPos<C>([&](auto pos) { constexpr unsigned p = decltype(pos)::value; v.push_back({"dim " + std::to_string(C::template dimensionAt<p>()), ref::text(vec(k.template getDataByPos<p>()), o)}); });
    return ref::attrs(v);
}
static int how = 0;
// store among other data, restore over previous content
template <class C> void stored(mc::Case& c, const C& k, C old, const std::string& t) {
    BinarySerializer s; s.write(1234567); s.write(k); s.write(std::string("end"));
    if (how == 1) { s.saveToFile("data.bin"); s = BinarySerializer(); s.loadFromFile("data.bin"); }
    int a = 0; std::string e; s.read(a);
    if (how == 2) { C got = s.read<C>(); c.check(same(got, k), t + "/store", "the data read back differ"); }
    else { s.read(old); c.check(same(old, k), t + "/store", "the data read back differ"); }
    s.read(e); c.check(a == 1234567 && e == "end", t + "/neighbours", "data stored around the container differ");
    c.op();
}
template <class C> void printed(mc::Case& c, const C& k, const std::string& t) {
    ref::Opt o; std::string want = shown(k, o), got;
    { std::ostringstream s; VariableExport::exportVariable(s, k); got = s.str(); }
    c.equal(got, want, t + "/print", "text in a stream");
    Stdout so; VariableExport::exportVariable(k); got = so.end();
    c.equal(got, want, t + "/stdio", "text on the standard output");
    // as a part of other things
    std::ostringstream s; VariableExport::exportVariable(s, std::make_pair(std::string("k"), k)); c.equal(s.str(), "{ \"k\": " + want + "}", t + "/print", "text of a pair");
    c.op();
}
template <class C> struct Kind {
    static void run(mc::Case& c, const std::string& t, bool large) {
        int m = c.run.thorough ? 4 : 3; std::vector<int> n, o;
        int prev, base;
        if (large) {
            auto ns = sizes::upTo(c.run.thorough ? 70000 : 5000);
            int x = (int)ns[c.choose((int)ns.size())], which = c.choose((int)C::size() + 1);
            for (unsigned p = 0; p < C::size(); p++) n.push_back(which == (int)p ? x : which == (int)C::size() ? x / (int)(p + 1) : 2);
            prev = c.choose(2); base = x % 5; how = x % 3;
        } else {
            for (unsigned p = 0; p < C::size(); p++) { n.push_back(c.choose(p > 2 ? 2 : m)); }
            prev = c.choose(3), base = c.choose(c.run.thorough ? 6 : 3); how = c.choose(3);
        }
        c.go();
        for (unsigned p = 0; p < C::size(); p++) o.push_back(prev == 0 ? 0 : prev == 1 ? 3 : p % 2);
        C k, old; fill(k, n, base * 11); fill(old, o, 50);
        uint64_t h = 0; for (int x : n) h = h * 5 + x; c.state(h * 3 + prev); c.out(h + base);
        stored(c, k, old, t);
        if (prev == 0) printed(c, k, t);
    }
};
struct Holder { int a; MeshDataContainer<double, 2> data; std::string s; };
MAKE_ATTRIBUTE_TRAIT(Holder, a, data, s);

static void kinds(mc::Case& c, bool large) {
    switch (c.choose(14)) {
    case 0: return Kind<MeshDataContainer<double, 2>>::run(c, "double", large);
    case 1: return Kind<MeshDataContainer<int, 2, 1, 0>>::run(c, "int", large);
    case 2: return Kind<MeshDataContainer<char, 3, 3>>::run(c, "char", large);
    case 3: return Kind<MeshDataContainer<size_t, 3, 1, 0, 2>>::run(c, "size_t", large);
    case 4: return Kind<MeshDataContainer<std::vector<size_t>, 2, 0>>::run(c, "vector", large);
    case 5: return Kind<MeshDataContainer<Cd, 2, 2>>::run(c, "class", large);
    case 6: return Kind<MeshDataContainer<std::string, 1>>::run(c, "string", large);
    case 7: return Kind<MeshDataContainer<Vertex<3, double>, 0, 3>>::run(c, "vertex", large);
    case 8: return Kind<MeshDataContainer<std::map<int, std::string>, 10, 125>>::run(c, "map", large);
    case 9: return Kind<MeshDataContainer<std::tuple<int, std::string>, 2, 1>>::run(c, "tuple", large);
    case 10: return Kind<MeshDataContainer<std::tuple<Cd, std::vector<int>, double>, 3, 0, 3>>::run(c, "tuple3", large);
    case 11: return Kind<MeshDataContainer<Leaf, 2>>::run(c, "leaf", large);
    case 12: return Kind<MeshDataContainer<std::tuple<double>, 1>>::run(c, "tuple1", large);
    default: return Kind<MeshDataContainer<std::vector<std::vector<float>>, 1, 2>>::run(c, "nested", large);
    }
}
MC_GROUP(g_kinds, "containers") { kinds(c, false); }
MC_GROUP(g_kindsL, "large containers") { kinds(c, true); }
MC_GROUP(g_parts, "containers in other values") {
    int n = c.choose(4), m = c.choose(4), old = c.choose(4), which = c.choose(4); how = 0;
    c.go(); c.state(n * 64 + m * 16 + old * 4 + which); c.out(n * 4 + m);
    using D = MeshDataContainer<double, 2>;
    D a, b; fill(a, {n}, 3); fill(b, {m}, 8); D prev; fill(prev, {old}, 30); c.op();
    BinarySerializer s; std::ostringstream o; ref::Opt opt;
    if (which == 0) {
        std::vector<D> v{a, b, a}, w(old, prev); s.write(v); s.read(w);
        c.check(w.size() == 3 && same(w[0], a) && same(w[1], b) && same(w[2], a), "list/store", "a list of containers differs");
        VariableExport::exportVariable(o, v); c.equal(o.str(), ref::list({shown(a, opt), shown(b, opt), shown(a, opt)}), "list/print", "text");
    } else if (which == 1) {
        Holder h{n, a, "x"}, g{9, prev, "yy"}; s.write(h); s.read(g); c.check(g.a == n && same(g.data, a) && g.s == "x", "attribute/store", "a container stored as an attribute differs");
        VariableExport::exportVariable(o, h); c.equal(o.str(), ref::attrs({{"a", std::to_string(n)}, {"data", shown(a, opt)}, {"s", "\"x\""}}), "attribute/print", "text");
    } else if (which == 2) {
        std::map<std::string, D> v{{"a", a}, {"b", b}}, w{{"a", prev}, {"c", prev}}; s.write(v); s.read(w);
        c.check(w.size() == 2 && w.count("a") && w.count("b") && same(w["a"], a) && same(w["b"], b), "map/store", "a map of containers differs");
        VariableExport::exportVariable(o, v); c.equal(o.str(), ref::list({"{ \"a\": " + shown(a, opt) + "}", "{ \"b\": " + shown(b, opt) + "}"}), "map/print", "text");
    } else {
        auto& d = a.getDataByPos<0>(); auto& e = prev.getDataByPos<0>(); s.write(d); s.write(b.getDataByPos<0>()); s.read(e); c.check(vec(e) == vec(d), "array/store", "a single array differs"); s.read(e); c.check(vec(e) == vec(b.getDataByPos<0>()), "array/store", "a single array differs");
        VariableExport::exportVariable(o, d); c.equal(o.str(), ref::text(vec(d), opt), "array/print", "text");
    }
}
template <class C> void aggregate(mc::Case& c, const std::string& t, bool large) {
    int m = c.run.thorough ? 5 : 4, base; std::vector<int> n; bool none = false, all = true;
    if (large) { auto ns = sizes::upTo(3000); int x = (int)ns[c.choose((int)ns.size())], which = c.choose((int)C::size()); for (unsigned p = 0; p < C::size(); p++) n.push_back((int)p == which ? x : 1 + x % 3); base = x % 12; }
    else { for (unsigned p = 0; p < C::size(); p++) { n.push_back(c.choose(m)); } base = c.choose(12); }
    c.go();
    C k; fill(k, n, base * 5); for (int x : n) { none = none || x == 0; all = all && x == 0; }
    long double s = 0, hi = -1e30L, lo = 1e30L; auto add = [&](long double x) { s += x; hi = std::max(hi, x); lo = std::min(lo, x); };
    struct Each { static void of(const Cd& x, const decltype(add)& f) { f(x.rho); f(x.n); for (int i = 0; i < 3; i++) f(x.v[i]); }
                  static void of(double x, const decltype(add)& f) { f(x); } static void of(const Vertex<3, double>& x, const decltype(add)& f) { for (int i = 0; i < 3; i++) f(x[i]); } };
    eachPos<C>([&](auto pos) { for (auto& x : vec(k.template getDataByPos<decltype(pos)::value>())) Each::of(x, add); });
    c.op(); uint64_t h = base; for (int x : n) h = h * 5 + x; c.state(h); c.out((uint64_t)(s * 8));
    c.check(std::fabs((long double)sum(k) - s) < 1e-12, t + "/sum", "sum is " + std::to_string((double)sum(k)) + " instead of " + std::to_string((double)s));
    if (!none) {                                       // the largest of no values is left open
        c.check((long double)max(k) == hi, t + "/max", "max is " + std::to_string((double)max(k)) + " instead of " + std::to_string((double)hi));
        c.check((long double)min(k) == lo, t + "/min", "min is " + std::to_string((double)min(k)) + " instead of " + std::to_string((double)lo));
    }
}
static void aggregates(mc::Case& c, bool large) {
    switch (c.choose(4)) {
    case 0: return aggregate<MeshDataContainer<double, 2, 1, 0>>(c, "double", large);
    case 1: return aggregate<MeshDataContainer<Cd, 3, 3>>(c, "class", large);
    case 2: return aggregate<MeshDataContainer<Vertex<3, double>, 2, 0>>(c, "vertex", large);
    default: return aggregate<MeshDataContainer<int, 3>>(c, "int", large);
    }
}
MC_GROUP(g_aggr, "aggregates") { aggregates(c, false); }
MC_GROUP(g_aggrL, "aggregates of large containers") { aggregates(c, true); }
// what the mesh functions return can be stored and shown
MC_GROUP(g_results, "results of mesh functions") {
    int nx = 1 + c.choose(2), ny = 1 + c.choose(2); std::vector<int> opt; for (int i = 0; i < nx * ny; i++) opt.push_back(c.choose(nx * ny > 2 && !c.run.thorough ? 2 : 4)); int enc = c.choose(3), fn = c.choose(8); how = c.choose(3);
    c.go();
    AbsMesh a = grid2D(nx, ny, opt); encode(a, enc * 2); UnstructuredMesh<2, size_t, double> m, one; build(m, a); m.initializeCenters();
    AbsMesh b = grid2D(1, 1, {0}); build(one, b); one.initializeCenters();
    uint64_t h = fn; for (int x : opt) h = h * 7 + x; c.state(h); c.out(h * 3 + enc); c.note(a.str());
    auto show = [&](const auto& k, const char* t) {     // lists of element indices: as numbers, also of constant containers
        printed(c, k, t); c.op();
        for (auto& l : k.template getDataByPos<0>()) for (auto& e : l) { size_t i = e; c.check(i == e.index && e == i && !(e == i + 1), std::string(t) + "/number", "an element index is not used as its number"); }
    };
    auto both = [&](auto k, auto old, const char* t) { stored(c, k, old, t); printed(c, k, t); };
    switch (fn) {
    case 0: show(m.connections<2, 0>(), "connections"); break;
    case 1: show(m.connections<0, 2>(), "connections up"); break;
    case 2: show(m.neighborhood<2, 1, 2>(), "neighborhood"); break;
    case 3: both(m.coloring<2, 1>(), one.coloring<2, 1>(), "coloring"); break;
    case 4: { auto k = m.computeElementMeasures(); both(k, one.computeElementMeasures(), "measures"); long double s = 0; for (double x : k.getDataByDim<2>()) s += x; for (double x : k.getDataByDim<1>()) s += x; c.check(std::fabs(sum(k) - s) < 1e-9, "measures/sum", "sum"); break; }
    case 5: both(m.computeFaceNormals(), one.computeFaceNormals(), "normals"); break;
    case 6: both(computeCenters<METHOD_DEFAULT>(m), computeCenters<METHOD_DEFAULT>(one), "centers"); break;
    default: show(m.connections<1, 0>(), "ends");
    }
}
MC_MAIN
