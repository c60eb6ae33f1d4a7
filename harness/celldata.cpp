// M13: data of cells written to VTK and read back, split cells included.  -DH_DIM=2|3 -DH_IDX=... [-DH_RES=...]
#include "io.h"
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h>
#include "sizes.h"
using namespace mg;
#ifndef H_IDX
#define H_IDX size_t
#endif
#ifdef H_RES
using Mesh = UnstructuredMesh<H_DIM, H_IDX, double, H_RES>;
#else
using Mesh = UnstructuredMesh<H_DIM, H_IDX, double>;
#endif
constexpr unsigned D = H_DIM;
using ET = typename MeshNativeType<H_DIM>::ElementType;
using MW = VTKMeshWriter<H_DIM, H_IDX, double>;
using DW = VTKMeshDataWriter<H_DIM>;
using DR = VTKMeshDataReader<H_DIM, H_IDX>;

// values: three patterns, distinct over cells, attributes and coordinates in the first
static double num13(int pattern, int cell, int attr, int k) {
    double x = cell * 100 + attr * 10 + k;
    switch (pattern) {
    case 0: return x + 0.0;
    case 1: return ((cell + attr + k) % 3 - 1) * (x + 0.5) * 1e-7;
    default: { static const double s[] = {0, -1, 1e300, -2.5e-300, 3.141592653589793, 1.0 / 3, 123456789.0123}; return s[(cell * 3 + attr * 5 + k) % 7]; }
    }
}
template <class T> typename std::enable_if<std::is_arithmetic<T>::value>::type setv(T& t, int p, int c, int a) {
    double x = num13(p, c, a, 0);
    if (std::is_same<T, bool>::value) t = (c + a) % 2;
    else if (std::is_integral<T>::value) t = (T)(std::is_unsigned<T>::value ? c * 100 + a : (p == 0 ? 1 : -1) * (c * 100 + a));
    else if (std::is_same<T, float>::value) t = (T)(p == 2 ? (c % 2 ? -0.1 : 3e30) : x);
    else t = (T)x;
}
template <class T> typename std::enable_if<!std::is_arithmetic<T>::value>::type setv(T& t, int p, int c, int a) {
    for (size_t k = 0; k < t.size(); k++) { using V = typename std::decay<decltype(t[0])>::type; t[k] = std::is_integral<V>::value ? (V)(c * 100 + a * 10 + k) * (p == 1 ? -1 : 1) : (V)num13(p, c, a, k + 1); }
}
struct One { double w; };
MAKE_ATTRIBUTE_TRAIT(One, w);
struct Two { int density; Vector<D, double> velocity; };
MAKE_ATTRIBUTE_TRAIT(Two, density, velocity);
struct Prefix { double p; Vector<D, double> pv; double pp; };          // names that begin with each other
MAKE_NAMED_ATTRIBUTE_TRAIT(Prefix, "p", p, "pv", pv, "pp", pp);
struct All {
    int i; double d; Vector<D, double> v; Vector<D * D, double> t; std::array<double, D> a; bool b; float f; size_t s; Vector<D, int> vi; long long ll; short sh;
    double getG() const { return g; } void setG(double x) { g = x; }
    Vector<D, double> getH() const { return h; } void setH(const Vector<D, double>& x) { h = x; }
    std::array<double, D * D> ta;
private:
    double g = 0; Vector<D, double> h{};
};
MAKE_CUSTOM_TRAIT_IO(All, "i", &All::i, "d", &All::d, "v", &All::v, "t", &All::t, "a", &All::a, "b", &All::b, "f", &All::f, "s", &All::s, "vi", &All::vi, "ll", &All::ll, "sh", &All::sh,
                     "g", std::make_pair(&All::getG, &All::setG), "h", std::make_pair(&All::getH, &All::setH), "ta", &All::ta);
struct Bound { double x, y; Vector<D, double> z; };                     // no default traits

// the expected columns
struct Want { std::string kind, name; std::vector<std::vector<double>> perCell; };
template <class T> typename std::enable_if<std::is_arithmetic<T>::value>::type column(Want& w, const T& t) { w.kind = "SCALARS"; w.perCell.push_back({(double)t}); }
template <class T> typename std::enable_if<!std::is_arithmetic<T>::value>::type column(Want& w, const T& t) {
    std::vector<double> r;
    if (t.size() == D) { w.kind = "VECTORS"; for (unsigned k = 0; k < 3; k++) r.push_back(k < D ? (double)t[k] : 0.0); }
    else { w.kind = "TENSORS"; for (unsigned i = 0; i < 3; i++) for (unsigned j = 0; j < 3; j++) r.push_back(i < D && j < D ? (double)t[i * D + j] : 0.0); }
    w.perCell.push_back(r);
}
template <class C, class Tr, unsigned... I> void columns(std::vector<Want>& out, const C& data, const Tr& tr, std::integer_sequence<unsigned, I...>) {
    auto one = [&](auto i) {
        constexpr unsigned k = decltype(i)::value;
        Want w; w.name = tr.template getName<k>();
        for (auto& e : data) column(w, static_cast<typename std::decay<typename Tr::template type<k>>::type>(tr.template getValue<k>(e)));
        if (data.empty()) { typename C::value_type e{}; column(w, static_cast<typename std::decay<typename Tr::template type<k>>::type>(tr.template getValue<k>(e))); w.perCell.clear(); }
        out.push_back(w);
    };
    int x[] = {(one(std::integral_constant<unsigned, I>()), 0)...}; (void)x;
}
template <class C, class Tr> void columns(std::vector<Want>& out, const C& data, const Tr& tr) { columns(out, data, tr, std::make_integer_sequence<unsigned, Tr::size()>()); }
template <class C, class Tr, unsigned... I> void fill(C& data, const Tr& tr, int p, int base, const std::vector<int>& cellOf, std::integer_sequence<unsigned, I...>) {
    auto one = [&](auto i) {
        constexpr unsigned k = decltype(i)::value;
        for (size_t q = 0; q < data.size(); q++) { typename std::decay<typename Tr::template type<k>>::type v{}; setv(v, p, cellOf.empty() ? (int)q : cellOf[q], base + (int)k); tr.template setValue<k>(data[q], v); }
    };
    int x[] = {(one(std::integral_constant<unsigned, I>()), 0)...}; (void)x;
}
template <class C, class Tr> void fill(C& data, const Tr& tr, int p, int base, const std::vector<int>& cellOf = {}) { fill(data, tr, p, base, cellOf, std::make_integer_sequence<unsigned, Tr::size()>()); }
template <class C, class Tr, unsigned... I> void compare(mc::Case& c, const C& got, const C& want, const Tr& tr, const std::string& what, std::integer_sequence<unsigned, I...>) {
    c.equal(got.size(), want.size(), "read-size", what);
    auto one = [&](auto i) {
        constexpr unsigned k = decltype(i)::value;
        using T = typename std::decay<typename Tr::template type<k>>::type;
        for (size_t q = 0; q < got.size(); q++) {
            T g = tr.template getValue<k>(got[q]), w = tr.template getValue<k>(want[q]);
            if (!(g == w)) c.fail("read-value", what + ": attribute " + tr.template getName<k>() + " of cell " + std::to_string(q) + " is not the one written");
        }
    };
    int x[] = {(one(std::integral_constant<unsigned, I>()), 0)...}; (void)x;
}
template <class C, class Tr> void compare(mc::Case& c, const C& got, const C& want, const Tr& tr, const std::string& what) { compare(c, got, want, tr, what, std::make_integer_sequence<unsigned, Tr::size()>()); }

struct Written { std::string text; std::vector<int> cellOf; };

struct World {
    AbsMesh a; Mesh m; MW w; std::vector<CellType> ty;
    void load(const AbsMesh& x) {
        a = x; build(m, a); ty = a.type;
#if H_DIM == 3
        for (auto& f : m.getFaces()) f.setCenter({0.5, 0.5, 0.1});
        for (auto& f : m.getCells()) f.setCenter({0.5, 0.25, 0.1});
#endif
    }
    Written write(std::ostream& o) {
        MeshDataContainer<ET, H_DIM> types(m);
        Written r;
        for (int q = 0; q < a.n(H_DIM); q++) {
            types.template getDataByPos<0>()[q] = Native<H_DIM>::of(ty[q]);
            int n = 1;
            if (H_DIM == 3 && ty[q] == C_POLY) { n = 0; for (int f : a.sub[H_DIM][q]) n += a.sub[H_DIM - 1][f].size(); }
            for (int k = 0; k < n; k++) r.cellOf.push_back(q);
        }
        w.writeHeader(o, "the title");
        w.writeToStream(o, m, types);
        return r;
    }
};
static void checkText(mc::Case& c, const std::string& text, const std::vector<int>& cellOf, const std::vector<Want>& want) {
    VtkDoc d = parseVtk(text, true);
    c.check(d.ok, "syntax", "the file with data is malformed: " + d.err + "\n" + text.substr(0, 3000));
    c.equal(d.cells.size(), cellOf.size(), "cells", "cells written");
    c.equal(d.cellData, (long long)cellOf.size(), "count", "number of cells announced for the data");
    c.equal(d.cols.size(), want.size(), "columns", "columns written");
    for (auto& w : want) {
        const VtkDoc::Col* col = nullptr;
        for (auto& x : d.cols) if (x.name == w.name) { c.check(!col, "columns", "column " + w.name + " is written twice"); col = &x; }
        c.check(col, "columns", "column " + w.name + " is missing");
        c.equal(col->kind, w.kind, "kind", "kind of column " + w.name);
        size_t per = w.kind == "SCALARS" ? 1 : w.kind == "VECTORS" ? 3 : 9;
        for (size_t i = 0; i < cellOf.size(); i++) for (size_t k = 0; k < per; k++)
            if (col->v[i * per + k] != w.perCell[cellOf[i]][k]) c.fail("value", "column " + w.name + ": written cell " + std::to_string(i) + " (of cell " + std::to_string(cellOf[i]) + ") holds " + num(col->v[i * per + k]) + " want " + num(w.perCell[cellOf[i]][k]));
    }
}
// an empty mesh container of the size of the written file
static void readMesh(mc::Case& c, std::istream& in, Mesh& m2, size_t cells) {
    VTKMeshReader<H_DIM> r; r.loadFromStream(in, m2);
    c.equal((size_t)m2.getCells().size(), cells, "mesh-back", "cells read back");
}
// write and read with one kind of container
template <class K> void round(mc::Case& c, World& w, int pattern, K&& kind) {
    std::stringstream o; o << std::setprecision(17);
    Written r = w.write(o);
    kind.make(w.m, pattern, std::vector<int>());
    kind.write(o, w.w);
    c.op("write");
    std::vector<Want> want; kind.want(want);
    checkText(c, o.str(), r.cellOf, want);
    // back, from the stream the mesh was read from
    Mesh m2;
    std::istringstream in(o.str());
    readMesh(c, in, m2, r.cellOf.size());
    auto expected = kind; expected.make(m2, pattern, r.cellOf);
    for (int again = 0; again < 2; again++) {
        auto got = kind; got.make(m2, 1 - (pattern & 1), r.cellOf);      // other contents before
        got.read(in);
        got.compare(c, expected, again ? "read again from the same stream" : "read from the stream of the mesh");
        c.op("read");
    }
    std::istringstream in2(o.str());
    auto got = kind; got.make(m2, 1 - (pattern & 1), r.cellOf);
    got.read(in2);
    got.compare(c, expected, "read from a new stream");
    c.op("read");
    uint64_t h = mc::hashStr(o.str());
    c.state(h); c.out(h);
}
// ------------------------------------------------------------------------------------------- kinds
template <class T> struct Plain {
    MeshDataContainer<T, D> k;
    void make(Mesh& m, int p, const std::vector<int>& of) { k = MeshDataContainer<T, D>(); k.allocateData(m); fill(k.template getDataByPos<0>(), DefaultIOTraits<T>::getTraits(), p, 0, of); }
    void want(std::vector<Want>& w) { columns(w, k.template getDataByPos<0>(), DefaultIOTraits<T>::getTraits()); }
    void write(std::ostream& o, MW& w) { DW::writeToStream(o, k, w); }
    void read(std::istream& i) { DR::readFromStream(i, k); }
    void compare(mc::Case& c, const Plain& x, const std::string& s) { ::compare(c, k.template getDataByPos<0>(), x.k.template getDataByPos<0>(), DefaultIOTraits<T>::getTraits(), s); }
};
template <class T> struct Single : Plain<T> {          // one DataContainer
    void write(std::ostream& o, MW& w) { DW::writeToStream(o, this->k.template getDataByPos<0>(), w); }
    void read(std::istream& i) { DR::readFromStream(i, this->k.template getDataByPos<0>()); }
};
static const auto& boundTraits() { static const auto t = makeTraits<Bound>("x", &Bound::x, "z", &Bound::z); return t; }
struct Binder {                                          // bound traits
    MeshDataContainer<Bound, D> k;
    void make(Mesh& m, int p, const std::vector<int>& of) { k = MeshDataContainer<Bound, D>(); k.allocateData(m); fill(k.template getDataByPos<0>(), boundTraits(), p, 0, of); }
    void want(std::vector<Want>& w) { columns(w, k.template getDataByPos<0>(), boundTraits()); }
    virtual void write(std::ostream& o, MW& w) { DW::writeToStream(o, bindTraits(k, boundTraits()), w); }
    virtual void read(std::istream& i) { DR::readFromStream(i, bindTraits(k, boundTraits())); }
    void compare(mc::Case& c, const Binder& x, const std::string& s) { ::compare(c, k.template getDataByPos<0>(), x.k.template getDataByPos<0>(), boundTraits(), s); }
};
struct TupleTraits : Binder {
    void write(std::ostream& o, MW& w) override { DW::writeToStream(o, k, w, std::make_tuple(boundTraits())); }
    void read(std::istream& i) override { DR::readFromStream(i, k, std::make_tuple(boundTraits())); }
};
static const auto& twoTraits() { static const auto t = makeTraits<Two>("only", &Two::velocity); return t; }
struct Override {                                        // bound traits instead of default ones
    MeshDataContainer<Two, D> k;
    void make(Mesh& m, int p, const std::vector<int>& of) { k = MeshDataContainer<Two, D>(); k.allocateData(m); fill(k.template getDataByPos<0>(), twoTraits(), p, 0, of); }
    void want(std::vector<Want>& w) { columns(w, k.template getDataByPos<0>(), twoTraits()); }
    void write(std::ostream& o, MW& w) { DW::writeToStream(o, bindTraits(k, twoTraits()), w); }
    void read(std::istream& i) { DR::readFromStream(i, bindTraits(k, twoTraits())); }
    void compare(mc::Case& c, const Override& x, const std::string& s) { ::compare(c, k.template getDataByPos<0>(), x.k.template getDataByPos<0>(), twoTraits(), s); }
};
template <class K, unsigned P, class T> struct Tup {     // one traited container among others
    K k;
    void make(Mesh& m, int p, const std::vector<int>& of) { k = K(); k.allocateData(m); fill(k.template getDataByPos<P>(), DefaultIOTraits<T>::getTraits(), p, 0, of); }
    void want(std::vector<Want>& w) { columns(w, k.template getDataByPos<P>(), DefaultIOTraits<T>::getTraits()); }
    void write(std::ostream& o, MW& w) { DW::writeToStream(o, k, w); }
    void read(std::istream& i) { DR::readFromStream(i, k); }
    void compare(mc::Case& c, const Tup& x, const std::string& s) { ::compare(c, k.template getDataByPos<P>(), x.k.template getDataByPos<P>(), DefaultIOTraits<T>::getTraits(), s); }
};
template <class A, class B, class C> struct Three {      // several traited containers
    MeshDataContainer<std::tuple<A, int, B, C>, D, D - 1, D, D> k;
    void make(Mesh& m, int p, const std::vector<int>& of) {
        k = decltype(k)(); k.allocateData(m);
        fill(k.template getDataByPos<0>(), DefaultIOTraits<A>::getTraits(), p, 0, of); fill(k.template getDataByPos<2>(), DefaultIOTraits<B>::getTraits(), p, 3, of); fill(k.template getDataByPos<3>(), DefaultIOTraits<C>::getTraits(), p, 6, of);
    }
    void want(std::vector<Want>& w) { columns(w, k.template getDataByPos<0>(), DefaultIOTraits<A>::getTraits()); columns(w, k.template getDataByPos<2>(), DefaultIOTraits<B>::getTraits()); columns(w, k.template getDataByPos<3>(), DefaultIOTraits<C>::getTraits()); }
    void write(std::ostream& o, MW& w) { DW::writeToStream(o, k, w); }
    void read(std::istream& i) { DR::readFromStream(i, k); }
    void compare(mc::Case& c, const Three& x, const std::string& s) {
        ::compare(c, k.template getDataByPos<0>(), x.k.template getDataByPos<0>(), DefaultIOTraits<A>::getTraits(), s);
        ::compare(c, k.template getDataByPos<2>(), x.k.template getDataByPos<2>(), DefaultIOTraits<B>::getTraits(), s);
        ::compare(c, k.template getDataByPos<3>(), x.k.template getDataByPos<3>(), DefaultIOTraits<C>::getTraits(), s);
    }
};
static void anyKind(mc::Case& c, World& w, int kind, int pattern) {
    switch (kind) {
    case 0: round(c, w, pattern, Plain<One>()); break;
    case 1: round(c, w, pattern, Plain<Two>()); break;
    case 2: round(c, w, pattern, Plain<All>()); break;
    case 3: round(c, w, pattern, Single<Two>()); break;
    case 4: round(c, w, pattern, Binder()); break;
    case 5: round(c, w, pattern, TupleTraits()); break;
    case 6: round(c, w, pattern, Override()); break;
    case 7: round(c, w, pattern, Tup<MeshDataContainer<std::tuple<Two, int, double>, D, D - 1, 0>, 0, Two>()); break;
    case 8: round(c, w, pattern, Tup<MeshDataContainer<std::tuple<int, All>, D - 1, D>, 1, All>()); break;
    case 9: round(c, w, pattern, Tup<MeshDataContainer<std::tuple<int, Prefix, char>, 0, D, 1>, 1, Prefix>()); break;
    case 10: round(c, w, pattern, Three<One, Two, Prefix>()); break;
    default: round(c, w, pattern, Plain<Prefix>()); break;
    }
}
const int KINDS = 12;

static bool someMesh(mc::Case& c, AbsMesh& a, bool small) {
#if H_DIM == 2
    int sh = c.choose(small ? 1 : 2);
    std::vector<int> o;
    for (int i = 0; i < 2 * (1 + sh); i++) o.push_back(c.choose(sh == 0 ? 6 : c.run.thorough ? 6 : 3));
    a = grid2D(2, 1 + sh, o, 0);
    return a.n(2) > 0;
#else
    int o1 = c.choose(small ? 6 : 11), o2 = c.choose(small ? 4 : 11);
    return grid3D(2, 1, 1, {o1 + 1, o2 + 1}, 0, true, a) && a.n(3) > 0;
#endif
}
static bool fits(const AbsMesh& a) {
#ifdef H_RES
    static const int res[] = {H_RES};
    for (auto& f : a.sub[H_DIM - 1]) if ((int)f.size() > res[0]) return false;
#endif
    return true;
}
MC_GROUP(g_kinds, "kinds") {       // every kind of container on a few meshes
    int kind = c.choose(KINDS), pattern = c.choose(3);
    AbsMesh a;
    if (!someMesh(c, a, true)) c.skip();
    int n = a.n(H_DIM), split = H_DIM == 3 ? c.choose(4) : 0, enc = c.choose(2) * 4;
    c.go();
    if (!fits(a)) c.skip();
    if (split) for (int q = 0; q < n; q++) if (split == 1 || (split == 2) == (q % 2 == 0)) a.type[q] = C_POLY;
    encode(a, enc);
    World w; w.load(a);
    c.note("kind " + std::to_string(kind) + " pattern " + std::to_string(pattern) + " cells " + std::to_string(n) + " split " + std::to_string(split));
    anyKind(c, w, kind, pattern);
}
static AbsMesh noCells(int vertices) {
    AbsMesh a; a.init(D);
    for (int i = 0; i < vertices; i++) { Coord x{}; x[0] = i; x[1] = i * i; a.X.push_back(x); }
    a.finish();
    return a;
}
MC_GROUP(g_none, "no cells") {
    int kind = c.choose(KINDS), n = c.choose(4);
    c.go();
    World w; w.load(noCells(n));
    c.note("kind " + std::to_string(kind) + ", no cells, vertices " + std::to_string(n));
    anyKind(c, w, kind, 0);
}
#if H_DIM == 3
MC_GROUP(g_split, "split") {       // every subset of split cells
    AbsMesh a;
    if (!someMesh(c, a, false)) c.skip();
    int n = std::min(a.n(3), c.run.thorough ? 12 : 8), mask = c.choose(1 << n);
    c.go();
    if (!fits(a)) c.skip();
    for (int q = 0; q < a.n(3); q++) { if (q < n && (mask >> q & 1)) a.type[q] = C_POLY; else if (q >= n && q % 2) a.type[q] = C_POLY; }
    World w; w.load(a);
    c.note("cells " + std::to_string(a.n(3)) + " split mask " + std::to_string(mask));
    anyKind(c, w, 1, 0);
}
#else
MC_GROUP(g_grid, "grid") {
    AbsMesh a;
    if (!someMesh(c, a, false)) c.skip();
    int enc = c.choose(N_ENC), kind = c.choose(2);
    c.go();
    encode(a, enc);
    World w; w.load(a);
    anyKind(c, w, kind + 1, 0);
}
#endif
MC_GROUP(g_large, "large") {       // hundreds of cells
    auto ns = sizes::upTo(c.run.thorough ? 1100 : 300);
    int n = (int)ns[c.choose((int)ns.size())], kind = c.choose(KINDS), where = H_DIM == 2 ? 0 : c.choose(4);   // which cells are split
    c.go();
    if (n < 30) c.skip();
    AbsMesh a;
    std::vector<int> o; for (int i = 0; i < n; i++) o.push_back(H_DIM == 2 ? i % 6 : i % 5 ? 1 : i % 3 ? 0 : 11);
#if H_DIM == 2
    a = grid2D(n, 1, o, 0);
#else
    if (where) for (auto& k : o) if (k == 11) k = 1;
    if (!grid3D(n, 1, 1, o, 0, true, a)) c.skip();
    for (int q = 0; q < a.n(3); q++) if (where == 0 ? (q + n) % 3 == 0 : where == 1 ? q == a.n(3) - 1 : where == 2 ? q == 0 : q == a.n(3) - 3 || q == a.n(3) - 1) a.type[q] = C_POLY;
#endif
    if (!fits(a)) c.skip();
    encode(a, n % 2 * 4);
    World w; w.load(a);
    c.note(std::to_string(a.n(H_DIM)) + " cells");
    anyKind(c, w, kind, n % 3);
}
MC_GROUP(g_history, "history") {   // several files written with one writer: other types, other mesh, other data
    std::vector<int> ops;
    int depth = c.run.thorough ? 4 : 3;
    for (int i = 0; i < depth; i++) { ops.push_back(c.choose(7)); }
    c.go();
    World w;
    auto mesh = [&](int k) {
        AbsMesh a;
#if H_DIM == 2
        a = grid2D(2, 1, {k == 0 ? 0 : 1, 2}, 0);
#else
        if (!grid3D(2, 1, 1, {k == 0 ? 1 : 2, 3}, 0, true, a)) c.skip();
#endif
        w.m.clear(); w.load(a);
    };
    mesh(0);
    if (!fits(w.a)) c.skip();
    int pattern = 0;
    for (int o : ops) {
        if (o == 6) { w.m.clear(); w.load(noCells(2)); }
        else if (o < 2) { mesh(o); if (!fits(w.a)) c.skip(); }
        else if (o == 2) for (auto& t : w.ty) t = H_DIM == 3 ? C_POLY : C_POLYGON;
        else if (o == 3) w.ty = w.a.type;
        else if (o == 4 && !w.ty.empty()) w.ty[0] = H_DIM == 3 ? C_POLY : C_POLYGON;
        else pattern = (pattern + 1) % 3;
        w.m.updateSignature();
        c.note("op " + std::to_string(o));
        round(c, w, pattern, Plain<Two>());
    }
}
// columns in any order, others in between, any white space, are found by their names
MC_GROUP(g_foreign, "foreign files") {
    int order = c.choose(6), extra = c.choose(4), nl = c.choose(3), cells = 1 + c.choose(3), where = c.choose(2), words = c.choose(5);
    c.go();
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    std::ostringstream o; o << std::setprecision(17);
    // titles and names that look like the beginning of a column
    static const char* titles[] = {"title", "VECTORS of forces", "SCALARS p double", "my TENSORS p double", "pressure VECTORS"};
    static const char* names[] = {"q", "SCALARS", "aVECTORS", "p_TENSORS", "SCALARSp"};
    const char* q_ = names[words];
    o << "# vtk DataFile Version 2.0\n" << titles[words] << "\nASCII\nDATASET UNSTRUCTURED_GRID\n\n";
    o << "CELL_DATA " << cells << "\n";
    const char* sep = nl == 0 ? " " : nl == 1 ? "\n" : "  \t";
    std::vector<Prefix> want(cells);
    for (int q = 0; q < cells; q++) { want[q].p = num13(1, q, 0, 0); want[q].pp = num13(1, q, 1, 0); for (unsigned k = 0; k < D; k++) want[q].pv[k] = num13(1, q, 2, k + 1); }
    auto other = [&](int n) {
        if (n == 1) { o << "SCALARS " << q_ << " double 1\nLOOKUP_TABLE default\n"; for (int q = 0; q < cells; q++) o << 77 << sep; o << "\n"; }
        if (n == 2) { o << "VECTORS " << q_ << " double\n"; for (int q = 0; q < 3 * cells; q++) o << 78 << sep; o << "\n"; }
        if (n == 3) { o << "TENSORS " << q_ << " double\n"; for (int q = 0; q < 9 * cells; q++) o << 79 << sep; o << "\n"; }
    };
    if (where == 0) other(extra);
    for (int i = 0; i < 3; i++) {
        int k = perm[order][i];
        if (k == 0) { o << "SCALARS p double 1\nLOOKUP_TABLE default\n"; for (auto& w : want) o << w.p << sep; }
        if (k == 1) { o << "VECTORS pv double\n"; for (auto& w : want) for (unsigned j = 0; j < 3; j++) o << (j < D ? w.pv[j] : 0.0) << sep; }
        if (k == 2) { o << "SCALARS pp double 1\nLOOKUP_TABLE default\n"; for (auto& w : want) o << w.pp << sep; }
        o << "\n";
        if (where == 1 && i == 0) other(extra);
    }
    std::istringstream in(o.str());
    MeshDataContainer<Prefix, D> k; k.template getDataByPos<0>().resize(cells);
    DR::readFromStream(in, k);
    c.op("read");
    for (int q = 0; q < cells; q++) {
        auto& g = k.template getDataByPos<0>()[q];
        c.check(g.p == want[q].p && g.pp == want[q].pp && g.pv == want[q].pv, "foreign", "cell " + std::to_string(q) + " of\n" + o.str());
    }
    c.state(mc::hashStr(o.str()));
}
// the data of the points of the mesh, of the same names, are not those of the cells
MC_GROUP(g_points, "point data") {
    int cells = 1 + c.choose(3), points = 1 + c.choose(5), before = c.choose(5), after = c.choose(5), inCells = c.choose(8), nl = c.choose(2);
    c.go();
    std::ostringstream o; o << std::setprecision(17);
    o << "# vtk DataFile Version 2.0\nPOINT_DATA 3\nASCII\nDATASET UNSTRUCTURED_GRID\n\n";
    const char* sep = nl ? "\n" : " ";
    std::vector<Prefix> want(cells);
    for (int q = 0; q < cells; q++) { want[q].p = num13(1, q, 0, 0); want[q].pp = num13(1, q, 1, 0); for (unsigned k = 0; k < D; k++) want[q].pv[k] = num13(1, q, 2, k + 1); }
    auto scalars = [&](const char* name, int n, double x) { o << "SCALARS " << name << " double 1\nLOOKUP_TABLE default\n"; for (int i = 0; i < n; i++) o << x + i << sep; o << "\n"; };
    auto vectors = [&](const char* name, int n, double x) { o << "VECTORS " << name << " double\n"; for (int i = 0; i < 3 * n; i++) o << x + i << sep; o << "\n"; };
    auto section = [&](int n) {                  // which of the columns the points have
        if (!n) return;
        o << "POINT_DATA " << points << "\n";
        if (n == 1 || n == 3) scalars("p", points, 500);
        if (n == 2 || n == 3) vectors("pv", points, 600);
        if (n == 3) scalars("pp", points, 700);
        if (n == 4) { vectors("p", points, 800); scalars("pv", points, 900); scalars("pp", points, 1000); }
    };
    section(before);
    o << "CELL_DATA " << cells << "\n";
    if (inCells & 1) { o << "SCALARS p double 1\nLOOKUP_TABLE default\n"; for (auto& w : want) o << w.p << sep; o << "\n"; }
    if (inCells & 2) { o << "VECTORS pv double\n"; for (auto& w : want) for (unsigned j = 0; j < 3; j++) o << (j < D ? w.pv[j] : 0.0) << sep; o << "\n"; }
    if (inCells & 4) { o << "SCALARS pp double 1\nLOOKUP_TABLE default\n"; for (auto& w : want) o << w.pp << sep; o << "\n"; }
    section(after);
    c.note(o.str());
    std::istringstream in(o.str());
    MeshDataContainer<Prefix, D> k; k.template getDataByPos<0>().resize(cells);
    bool thrown = false;
    try { DR::readFromStream(in, k); } catch (std::runtime_error&) { thrown = true; }
    c.op("read");
    c.check(thrown == (inCells != 7), "point data", inCells == 7 ? "the data of the cells are refused" : "columns that only the points have were read for the cells");
    if (!thrown) for (int q = 0; q < cells; q++) {
        auto& g = k.template getDataByPos<0>()[q];
        c.check(g.p == want[q].p && g.pp == want[q].pp && g.pv == want[q].pv, "point data", "cell " + std::to_string(q) + " of\n" + o.str());
    }
    c.state(mc::hashStr(o.str())); c.out(thrown);
}
MC_MAIN
