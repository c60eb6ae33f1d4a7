// Operations on meshes for conc.cpp.
#pragma once
#include "io.h"
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h>
using namespace mg;
constexpr unsigned D = H_DIM;
#ifdef H_RES
using Mesh = UnstructuredMesh<D, size_t, double, H_RES>;
#else
using Mesh = UnstructuredMesh<D, size_t, double>;
#endif
#if H_DIM <= 3
using ET = typename MeshNativeType<D>::ElementType;
using MW = VTKMeshWriter<D, size_t, double>;
using DW = VTKMeshDataWriter<D>;
using DR = VTKMeshDataReader<D, size_t>;
#else
using ET = int;
#endif

struct CellData {
    int density = 0; Vector<D, double> velocity{}; double pr = 0;
    double getP() const { userTick(); return pr; }
    void setP(const double& x) { userTick(); pr = x; }
};
MAKE_CUSTOM_TRAIT(CellData, "density", &CellData::density, "velocity", &CellData::velocity, "pressure", std::make_pair(&CellData::getP, &CellData::setP));

struct World {
    AbsMesh a;
    Mesh m;
    MeshDataContainer<ET, D> types;
    MeshDataContainer<CellData, D> data;
    MeshDataContainer<std::tuple<double, int, Vector<2, double>>, D, D - 1, 0> mixed;
    std::string vtk, fpma, dataText;
    MakeMeshDataContainer_t<Vertex<D, double>, make_custom_integer_sequence_t<unsigned int, 1, D>> centers;
};
static std::vector<std::vector<int>> loopsOf(const AbsMesh& a) { std::vector<std::vector<int>> r; for (auto& f : a.sub[D - 1]) r.push_back(loopOf(a, f)); return r; }
#if H_DIM <= 3
static std::string writeVtk(Mesh& m, const MeshDataContainer<ET, D>& types, const MeshDataContainer<CellData, D>* data, std::ostream& o) {
    MW w;
    w.writeHeader(o, "a title");
    w.writeToStream(o, m, types);
    if (data) { auto own = *data; DW::writeToStream(o, own, w); }
    std::string s;
#if H_DIM == 3
    for (auto& kv : w.backwardCellIndexMapping) s += std::to_string(kv.first) + ":" + std::to_string(kv.second) + ",";
#endif
    return s + std::to_string(w.getNumberOfCells());
}
#endif
static World makeWorld(const AbsMesh& a, int seed) {
    World w;
    w.a = a;
    build(w.m, a);
    w.m.initializeCenters();
    w.centers = computeCenters<METHOD_DEFAULT>(w.m);
    w.types.allocateData(w.m);
#if H_DIM <= 3
    for (int q = 0; q < a.n(D); q++) w.types.template getDataByPos<0>()[q] = Native<D>::of(a.type[q]);
#endif
    w.data.allocateData(w.m);
    int k = seed;
    for (auto& d : w.data.template getDataByPos<0>()) { d.density = k++; for (unsigned i = 0; i < D; i++) d.velocity[i] = k + 0.25 * i; d.pr = k / 3.0; }
    w.mixed.allocateData(w.m);
    for (auto& d : w.mixed.template getDataByPos<0>()) d = k++ * 0.5;
    for (auto& d : w.mixed.template getDataByPos<1>()) d = k++;
    for (auto& d : w.mixed.template getDataByPos<2>()) d = Vector<2, double>{k++ * 1.0, k * 0.125};
#if H_DIM <= 3
    AbsMesh plain;                          // for the texts: cells with a VTK type only
#if H_DIM == 2
    plain = grid2D(2, 1, {seed % 4, (seed + 1) % 4}, 1);
#else
    grid3D(2, 1, 1, {seed % 3, (seed + 1) % 3}, 1, false, plain);
    w.fpma = fpmaText(a, loopsOf(a));
#endif
    w.vtk = vtkText(plain);
    std::ostringstream o;
    Mesh pm; build(pm, plain); pm.initializeCenters();
    MeshDataContainer<ET, D> ty(pm);
    for (int q = 0; q < plain.n(D); q++) ty.template getDataByPos<0>()[q] = Native<D>::of(plain.type[q]);
    MeshDataContainer<CellData, D> cd(pm);
    for (auto& d : cd.template getDataByPos<0>()) { d.density = k++; d.pr = k * 0.5; }
    writeVtk(pm, ty, &cd, o);
    w.dataText = o.str();
#endif
    return w;
}
static std::vector<World>& worlds() {
    static std::vector<World> w;
    if (w.empty()) {
#if H_DIM == 2
        w.push_back(makeWorld(grid2D(2, 1, {0, 2}, 1), 1));
        w.push_back(makeWorld(grid2D(2, 2, {1, 4, 3, 0}, 2), 2));
#elif H_DIM == 4
        w.push_back(makeWorld(cubical(4, {1, 1, 1, 1}, {1}), 1));
        w.push_back(makeWorld(cubical(4, {2, 1, 1, 1}, {1, 1}), 2));
#else
        AbsMesh a, b;
        grid3D(1, 1, 1, {3}, 1, true, a);
        grid3D(2, 1, 1, {1, 11}, 2, true, b);
        w.push_back(makeWorld(a, 1));
        w.push_back(makeWorld(b, 2));
#endif
        w.push_back(makeWorld(w[0].a, 5));      // the same mesh in another object
    }
    return w;
}

// ---- text of results ---------------------------------------------------------------------------------
template <class T> typename std::enable_if<std::is_arithmetic<T>::value>::type show(std::ostream& o, const T& v) { o << v << ","; }
template <unsigned N, class R> void show(std::ostream& o, const Vertex<N, R>& v) { for (unsigned i = 0; i < N; i++) o << v[i] << (i + 1 < N ? ":" : ","); }
template <unsigned d, class I> void show(std::ostream& o, const ElementIndex<d, I>& v) { o << I(v) << ","; }
template <class T> void show(std::ostream& o, const std::vector<T>& v);
template <class T, unsigned... Ds> void show(std::ostream& o, const MeshDataContainer<T, Ds...>& c);
inline void show(std::ostream& o, const std::vector<bool>& v) { for (bool b : v) o << b; o << "/"; }
inline void show(std::ostream& o, const CellData& c) { o << c.density << "!" << c.pr << "!"; show(o, c.velocity); }
template <class T> void show(std::ostream& o, const std::vector<T>& v) { for (auto& x : v) show(o, x); o << "/"; }
template <size_t k, size_t N> struct ShowAll { template <class C> static void run(std::ostream& o, const C& c) { show(o, c.template getDataByPos<k>()); ShowAll<k + 1, N>::run(o, c); } };
template <size_t N> struct ShowAll<N, N> { template <class C> static void run(std::ostream&, const C&) {} };
template <class T, unsigned... Ds> void show(std::ostream& o, const MeshDataContainer<T, Ds...>& c) { ShowAll<0, sizeof...(Ds)>::run(o, c); }
static void showMesh(std::ostream& o, const Mesh& m) {
    for (auto& v : m.getVertices()) { o << "v" << v.getIndex(); show(o, v); }
    for (auto& e : m.getEdges()) o << "e" << e.getIndex() << "," << e.getVertexAIndex() << "," << e.getVertexBIndex();
    for (auto& f : m.getFaces()) { o << "f" << f.getIndex() << "," << f.getNextBElemWRTCL() << "," << f.getNextBElemWRTCR() << "," << f.getCellLeftIndex() << "," << f.getCellRightIndex() << ","; show(o, f.getCenter()); }
    for (auto& c : m.getCells()) { o << "c" << c.getIndex() << "," << c.getBoundaryElementIndex() << ","; show(o, c.getCenter()); }
    for (auto& c : m.getBoundaryCells()) { o << "b" << c.getIndex() << ","; show(o, c.getCenter()); }
}
struct Text : std::ostringstream { Text() { precision(17); } };

// ---- operations --------------------------------------------------------------------------------------
static std::string opCenters(const World& w, Env&) { Text o; show(o, computeCenters<METHOD_DEFAULT>(w.m)); show(o, computeCenters<METHOD_TESSELLATED>(w.m)); return o.str(); }
template <unsigned d> static typename std::enable_if<(d > 3)>::type ofCenters(std::ostream& o, const World& w) {
    show(o, computeMeasures<METHOD_DEFAULT>(w.centers, w.m)); show(o, computeFaceNormals<METHOD_DEFAULT>(w.centers, w.m)); show(o, computeFaceNormals<METHOD_TESSELLATED>(w.centers, w.m));
}
template <unsigned d> static typename std::enable_if<(d <= 3)>::type ofCenters(std::ostream&, const World&) {}
static std::string opMeasures(const World& w, Env&) { Text o; show(o, w.m.computeElementMeasures()); show(o, w.m.template computeElementMeasures<METHOD_TESSELLATED>()); ofCenters<D>(o, w); return o.str(); }
static std::string opNormals(const World& w, Env&) { Text o; show(o, w.m.computeFaceNormals()); show(o, w.m.template computeFaceNormals<METHOD_TESSELLATED>()); return o.str(); }
static std::string opDistance(const World& w, Env&) { Text o; show(o, computeCellsDistance(w.m)); show(o, computeCellsCenterDifference(w.m)); return o.str(); }
static std::string opConnections(const World& w, Env&) {
    Text o;
    show(o, w.m.template connections<D, 0>()); show(o, w.m.template connections<0, D>()); show(o, w.m.template connections<D - 1, D>()); show(o, w.m.template connections<D, D - 1>());
    show(o, w.m.template connections<D, 0, ORDER_ORIGINAL>()); show(o, w.m.template connections<0, 1>()); show(o, w.m.template connections<D, D>());
    show(o, w.m.template connections<0, D, ORDER_ORIGINAL>()); show(o, w.m.template connections<D - 1, D, ORDER_ORIGINAL>()); show(o, w.m.template connections<1, 0, ORDER_ORIGINAL>());
    return o.str();
}
static std::string opNeighborhood(const World& w, Env&) {
    Text o;
    show(o, w.m.template neighborhood<D, D - 1>()); show(o, w.m.template neighborhood<D, 0>()); show(o, w.m.template neighborhood<D - 1, D, 0>()); show(o, w.m.template neighborhood<0, 1, 0, ORDER_ORIGINAL>());
    show(o, w.m.template neighborhood<D, D - 1, D, ORDER_ORIGINAL>()); show(o, w.m.template neighborhood<D, 0, D - 1, ORDER_ORIGINAL>()); show(o, w.m.template neighborhood<0, D>()); show(o, w.m.template neighborhood<1, D, 0>());
    return o.str();
}
static std::string opColoring(const World& w, Env&) { Text o; show(o, w.m.template coloring<D, D - 1>()); show(o, w.m.template coloring<0, D>()); show(o, w.m.template coloring<D - 1, 0>()); show(o, w.m.template coloring<1, D>()); return o.str(); }
static std::string opRandomColoring(const World& w, Env&) { Text o; show(o, w.m.template coloring<D, 0, METHOD_RANDOM>()); show(o, w.m.template coloring<D - 1, D, METHOD_RANDOM>(7)); return o.str(); }
template <unsigned A, unsigned B> static typename std::enable_if<(A < B)>::type ofOne(std::ostream&, const World&, Env&) {}
template <unsigned A, unsigned B> static typename std::enable_if<(A >= B)>::type ofOne(std::ostream& o, const World& w, Env& e) {
    w.m.template apply<A, B>(0, [&](size_t i, size_t j) { e.tick(); o << i << "-" << j << ","; });
}
template <unsigned A, unsigned B> static void applyText(std::ostream& o, const World& w, Env& e) {
    w.m.template apply<A, B>([&](size_t i, size_t j) { e.tick(); o << i << ">" << j << ","; });
    ofOne<A, B>(o, w, e);
}
static std::string opApplyDown(const World& w, Env& e) { Text o; applyText<D, D - 1>(o, w, e); applyText<D, 0>(o, w, e); applyText<D, 1>(o, w, e); return o.str(); }
static std::string opApplyUp(const World& w, Env& e) { Text o; applyText<0, D>(o, w, e); applyText<D - 1, D>(o, w, e); applyText<1, D>(o, w, e); return o.str(); }
static std::string opCopy(const World& w, Env&) {
    Mesh m(w.m), n;
    n = m;
    n.setupBoundaryCells(); n.setupBoundaryCellsCenters();
    Text o;
    showMesh(o, m); o << m.updateSignature() << " "; showMesh(o, n); o << n.updateSignature();
    return o.str();
}
static std::string opInitCenters(const World& w, Env&) { Mesh m(w.m); m.template initializeCenters<METHOD_TESSELLATED>(); Text o; showMesh(o, m); m.initializeCenters(w.centers); m.setupBoundaryCells(); m.setupBoundaryCellsCenters(); showMesh(o, m); return o.str(); }
#if H_DIM <= 3
static std::string opWriteVtk(const World& w, Env& e) { Mesh m(w.m); Out o(e); std::string s = writeVtk(m, w.types, nullptr, o); return o.str() + s; }
static std::string opWriteData(const World& w, Env& e) { Mesh m(w.m); Out o(e); std::string s = writeVtk(m, w.types, &w.data, o); return o.str() + s; }
static std::string opReadVtk(const World& w, Env& e) {
    Mesh m; VTKMeshReader<D> r; In in(e, w.vtk);
    r.loadFromStream(in, m);
    Text o; showMesh(o, m);
    auto t = r.getCellTypes();
    for (auto x : t.template getDataByPos<0>()) o << (int)x << ",";
    return o.str();
}
static std::string opReadData(const World& w, Env& e) {
    Mesh m; VTKMeshReader<D> r; In in(e, w.dataText, 64);
    r.loadFromStream(in, m);
    MeshDataContainer<CellData, D> d(m);
    DR::readFromStream(in, d);
    Text o; show(o, d.template getDataByPos<0>());
    return o.str();
}
#endif
static std::string opData(const World& w, Env&) {
    auto x = w.mixed;
    MeshDataContainer<CellData, D> y(w.m);
    y = w.data;
    MeshDataContainer<double, D, D - 1> z(w.m, 1.5), v;
    v.allocateData(z); v = z;
    for (auto& c : w.m.getCells()) { z[c] += w.mixed[c]; y[c].density += 1; }
    for (auto& f : w.m.getFaces()) z[f] *= w.mixed[f];
    Text o;
    show(o, x); show(o, y); show(o, z); show(o, v);
    return o.str();
}
#if H_DIM <= 3
static std::string opFiles(const World& w, Env& e) {
    std::string n = "conc" + std::to_string(e.tid) + ".vtk";
    Mesh m(w.m), m2;
    m.write(n, w.types, "title");
    std::string t = slurp(n);
    { std::ofstream f(n); f << w.vtk; }
    auto r = m2.load(n);
    Text o; showMesh(o, m2); o << t;
    std::remove(n.c_str());
    return o.str();
}
#endif
#if H_DIM == 3
static std::string opOrientation(const World& w, Env&) { Mesh m(w.m); Text o; show(o, edgesOrientation(m)); for (auto& f : m.getFaces()) for (auto s : f.getSubelements()) o << edgeIsLeft(m, f.getIndex(), s); return o.str(); }
static std::string opWriteFpma(const World& w, Env& e) { Mesh m(w.m); Out o(e); FPMAMeshWriter<3, size_t, double> f; f.writeToStream(o, m); return o.str(); }
static std::string opReadFpma(const World& w, Env& e) {
    Mesh m; FPMAMeshReader<3> r; In in(e, w.fpma);
    r.loadFromStream(in, m);
    Text o; showMesh(o, m);
    return o.str();
}
#endif
static const Op OPS[] = {
    {"computeCenters", opCenters}, {"computeElementMeasures", opMeasures}, {"computeFaceNormals", opNormals}, {"computeCellsDistance", opDistance}, {"connections", opConnections},
    {"neighborhood", opNeighborhood}, {"coloring", opColoring}, {"random coloring", opRandomColoring}, {"apply to smaller elements", opApplyDown}, {"apply to larger elements", opApplyUp},
    {"copying a mesh", opCopy}, {"initializeCenters", opInitCenters},
#if H_DIM <= 3
    {"writing VTK", opWriteVtk}, {"writing data", opWriteData}, {"reading VTK", opReadVtk}, {"reading data", opReadData}, {"files", opFiles},
#endif
    {"data containers", opData},
#if H_DIM == 3
    {"edgesOrientation", opOrientation}, {"writing FPMA", opWriteFpma}, {"reading FPMA", opReadFpma},
#endif
};
