// M05: FPMA files written and read (3D).  M06: VTK files written (2D, 3D), tessellation of general polyhedra.
//   -DH_PROP=5|6 -DH_DIM=2|3 -DH_RES=... -DH_IDX=...
#include "io.h"
#include "sizes.h"
using namespace mg;
#ifndef H_IDX
#define H_IDX size_t
#endif
#ifdef H_RES
using Mesh = UnstructuredMesh<H_DIM, H_IDX, double, H_RES>;
#else
using Mesh = UnstructuredMesh<H_DIM, H_IDX, double>;
#endif

static void scaleMesh(AbsMesh& a, double s) { for (auto& x : a.X) for (auto& v : x) v *= s; }
static bool near(double a, double b, double scale) { return std::fabs(a - b) <= 1e-11 * scale; }

// the first cells of a mesh, also none; parts: 0 all vertices, edges and faces stay, 1 without faces, 2 without edges, 3 a few vertices only
static AbsMesh partOf(AbsMesh a, int cells, int parts) {
    a.sub[a.D].resize(cells); a.type.resize(cells); if ((int)a.cellVerts.size() > cells) a.cellVerts.resize(cells);
    if (!cells) {
        for (int d = a.D - 1; d >= 1; d--) if (parts >= (d == 1 ? a.D - 2 : a.D - d)) a.sub[d].clear();   // edges alone are in no file
        if (parts == 3) a.X.resize(2);
        if (parts == 4) a.X.clear();
    }
    a.finish();
    return a;
}
#if H_DIM == 3
static std::vector<std::vector<int>> loops(const AbsMesh& a) { std::vector<std::vector<int>> r; for (auto& f : a.sub[2]) r.push_back(loopOf(a, f)); return r; }
static FaceKey loopKey(const std::vector<long long>& l) { FaceKey k; for (size_t i = 0; i < l.size(); i++) k.insert(std::minmax((int)l[i], (int)l[(i + 1) % l.size()])); return k; }
static FaceKey faceKey(const AbsMesh& a, int f) { FaceKey k; for (int e : a.sub[2][f]) k.insert(edgeKey(a, e)); return k; }
static std::set<int> vertsOf(const FaceKey& k) { std::set<int> s; for (auto& e : k) { s.insert(e.first); s.insert(e.second); } return s; }
static void maybeSkipReserve(mc::Case& c, const AbsMesh& a) {
#ifdef H_RES
    static const int res[] = {H_RES};
    for (auto& f : a.sub[2]) if ((int)f.size() > res[0]) c.skip();
#endif
}

#if H_DIM == 3
static AbsMesh prism(int n) {
    std::vector<Coord> X(2 * n, Coord{});
    for (int i = 0; i < n; i++) for (int z = 0; z < 2; z++) { X[i + z * n][0] = cos(2 * M_PI * i / n); X[i + z * n][1] = sin(2 * M_PI * i / n); X[i + z * n][2] = z; }
    CellDesc p{C_POLY, {{}, {}}, {}};
    for (int i = 0; i < n; i++) { p.loops[0].push_back(i); p.loops[1].push_back(i + n); }
    for (int i = 0; i < n; i++) p.loops.push_back({i, (i + 1) % n, (i + 1) % n + n, i + n});
    AbsMesh a = from3D(X, {p}); a.finish();
    return a;
}
#endif
// ---------------------------------------------------------------------------------------------- M05
static void fpmaRound(mc::Case& c, const AbsMesh& a) {
    Mesh m; build(m, a);
    FPMAMeshWriter<3, H_IDX, double> w;
    std::ostringstream o; o << std::setprecision(17);
    w.writeToStream(o, m);
    c.op(); c.state(a.digest());
    FpmaDoc d = parseFpma(o.str());
    c.check(d.ok, "fpma-syntax", "the written FPMA file is malformed: " + d.err + "\n" + o.str().substr(0, 800));
    c.equal(d.P.size(), (size_t)a.n(0), "fpma-vertices", "vertices written");
    for (int i = 0; i < a.n(0); i++) for (int k = 0; k < 3; k++) c.equal(d.P[i][k], a.X[i][k], "fpma-coordinate", "coordinate of vertex " + std::to_string(i));
    c.equal(d.faces.size(), (size_t)a.n(2), "fpma-faces", "faces written");
    for (int f = 0; f < a.n(2); f++) {
        FaceKey g = loopKey(d.faces[f]), wt = faceKey(a, f);
        if (g != wt || d.faces[f].size() != a.sub[2][f].size()) { std::string s; for (auto v : d.faces[f]) s += std::to_string(v) + ","; c.fail("fpma-face", "face " + std::to_string(f) + " is written as the vertex loop " + s + " which is not its outline, mesh " + a.full()); }
    }
    c.equal(d.cells.size(), (size_t)a.n(3), "fpma-cells", "cells written");
    for (int q = 0; q < a.n(3); q++) { std::vector<int> g(d.cells[q].begin(), d.cells[q].end()); if (g != a.sub[3][q]) c.fail("fpma-cell", "cell " + std::to_string(q) + " is written with faces " + strOf(g) + " want " + strOf(a.sub[3][q])); }
    // back
    Mesh m2; FPMAMeshReader<3> r; std::istringstream in(o.str());
    r.loadFromStream(in, m2);
    c.op();
    compareComplex(c, m2, a, "FPMA round trip", true);
    auto t = r.getCellTypes();
    c.equal(t.template getDataByPos<0>().size(), (size_t)a.n(3), "fpma-types", "number of cell types");
    for (auto& x : t.template getDataByPos<0>()) c.equal((int)x, (int)MeshNativeType<3>::POLYHEDRON, "fpma-type", "type of a cell read from FPMA");
    // and once more: writing what was read reproduces the file
    FPMAMeshWriter<3, H_IDX, double> w2;
    std::ostringstream o2; o2 << std::setprecision(17);
    w2.writeToStream(o2, m2);
    FpmaDoc d2 = parseFpma(o2.str());
    bool same = d2.ok && d2.P == d.P && d2.cells == d.cells && d2.faces.size() == d.faces.size();
    if (same) for (size_t f = 0; f < d.faces.size(); f++) same = same && loopKey(d.faces[f]) == loopKey(d2.faces[f]) && d.faces[f].size() == d2.faces[f].size();
    c.check(same, "fpma-second", "writing the mesh that was read gives a different mesh");
}
#if H_PROP == 5
MC_GROUP(g_grid, "grid") {
    bool t = c.run.thorough;
    int sh = c.choose(2), nx = sh == 0 ? 2 : 3, no = sh == 0 ? 12 : t ? 12 : 5;
    std::vector<int> o;
    for (int i = 0; i < nx; i++) o.push_back(c.choose(no));
    int enc = c.choose(sh == 0 || t ? N_ENC : 2);
    c.go();
    AbsMesh a;
    if (!grid3D(nx, 1, 1, o, 2, true, a) || !a.n(3)) c.skip();
    maybeSkipReserve(c, a);
    encode(a, enc);
    for (int v : o) c.note(std::to_string(v));
    fpmaRound(c, a);
}
MC_GROUP(g_part, "parts of meshes") {
    int o1 = c.choose(12), cells = c.choose(3), parts = c.choose(5), enc = c.choose(2);
    c.go();
    AbsMesh a;
    if (!grid3D(2, 1, 1, {o1, 3}, 2, true, a) || cells > a.n(3) || (cells && parts)) c.skip();
    maybeSkipReserve(c, a);
    a = partOf(a, cells, parts); if (cells) encode(a, enc * 5);
    c.note(a.str());
    fpmaRound(c, a);
}
MC_GROUP(g_read, "read") {          // files of other programs: any rotation and direction of the loops, any white space
    int o1 = c.choose(12), o2 = c.choose(12), rot = c.choose(4), rev = c.choose(3), style = c.choose(3), enc = c.choose(c.run.thorough ? N_ENC : 2) * (c.run.thorough ? 1 : 4);
    c.go();
    AbsMesh a;
    if (!grid3D(2, 1, 1, {o1, o2}, 2, true, a) || !a.n(3)) c.skip();
    maybeSkipReserve(c, a);
    encode(a, enc);
    auto l = loops(a);
    for (size_t f = 0; f < l.size(); f++) { std::rotate(l[f].begin(), l[f].begin() + (rot * (f + 1)) % l[f].size(), l[f].end()); if (rev == 1 || (rev == 2 && f % 2)) std::reverse(l[f].begin(), l[f].end()); }
    Mesh m; FPMAMeshReader<3> r; std::istringstream in(fpmaText(a, l, style));
    r.loadFromStream(in, m);
    c.op(); c.state(mc::hashStr(fpmaText(a, l, style)));
    c.note(std::to_string(o1) + "," + std::to_string(o2) + " rot " + std::to_string(rot));
    compareComplex(c, m, a, "reading FPMA", true);
}
MC_GROUP(g_prism, "prism") {
    int n = 3 + c.choose(c.run.thorough ? 30 : 12), enc = c.choose(N_ENC);
    c.go();
    AbsMesh a = prism(n);
    maybeSkipReserve(c, a);
    encode(a, enc);
    c.note("prism " + std::to_string(n));
    fpmaRound(c, a);
}
MC_GROUP(g_prismL, "large prism") {
    auto ns = sizes::upTo(c.run.thorough ? 4200 : 600);
    int n = (int)ns[c.choose((int)ns.size())], enc = c.choose(2) * 5;
    c.go();
    if (n < 12) c.skip();
    AbsMesh a = prism(n);
    maybeSkipReserve(c, a);
    encode(a, enc);
    a.prepare();
    c.note("prism " + std::to_string(n));
    fpmaRound(c, a);
}
// edges between vertices far apart, and more vertices, edges and faces than 16 bits number
MC_GROUP(g_far, "far vertices") {
    static const int Ms[] = {100, 256, 1000, 1024, 4096, 10000, 32768, 65535, 65536, 100000, 131072};
    int k = c.choose(12);
    c.go();
    std::vector<std::vector<int>> cv;
    int unique;
    if (k == 11) { unique = 80000; for (int t = 0; t < 20000; t++) cv.push_back({4 * t, 4 * t + 1, 4 * t + 2, 4 * t + 3}); }
    else {
        int M = Ms[k]; unique = 7 * M + 100;
        std::set<std::pair<int, int>> seen;
        auto cell = [&](int a, int b) { if (a == b || !seen.insert(std::minmax(a, b)).second) return; cv.push_back({a, b, unique, unique + 1}); unique += 2; };
        for (int a = 0; a < 4; a++) for (int j = 0; j < 3; j++) { cell(a, 5 + M * j); cell(a + M, 5 + M * j); cell(a + 2 * M, 5 + M * j); cell(0, M * (a + 3) + 5 + j); cell(1, M * (a + 3) + 5 + j); }
    }
    std::vector<Coord> X(unique, Coord{});
    for (int i = 0; i < unique; i++) { X[i][0] = i; X[i][1] = double(i % 1000) * i; X[i][2] = double(i % 7) * i; }
    AbsMesh a = simplicial(3, X, cv);
    a.prepare();
    c.note("vertices apart, kind " + std::to_string(k));
    fpmaRound(c, a);
}
MC_GROUP(g_keys, "keys") {        // two cells whose edges a careless key would merge
    static const auto ks = collidingEdges(c.run.thorough ? 1000 : 135, c.run.thorough);
    auto e = ks[c.choose((int)ks.size())];
    c.go();
    int n;
    auto cv = cellsWithEdges(3, e, n);
    std::vector<Coord> X(n, Coord{});
    for (int i = 0; i < n; i++) { X[i][0] = i; X[i][1] = double(i) * i; X[i][2] = double(i % 7) * i; }
    AbsMesh a = simplicial(3, X, cv);
    c.note("edges " + std::to_string(e[0]) + "-" + std::to_string(e[1]) + " and " + std::to_string(e[2]) + "-" + std::to_string(e[3]));
    fpmaRound(c, a);
}
MC_GROUP(g_wide, "wide") {
    int n = 4, enc = c.choose(N_ENC);
    c.go();
    std::vector<int> o(n * n * 3, 1); for (size_t i = 0; i < o.size(); i += 3) o[i] = 2;
    AbsMesh a;
    if (!grid3D(n, n, 3, o, 0, true, a)) c.skip();
    maybeSkipReserve(c, a);
    encode(a, enc);
    c.note("wide");
    fpmaRound(c, a);
}
MC_GROUP(g_large, "large") {        // counts of up to 5 digits
    static const int n[][3] = {{1, 1, 1}, {4, 2, 2}, {7, 5, 3}, {12, 12, 8}, {23, 22, 20}};
    int sz = c.choose(c.run.thorough ? 5 : 4), kind = c.choose(3), enc = c.choose(sz < 3 || c.run.thorough ? N_ENC : 2);
    c.go();
    std::vector<int> o(n[sz][0] * n[sz][1] * n[sz][2], kind == 2 ? 2 : 1); if (kind == 1) for (size_t i = 0; i < o.size(); i += 3) o[i] = 2;
    AbsMesh a;
    if (!grid3D(n[sz][0], n[sz][1], n[sz][2], o, 0, true, a)) c.skip();
    maybeSkipReserve(c, a);
    encode(a, enc);
    c.note("large " + std::to_string(a.n(3)));
    fpmaRound(c, a);
}
#endif
#endif

// ---------------------------------------------------------------------------------------------- M06
#if H_PROP == 6
using ET = typename MeshNativeType<H_DIM>::ElementType;
#if H_DIM == 2
static void vtkWrite(mc::Case& c, const AbsMesh& a, const std::vector<CellType>& ty, double scale) {
    Mesh m; build(m, a);
    MeshDataContainer<ET, 2> types(m);
    for (int q = 0; q < a.n(2); q++) types.template getDataByPos<0>()[q] = Native<2>::of(ty[q]);
    VTKMeshWriter<2, H_IDX, double> w;
    std::ostringstream o; o << std::setprecision(17);
    w.writeHeader(o, "a title");
    w.writeToStream(o, m, types);
    c.op(); c.state(a.digest());
    VtkDoc d = parseVtk(o.str(), true);
    c.check(d.ok, "vtk-syntax", "the written VTK file is malformed: " + d.err + "\n" + o.str().substr(0, 800));
    c.equal(d.title, std::string("a title"), "vtk-title", "title line");
    c.equal(d.P.size(), (size_t)a.n(0), "vtk-points", "points written");
    for (int i = 0; i < a.n(0); i++) for (int k = 0; k < 3; k++) c.equal(d.P[i][k], k < 2 ? a.X[i][k] : 0.0, "vtk-coordinate", "coordinate of vertex " + std::to_string(i));
    c.equal(d.cells.size(), (size_t)a.n(2), "vtk-cells", "cells written");
    c.equal((size_t)w.getNumberOfCells(), (size_t)a.n(2), "vtk-number", "getNumberOfCells");
    for (int q = 0; q < a.n(2); q++) {
        std::set<EdgeKey> g, wt;
        std::string s;
        for (size_t k = 0; k < d.cells[q].size(); k++) { g.insert(std::minmax((int)d.cells[q][k], (int)d.cells[q][(k + 1) % d.cells[q].size()])); s += std::to_string(d.cells[q][k]) + ","; }
        for (int e : a.sub[2][q]) wt.insert(edgeKey(a, e));
        if (g != wt || d.cells[q].size() != a.sub[2][q].size()) c.fail("vtk-cell", "cell " + std::to_string(q) + " is written as " + s + " which is not its outline, mesh " + a.full());
        c.equal(d.types[q], vtkType(ty[q]), "vtk-type", "type of cell " + std::to_string(q));
    }
    Mesh m2; VTKMeshReader<2> r; std::istringstream in(o.str());
    r.loadFromStream(in, m2);
    c.op();
    compareComplex(c, m2, a, "VTK round trip");
    auto t = r.getCellTypes();
    for (int q = 0; q < a.n(2); q++) c.equal((int)t.template getDataByPos<0>()[q], (int)Native<2>::of(ty[q]), "vtk-type-back", "type read back of cell " + std::to_string(q));
}
MC_GROUP(g_grid, "grid") {
    bool t = c.run.thorough;
    int sh = c.choose(2), nx = 2, ny = 1 + sh;
    std::vector<int> o;
    for (int i = 0; i < nx * ny; i++) o.push_back(c.choose(sh == 0 || t ? 6 : 4));
    int enc = c.choose(N_ENC), poly = c.choose(2), warp = c.choose(t ? 3 : 2);
    c.go();
    AbsMesh a = grid2D(nx, ny, o, warp);
    if (!a.n(2)) c.skip();
    encode(a, enc);
    auto ty = a.type;
    if (poly) for (auto& x : ty) x = C_POLYGON;
    for (int v : o) c.note(std::to_string(v));
    vtkWrite(c, a, ty, 1);
}
MC_GROUP(g_part, "parts of meshes") {
    int o1 = c.choose(6), cells = c.choose(3), parts = c.choose(5), enc = c.choose(2);
    c.go();
    AbsMesh a = grid2D(2, 1, {o1, 3}, 0); if (cells || enc) c.skip();   // edges without cells are in no VTK file
    a = partOf(a, cells, parts);
    c.note(a.str());
    vtkWrite(c, a, a.type, 1);
}
MC_GROUP(g_large, "large") {       // totals of up to 5 digits (6 thorough)
    static const int n[][2] = {{1, 1}, {5, 4}, {15, 13}, {45, 46}, {145, 140}};
    int sz = c.choose(c.run.thorough ? 5 : 4), kind = c.choose(3), poly = c.choose(2);
    c.go();
    std::vector<int> o(n[sz][0] * n[sz][1], kind == 2 ? 2 : 1); if (kind == 1) for (size_t i = 0; i < o.size(); i += 3) o[i] = 2;
    AbsMesh a = grid2D(n[sz][0], n[sz][1], o, 0);
    auto ty = a.type;
    if (poly) for (auto& x : ty) x = C_POLYGON;
    c.note(std::to_string(a.n(2)) + " cells");
    vtkWrite(c, a, ty, 1);
}
MC_GROUP(g_corners, "many corners") {   // a polygon of n corners, a fan of n triangles
    auto ns = sizes::upTo(c.run.thorough ? 4200 : 600);
    int n = (int)ns[c.choose((int)ns.size())], fan = c.choose(2), enc = c.choose(3);
    c.go();
    if (n < 6) c.skip();
    std::vector<Coord> X(n + fan, Coord{});
    for (int i = 0; i < n; i++) { X[i][0] = cos(i * 2 * M_PI / n); X[i][1] = sin(i * 2 * M_PI / n); }
    std::vector<CellDesc> d;
    if (fan) for (int i = 0; i < n; i++) d.push_back({C_TRI, {{i, (i + 1) % n, n}}, {}});
    else { d.push_back({C_POLYGON, {{}}, {}}); for (int i = 0; i < n; i++) d[0].loops[0].push_back(i); }
    AbsMesh a = from2D(X, d); a.finish();
    encode(a, enc == 2 ? 5 : enc);
    c.note((fan ? "fan " : "polygon ") + std::to_string(n));
    a.prepare();
    vtkWrite(c, a, a.type, 1);
}
MC_GROUP(g_cell, "one-cell") {    // a polygon with every order of its boundary list, every edge direction, either side
    int n = 3 + c.choose(c.run.thorough ? 4 : 3);
    AbsMesh a; a.init(2);
    for (int i = 0; i < n; i++) a.X.push_back(Coord{{cos(i * 2 * M_PI / n), sin(i * 2 * M_PI / n), 0, 0, 0}});
    std::vector<int> l;
    for (int i = 0; i < n; i++) { int f = c.choose(2); a.sub[1].push_back(f ? std::vector<int>{(i + 1) % n, i} : std::vector<int>{i, (i + 1) % n}); l.push_back(i); }
    std::vector<int> rest = l, out;
    while (!rest.empty()) { int k = c.choose((int)rest.size()); out.push_back(rest[k]); rest.erase(rest.begin() + k); }
    int side = n <= 5 ? c.choose(4) : c.choose(2);
    c.go();
    a.sub[2].push_back(out); a.type.push_back(n == 3 ? C_TRI : n == 4 ? C_QUAD : C_POLYGON); a.cellVerts.push_back({});
    a.left.assign(n, -1); a.right.assign(n, -1);
    for (int e = 0; e < n; e++) if ((side >> (e % 2)) & 1) a.right[e] = 0; else a.left[e] = 0;
    c.note("n=" + std::to_string(n) + " order " + strOf(out));
    vtkWrite(c, a, a.type, 1);
}
#else
static double tetVol(const std::array<double, 3>& a, const std::array<double, 3>& b, const std::array<double, 3>& c, const std::array<double, 3>& d) {
    double u[3], v[3], w[3];
    for (int k = 0; k < 3; k++) { u[k] = b[k] - a[k]; v[k] = c[k] - a[k]; w[k] = d[k] - a[k]; }
    return (u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0])) / 6;
}
static void vtkWrite(mc::Case& c, const AbsMesh& a, const std::vector<CellType>& ty, double scale) {
    Mesh m; build(m, a);
    std::vector<std::array<double, 3>> fc(a.n(2)), cc(a.n(3));
    for (int f = 0; f < a.n(2); f++) { auto vs = vertsOf(faceKey(a, f)); std::array<double, 3> s{{0, 0, 0}}; for (int v : vs) for (int k = 0; k < 3; k++) s[k] += a.X[v][k] / vs.size(); fc[f] = s; Vertex<3, double> v; for (int k = 0; k < 3; k++) v[k] = s[k]; m.getFaces()[f].setCenter(v); }
    for (int q = 0; q < a.n(3); q++) { std::array<double, 3> s{{0, 0, 0}}; for (int f : a.sub[3][q]) for (int k = 0; k < 3; k++) s[k] += fc[f][k] / a.sub[3][q].size(); cc[q] = s; Vertex<3, double> v; for (int k = 0; k < 3; k++) v[k] = s[k]; m.getCells()[q].setCenter(v); }
    MeshDataContainer<ET, 3> types(m);
    for (int q = 0; q < a.n(3); q++) types.template getDataByPos<0>()[q] = Native<3>::of(ty[q]);
    VTKMeshWriter<3, H_IDX, double> w;
    std::ostringstream o; o << std::setprecision(17);
    w.writeHeader(o, "a title");
    w.writeToStream(o, m, types);
    c.op(); c.state(a.digest());
    VtkDoc d = parseVtk(o.str(), true);
    c.check(d.ok, "vtk-syntax", "the written VTK file is malformed: " + d.err + "\n" + o.str().substr(0, 800));
    c.equal(d.title, std::string("a title"), "vtk-title", "title line");
    c.check(d.P.size() >= (size_t)a.n(0), "vtk-points", "points are missing");
    for (int i = 0; i < a.n(0); i++) for (int k = 0; k < 3; k++) c.equal(d.P[i][k], a.X[i][k], "vtk-coordinate", "coordinate of vertex " + std::to_string(i));
    c.equal((size_t)w.getNumberOfCells(), d.cells.size(), "vtk-number", "getNumberOfCells");
    size_t at = 0;
    std::map<int, long long> facePoint;      // one appended point per face, shared by its cells
    std::set<long long> used;
    for (int q = 0; q < a.n(3); q++) {
        if (ty[q] != C_POLY) {
            c.check(at < d.cells.size(), "vtk-cells", "cells are missing");
            std::vector<int> v(d.cells[at].begin(), d.cells[at].end());
            c.equal(d.types[at], vtkType(ty[q]), "vtk-type", "type of cell " + std::to_string(q));
            static const std::map<int, size_t> cnt{{10, 4}, {12, 8}, {13, 6}, {14, 5}};
            if (v.size() != cnt.at(d.types[at])) c.fail("vtk-cell-size", "cell " + std::to_string(q) + " is written with vertices " + strOf(v) + ", mesh " + a.full());
            std::set<FaceKey> g, wt;
            for (auto& f : vtkFaces(d.types[at], v)) g.insert(loopKey(std::vector<long long>(f.begin(), f.end())));
            for (int f : a.sub[3][q]) wt.insert(faceKey(a, f));
            if (g != wt) c.fail("vtk-cell", "cell " + std::to_string(q) + " of VTK type " + std::to_string(d.types[at]) + " is written with vertices " + strOf(v) + " which is not this cell, mesh " + a.full());
            if (d.types[at] != 13) {             // VTK: the base of a tetrahedron, hexahedron and pyramid turns towards the rest of the cell
                int last = d.types[at] == 10 ? 2 : 3, top = d.types[at] == 10 ? 3 : 4;
                c.check(tetVol(d.P[v[0]], d.P[v[1]], d.P[v[last]], d.P[v[top]]) > 0, "vtk-orientation", "cell " + std::to_string(q) + " of VTK type " + std::to_string(d.types[at]) + " is written inside out: " + strOf(v) + ", mesh " + a.full());
            }
            at++;
            continue;
        }
        long long cp = -1;
        std::map<std::pair<int, EdgeKey>, int> seen;
        double vol = 0;
        size_t nt = 0; for (int f : a.sub[3][q]) nt += a.sub[2][f].size();
        for (size_t k = 0; k < nt; k++, at++) {
            c.check(at < d.cells.size(), "vtk-cells", "tetrahedra of cell " + std::to_string(q) + " are missing");
            c.equal(d.types[at], 10, "tess-type", "type of a piece of cell " + std::to_string(q));
            c.equal(d.cells[at].size(), (size_t)4, "tess-size", "vertices of a piece of cell " + std::to_string(q));
            auto v = d.cells[at];
            long long mapped = w.backwardCellIndexMapping.count((H_IDX)at) ? (long long)w.backwardCellIndexMapping.at((H_IDX)at) : -1;
            c.equal(mapped, (long long)q, "tess-mapping", "backward mapping of piece " + std::to_string(at));
            // two mesh vertices, two appended points
            std::vector<long long> old, app;
            for (auto x : v) (x < a.n(0) ? old : app).push_back(x);
            c.check(old.size() == 2 && app.size() == 2, "tess-shape", "a piece of cell " + std::to_string(q) + " does not have two mesh vertices and two new points");
            EdgeKey ek = std::minmax((int)old[0], (int)old[1]);
            auto isPt = [&](long long p, const std::array<double, 3>& x) { for (int i = 0; i < 3; i++) if (!near(d.P[p][i], x[i], scale * 100)) return false; return true; };
            int hit = -1; long long fp = -1, xp = -1;
            for (int f : a.sub[3][q]) for (int s = 0; s < 2; s++) if (faceKey(a, f).count(ek) && isPt(app[s], fc[f]) && isPt(app[1 - s], cc[q]) && !seen.count({f, ek})) { hit = f; fp = app[s]; xp = app[1 - s]; }
            if (hit < 0) c.fail("tess-piece", "a piece of cell " + std::to_string(q) + " is not made of an edge, the centre of a face with that edge and the centre of the cell (or is written twice), mesh " + a.full());
            seen[{hit, ek}] = 1;
            if (cp < 0) { cp = xp; c.check(!used.count(xp), "tess-centre-shared", "the centre of cell " + std::to_string(q) + " is a point of another cell"); used.insert(xp); }
            c.equal(xp, cp, "tess-centre", "point used as the centre of cell " + std::to_string(q));
            if (facePoint.count(hit)) c.equal(fp, facePoint[hit], "tess-conforming", "point used as the centre of face " + std::to_string(hit));
            else { c.check(!used.count(fp), "tess-centre-shared", "the centre of face " + std::to_string(hit) + " is another element's point"); used.insert(fp); facePoint[hit] = fp; }
            vol += std::fabs(tetVol(d.P[v[0]], d.P[v[1]], d.P[v[2]], d.P[v[3]]));
        }
        double want = 0;
        for (int f : a.sub[3][q]) {
            auto lp = loopOf(a, a.sub[2][f]);
            std::array<double, 3> p0{{a.X[lp[0]][0], a.X[lp[0]][1], a.X[lp[0]][2]}};
            double s = 0;
            for (size_t k = 1; k + 1 < lp.size(); k++) { std::array<double, 3> p1{{a.X[lp[k]][0], a.X[lp[k]][1], a.X[lp[k]][2]}}, p2{{a.X[lp[k + 1]][0], a.X[lp[k + 1]][1], a.X[lp[k + 1]][2]}}; s += tetVol(p0, p1, p2, cc[q]); }
            want += std::fabs(s);
        }
        if (!(std::fabs(vol - want) <= 1e-9 * scale * scale * scale * 100)) c.fail("tess-volume", "the pieces of cell " + std::to_string(q) + " have volume " + num(vol) + " want " + num(want));
    }
    c.equal(d.cells.size(), at, "vtk-cells", "cells written");
    c.equal(d.P.size(), (size_t)a.n(0) + used.size(), "vtk-unused-points", "points written");
    for (auto& kv : w.backwardCellIndexMapping) c.check((size_t)kv.first < d.cells.size(), "mapping-range", "backward mapping of a cell that was not written");
    // reading back
    Mesh m2; VTKMeshReader<3> r; std::istringstream in(o.str());
    r.loadFromStream(in, m2);
    c.op();
    bool native = true;
    for (auto t : ty) native = native && t != C_POLY;
    c.equal((size_t)m2.getCells().size(), d.cells.size(), "back-cells", "cells read back");
    if (native) {
        compareComplex(c, m2, a, "VTK round trip");
        auto t = r.getCellTypes();
        for (int q = 0; q < a.n(3); q++) c.equal((int)t.template getDataByPos<0>()[q], (int)Native<3>::of(ty[q]), "vtk-type-back", "type read back of cell " + std::to_string(q));
    }
}
MC_GROUP(g_grid, "grid") {
    bool t = c.run.thorough;
    int sh = c.choose(t ? 3 : 2), nx = sh == 0 ? 2 : sh == 1 ? 3 : 2, ny = sh == 2 ? 2 : 1;
    std::vector<int> o;
    for (int i = 0; i < nx * ny; i++) o.push_back(c.choose(sh == 0 ? 12 : sh == 1 ? (t ? 12 : 6) : 5));
    int enc = c.choose(sh == 1 && !t ? 2 : N_ENC), mode = c.choose(3);
    c.go();
    AbsMesh a;
    if (!grid3D(nx, ny, 1, o, 2, true, a) || !a.n(3)) c.skip();
    maybeSkipReserve(c, a);
    encode(a, enc);
    auto ty = a.type;
    if (mode == 1) for (auto& x : ty) x = C_POLY;
    if (mode == 2) for (size_t q = 0; q < ty.size(); q += 2) ty[q] = C_POLY;
    for (int v : o) c.note(std::to_string(v));
    vtkWrite(c, a, ty, 1);
}
MC_GROUP(g_part, "parts of meshes") {
    int o1 = c.choose(12), cells = c.choose(3), parts = c.choose(5), enc = c.choose(2);
    c.go();
    AbsMesh a; if (!grid3D(2, 1, 1, {o1, 3}, 2, true, a) || cells || enc || !parts) c.skip();   // faces without cells are in no VTK file
    maybeSkipReserve(c, a);
    a = partOf(a, cells, parts);
    c.note(a.str());
    vtkWrite(c, a, a.type, 1);
}
MC_GROUP(g_large, "large") {       // totals of up to 5 digits (6 thorough)
    static const int n[][3] = {{1, 1, 1}, {3, 2, 2}, {5, 5, 4}, {12, 12, 8}, {23, 22, 22}};
    int sz = c.choose(c.run.thorough ? 5 : 4), kind = c.choose(3), mode = c.choose(3);
    c.go();
    std::vector<int> o(n[sz][0] * n[sz][1] * n[sz][2], kind == 2 ? 2 : 1); if (kind == 1) for (size_t i = 0; i < o.size(); i += 3) o[i] = 2;
    AbsMesh a;
    if (!grid3D(n[sz][0], n[sz][1], n[sz][2], o, 0, true, a)) c.skip();
    maybeSkipReserve(c, a);
    auto ty = a.type;
    for (size_t q = 0; q < ty.size(); q++) if (mode == 1 || (mode == 2 && q % 50 == 7)) ty[q] = C_POLY;
    c.note(std::to_string(a.n(3)) + " cells");
    vtkWrite(c, a, ty, 1);
}
MC_GROUP(g_corners, "many corners") {   // a prism of n corners in 3 n tetrahedra and more
    auto ns = sizes::upTo(c.run.thorough ? 1100 : 300);
    int n = (int)ns[c.choose((int)ns.size())], enc = c.choose(2) * 5;
    c.go();
    if (n < 6) c.skip();
    AbsMesh a = prism(n);
    maybeSkipReserve(c, a);
    encode(a, enc);
    a.prepare();
    c.note("prism " + std::to_string(n));
    vtkWrite(c, a, a.type, 1);
}
MC_GROUP(g_mixed, "mixed") {        // every subset of cells split into tetrahedra
    int o1 = 1 + c.choose(10), o2 = 1 + c.choose(10);
    AbsMesh a;
    if (!grid3D(2, 1, 1, {o1, o2}, 0, true, a)) c.skip();
    int n = std::min(a.n(3), c.run.thorough ? 10 : 6), mask = c.choose(1 << n), enc = c.choose(c.run.thorough ? 2 : 1) * 4;
    c.go();
    maybeSkipReserve(c, a);
    auto ty = a.type;
    for (int q = 0; q < n; q++) if (mask >> q & 1) ty[q] = C_POLY;
    if (enc) { a.type = ty; encode(a, enc); ty = a.type; }
    c.note("split mask " + std::to_string(mask));
    vtkWrite(c, a, ty, 1);
}
MC_GROUP(g_scale, "scale") {        // very small and very large meshes, away from the origin or not
    int o1 = c.choose(12), o2 = c.choose(12), e = c.choose(c.run.thorough ? 13 : 7), mode = c.choose(2);
    c.go();
    double s = std::pow(10.0, (e - (c.run.thorough ? 6 : 3)) * (c.run.thorough ? 2 : 4));
    AbsMesh a;
    if (!grid3D(2, 1, 1, {o1, o2}, 0, true, a) || !a.n(3)) c.skip();
    maybeSkipReserve(c, a);
    scaleMesh(a, s);
    auto ty = a.type;
    if (mode) for (auto& x : ty) x = C_POLY;
    c.note("scale " + num(s));
    vtkWrite(c, a, ty, s);
}
static void anyEncoding(mc::Case& c, int opt) {   // one cell of each type, every direction of its edges, sides and first faces
    AbsMesh a;
    static const int keep[] = {1, 2, 8, 9};
    AbsMesh g; grid3D(1, 1, 1, {keep[opt]}, 0, false, g);
    a.init(3);
    // keep only the first cell of the grid
    std::vector<CellDesc> one;
    std::vector<std::vector<int>> lp; for (int f : g.sub[3][0]) lp.push_back(loopOf(g, g.sub[2][f]));
    one.push_back({g.type[0], lp, g.cellVerts[0]});
    a = from3D(g.X, one); a.finish();
    bool t = c.run.thorough;
    int ne = a.n(1), nf = a.n(2);
    int em = c.choose(ne <= (t ? 12 : 8) ? 1 << ne : 1 << 6);
    for (int e = 0; e < ne; e++) if (em >> (ne <= (t ? 12 : 8) ? e : e % 6) & 1) flipEdge(a, e);
    int first = c.choose(nf), rot = c.choose(4), side = c.choose(3), rev = c.choose(2);
    rotateList(a.sub[3][0], first);
    if (rev) { reverseList(a.sub[3][0]); }
    for (auto& f : a.sub[2]) { rotateList(f, rot); if (rev) reverseList(f); }
    for (int f = 0; f < nf; f++) if (side == 1 || (side == 2 && f % 2)) swapLR(a, f);
    c.go();
    maybeSkipReserve(c, a);
    c.note(std::string("cell kind ") + std::to_string(keep[opt]) + " edges " + std::to_string(em) + " first " + std::to_string(first) + " rot " + std::to_string(rot));
    vtkWrite(c, a, a.type, 1);
}
MC_GROUP(g_hex, "one-hexahedron") { anyEncoding(c, 0); }
MC_GROUP(g_wed, "one-wedge") { anyEncoding(c, 1); }
MC_GROUP(g_pyr, "one-pyramid") { anyEncoding(c, 2); }
MC_GROUP(g_tet, "one-tetrahedron") { anyEncoding(c, 3); }
#endif
#endif
MC_MAIN
