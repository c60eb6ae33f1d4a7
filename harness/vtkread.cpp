// M04: reading legacy ASCII VTK unstructured grids, 2D and 3D.   -DH_DIM=2|3 -DH_RES=... -DH_IDX=...
#include "io.h"
using namespace mg;
#ifndef H_IDX
#define H_IDX size_t
#endif
#ifndef H_REAL
#define H_REAL double
#endif
#ifdef H_RES
using Mesh = UnstructuredMesh<H_DIM, H_IDX, H_REAL, H_RES>;
#else
using Mesh = UnstructuredMesh<H_DIM, H_IDX, H_REAL>;
#endif

static void readAndCompare(mc::Case& c, const AbsMesh& a, const std::string& text, const std::vector<CellType>& types, int target) {
    Mesh m;
    VTKMeshReader<H_DIM> rd;
    if (target) {                     // the mesh (and the reader) held something else before
        AbsMesh b; b.init(H_DIM);
#if H_DIM == 2
        b = grid2D(2, 2, {1, 2, 4, 1});
#else
        grid3D(2, 1, 1, {1, 8}, 0, false, b);
#endif
        std::istringstream in(vtkText(b));
        rd.loadFromStream(in, m);
    }
    std::istringstream in(text);
    if (target == 2) { std::string drop; while (in >> drop) {} in.clear(); }   // the stream was read before
    rd.loadFromStream(in, m);
    c.op();
    c.state(mc::hashStr(text));
    compareComplex(c, m, a, "reading VTK");
    auto t = rd.getCellTypes();
    c.equal(t.template getDataByPos<0>().size(), (size_t)a.n(H_DIM), "types-size", "number of cell types");
    for (int q = 0; q < a.n(H_DIM); q++) c.equal((int)t.template getDataByPos<0>()[q], (int)Native<H_DIM>::of(types[q]), "type", "type of cell " + std::to_string(q));
}
// the complex a VTK file describes, edges and faces from its own vertex orders
static AbsMesh model(const std::vector<Coord>& X, const std::vector<CellType>& types, const std::vector<std::vector<int>>& cv) {
    std::vector<CellDesc> d;
    for (size_t q = 0; q < cv.size(); q++) d.push_back({types[q], H_DIM == 2 ? std::vector<std::vector<int>>{cv[q]} : vtkFaces(vtkType(types[q]), cv[q]), cv[q]});
    // from2D/from3D renumber vertices by first use; keep the file's numbering instead
    AbsMesh m; m.init(H_DIM); m.X = X;
    std::map<EdgeKey, int> em; std::map<FaceKey, int> fm;
    for (auto& c : d) {
        std::vector<int> fs;
        for (auto& lp : c.loops) {
            std::vector<int> es; FaceKey fk;
            for (size_t k = 0; k < lp.size(); k++) {
                EdgeKey key = std::minmax(lp[k], lp[(k + 1) % lp.size()]);
                fk.insert(key);
                if (!em.count(key)) { em[key] = m.n(1); m.sub[1].push_back({key.first, key.second}); }
                es.push_back(em[key]);
            }
            if (H_DIM == 2) { fs = es; break; }
            if (!fm.count(fk)) { fm[fk] = m.n(2); m.sub[2].push_back(es); }
            fs.push_back(fm[fk]);
        }
        m.sub[H_DIM].push_back(fs);
        m.type.push_back(c.type);
        m.cellVerts.push_back(c.verts);
    }
    if (!m.finish()) m.D = 0;
    return m;
}
static void permuteVertices(std::vector<Coord>& X, std::vector<std::vector<int>>& cv, int kind) {
    auto p = permOf((int)X.size(), kind);
    auto Y = X;
    for (size_t i = 0; i < p.size(); i++) Y[p[i]] = X[i];
    X = Y;
    for (auto& c : cv) for (int& v : c) v = p[v];
}

MC_GROUP(g_grid, "grid") {
    bool t = c.run.thorough;
    AbsMesh a;
#if H_DIM == 2
    int sh = c.choose(2), nx = 2, ny = 1 + sh;
    std::vector<int> o;
    for (int i = 0; i < nx * ny; i++) o.push_back(c.choose(ny == 1 || t ? 6 : 4));
    a = grid2D(nx, ny, o, c.choose(2) * 2);
#else
    int sh = c.choose(t ? 3 : 1), nx = sh == 0 ? 2 : sh == 1 ? 3 : 2, ny = sh == 2 ? 2 : 1;
    std::vector<int> o;
    for (int i = 0; i < nx * ny; i++) o.push_back(sh == 2 ? c.choose(6) : c.choose(11));
    if (!grid3D(nx, ny, 1, o, 2, false, a)) c.skip();
#endif
    int perm, mir, style, target;
    if (t) { perm = c.choose(4); mir = c.choose(3); style = c.choose(6); target = c.choose(3); }
    else {   // a menu in which every value of the four parameters meets most of the others
        static const int menu[16][4] = {{0, 0, 0, 0}, {0, 1, 1, 1}, {0, 2, 2, 2}, {1, 0, 1, 2}, {1, 1, 2, 0}, {1, 2, 0, 1}, {2, 0, 2, 1}, {2, 1, 0, 2}, {2, 2, 1, 0}, {3, 0, 3, 1}, {3, 1, 3, 2}, {3, 2, 3, 0}, {1, 0, 4, 1}, {2, 1, 4, 0}, {3, 2, 5, 0}, {0, 1, 5, 2}};
        auto r = menu[c.choose(16)];
        perm = r[0]; mir = r[1]; style = r[2]; target = r[3];
    }
    c.go();
    if (!a.n(H_DIM)) c.skip();
    auto X = a.X; auto cv = a.cellVerts;
    permuteVertices(X, cv, perm);
    for (size_t q = 0; q < cv.size(); q++) if (mir) { auto os = vtkOrders(a.type[q], cv[q], true); cv[q] = os[(q * 7 + mir * 3) % os.size()]; }
    AbsMesh w = model(X, a.type, cv);
    for (int v : o) c.note(std::to_string(v));
    readAndCompare(c, w, vtkText(w, style), a.type, target);
}
MC_GROUP(g_orders, "orders") {    // two neighbouring cells, every vertex order of each
    AbsMesh a;
#if H_DIM == 2
    a = grid2D(2, 1, {1 + c.choose(5), 1 + c.choose(5)});
#else
    int o1 = 1 + c.choose(10), o2 = 1 + c.choose(10);
    if (!grid3D(2, 1, 1, {o1, o2}, 0, false, a)) c.skip();
#endif
    int n = a.n(H_DIM), p = c.choose(n), q = c.choose(n);
    if (p > q) c.skip();
    auto cv = a.cellVerts;
    auto op = vtkOrders(a.type[p], cv[p], true);
    bool full = c.run.thorough || H_DIM == 2;
    cv[p] = op[c.choose((int)op.size())];
    if (q != p) {
        auto oq = vtkOrders(a.type[q], cv[q], true);
        if (full) cv[q] = oq[c.choose((int)oq.size())];
        else {               // quick: one order of the neighbour, only real neighbours
            std::set<int> sh; for (int f : a.sub[3][p]) if (std::find(a.sub[3][q].begin(), a.sub[3][q].end(), f) != a.sub[3][q].end()) sh.insert(f);
            if (sh.empty()) c.skip();
            cv[q] = oq[3 % oq.size()];
        }
    }
    c.go();
    AbsMesh w = model(a.X, a.type, cv);
    c.note("cell " + std::to_string(p) + " order " + strOf(cv[p]) + " cell " + std::to_string(q) + " order " + strOf(cv[q]));
    readAndCompare(c, w, vtkText(w, 0), a.type, 0);
}
static void blockMesh(mc::Case& c, int nx, int ny, int nz, int kind, int off, int style) {
    c.go();
    std::vector<Coord> X; std::vector<CellType> ty; std::vector<std::vector<int>> cv;
#if H_DIM == 2
    (void)nz;
    for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) X.push_back(Coord{{double(i), double(j), 0, 0, 0}});
    for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
        int v = j * (nx + 1) + i;
        if (kind) { ty.push_back(C_QUAD); cv.push_back({v, v + 1, v + nx + 2, v + nx + 1}); }
        else { ty.push_back(C_TRI); cv.push_back({v, v + 1, v + nx + 2}); ty.push_back(C_TRI); cv.push_back({v, v + nx + 2, v + nx + 1}); }
    }
#else
    for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) X.push_back(Coord{{double(i), double(j), double(k), 0, 0}});
    for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
        auto id = [&](int x, int y, int z) { return (z * (ny + 1) + y) * (nx + 1) + x; };
        std::vector<int> h{id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k), id(i, j, k + 1), id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1)};
        if (kind) { ty.push_back(C_HEX); cv.push_back(h); }
        else { ty.push_back(C_WEDGE); cv.push_back({h[0], h[1], h[2], h[4], h[5], h[6]}); ty.push_back(C_WEDGE); cv.push_back({h[0], h[2], h[3], h[4], h[6], h[7]}); }
    }
#endif
    if (off) permuteVertices(X, cv, 3);
    AbsMesh w = model(X, ty, cv);
    c.note(std::to_string(ty.size()) + " cells");
    readAndCompare(c, w, vtkText(w, style), ty, 0);
}
MC_GROUP(g_none, "no cells") {      // the sections of a file may be empty
    int n = c.choose(5), style = c.choose(6), target = c.choose(3);
    c.go();
    std::vector<Coord> X;
    for (int i = 0; i < n; i++) X.push_back(Coord{{1.5 * i, -0.25 * i * i, H_DIM == 3 ? 2.0 - i : 0, 0, 0}});
    AbsMesh w = model(X, {}, {});
    readAndCompare(c, w, vtkText(w, style), {}, target);
}
MC_GROUP(g_wide, "wide") {        // many vertices: keys of one, two and three digits meet (1;23 against 12;3)
    int n = c.run.thorough ? 16 : 12, kind = c.choose(2), off = c.choose(2);
    if (H_DIM == 3) n = 5;
    blockMesh(c, n, n, n, kind, off, 0);
}
MC_GROUP(g_large, "large") {      // section headers with totals of every number of digits up to 5 (6 thorough)
    static const int n2[][2] = {{1, 1}, {2, 1}, {5, 5}, {14, 15}, {40, 51}, {45, 45}, {142, 142}}, n3[][3] = {{1, 1, 1}, {2, 1, 1}, {3, 2, 2}, {5, 5, 5}, {12, 12, 8}, {11, 11, 11}, {23, 22, 22}};
    int sz = c.choose(c.run.thorough ? 7 : 6), kind = c.choose(2), off = c.choose(2), style = c.choose(6);
    if (sz >= 4 && !c.run.thorough && off) c.skip();
    if (H_DIM == 2) blockMesh(c, n2[sz][0], n2[sz][1], 1, kind, off, style);
    else blockMesh(c, n3[sz][0], n3[sz][1], n3[sz][2], kind, off, style);
}
// cells apart from each other: more vertices, edges and faces than 16 bits number
MC_GROUP(g_apart, "separate cells") {
    int n = c.run.thorough ? 70000 : 33000, k = c.choose(3);
    c.go();
    if (!c.run.thorough && k) c.skip();
    std::vector<Coord> X; std::vector<std::vector<int>> cv; int d = H_DIM + 1;
    for (int i = 0; i < n * d; i++) { Coord x{}; x[0] = i / d * 2 + (i % d == 1); x[1] = i % d == 2; if (H_DIM == 3) x[2] = i % d == 3; X.push_back(x); }
    for (int t = 0; t < n; t++) { cv.emplace_back(); for (int i = 0; i < d; i++) cv.back().push_back(k == 1 ? i * n + t : t * d + (k == 2 ? d - 1 - i : i)); }
    if (k == 1) { auto Y = X; for (int t = 0; t < n; t++) for (int i = 0; i < d; i++) Y[i * n + t] = X[t * d + i]; X = Y; }
    std::vector<CellType> ty(n, H_DIM == 2 ? C_TRI : C_TET);
    AbsMesh w = model(X, ty, cv);
    w.prepare();
    c.note(std::to_string(n) + " separate cells, numbering " + std::to_string(k));
    readAndCompare(c, w, vtkText(w, 0), ty, 0);
}
// edges between vertices far apart, which a packed key of two indices would merge
MC_GROUP(g_far, "far vertices") {
    static const int Ms[] = {100, 256, 1000, 1024, 4096, 10000, 32768, 65535, 65536, 100000, 131072};
    int M = Ms[c.choose(11)], back = c.choose(2);
    c.go();
    std::vector<std::vector<int>> cv; std::set<std::pair<int, int>> seen;
    int unique = 7 * M + 100;
    auto cell = [&](int a, int b) {
        if (a == b || !seen.insert(std::minmax(a, b)).second) return;
        std::vector<int> v{a, b, unique++}; if (H_DIM == 3) v.push_back(unique++);
        if (back) std::reverse(v.begin(), v.end());
        cv.push_back(v);
    };
    for (int a = 0; a < 4; a++) for (int j = 0; j < 3; j++) { cell(a, 5 + M * j); cell(a + M, 5 + M * j); cell(a + 2 * M, 5 + M * j); cell(0, M * (a + 3) + 5 + j); cell(1, M * (a + 3) + 5 + j); }
    std::vector<Coord> X(unique); for (int i = 0; i < unique; i++) { X[i] = Coord{}; X[i][0] = i; X[i][1] = double(i % 1000) * i; if (H_DIM == 3) X[i][2] = double(i % 7) * i; }
    std::vector<CellType> ty(cv.size(), H_DIM == 2 ? C_TRI : C_TET);
    AbsMesh w = model(X, ty, cv);
    w.prepare();
    c.note("vertices apart by " + std::to_string(M));
    readAndCompare(c, w, vtkText(w, 0), ty, 0);
}
MC_GROUP(g_keys, "keys") {        // two cells whose edges a careless key would merge
    static const auto ks = collidingEdges(c.run.thorough ? 1000 : 135, c.run.thorough);
    auto e = ks[c.choose((int)ks.size())];
    c.go();
    int n;
    auto cv = cellsWithEdges(H_DIM, e, n);
    std::vector<Coord> X(n, Coord{});
    for (int i = 0; i < n; i++) { X[i][0] = i; X[i][1] = double(i) * i; if (H_DIM == 3) X[i][2] = double(i % 7) * i; }
    std::vector<CellType> ty(2, H_DIM == 2 ? C_TRI : C_TET);
    AbsMesh w = model(X, ty, cv);
    c.note("edges " + std::to_string(e[0]) + "-" + std::to_string(e[1]) + " and " + std::to_string(e[2]) + "-" + std::to_string(e[3]));
    readAndCompare(c, w, vtkText(w, 0), ty, 0);
}
#if H_DIM == 3
// tetrahedra that number the edges of two different triangles so that a careless key of faces would merge them
static std::vector<std::array<int, 6>> collidingFaces(int limit) {
    std::vector<std::array<int, 6>> r;
    std::map<std::string, std::vector<std::array<int, 3>>> by;
    for (int a = 1; a < 30; a++) for (int b = a + 1; b < limit; b++) for (int c = b + 1; c < limit; c++) {
        if (a / 6 == b / 6 || b / 6 == c / 6) continue;
        if (a < 12 && (b > 99 || c > 99)) by["cat" + std::to_string(a) + std::to_string(b) + std::to_string(c)].push_back({{a, b, c}});
        else if (a < 20 && b < 40 && c > 99) by["cat" + std::to_string(a) + std::to_string(b) + std::to_string(c)].push_back({{a, b, c}});
    }
    for (auto& kv : by) for (size_t i = 1; i < kv.second.size() && i < 3; i++) r.push_back({{kv.second[0][0], kv.second[0][1], kv.second[0][2], kv.second[i][0], kv.second[i][1], kv.second[i][2]}});
    // equal sums, products, exclusive ors
    for (auto& x : std::vector<std::array<int, 6>>{{{1, 20, 33, 8, 13, 33}}, {{2, 9, 40, 3, 6, 40}}, {{1, 8, 30, 2, 13, 24}}, {{6, 12, 30, 3, 24, 30}}, {{1, 14, 30, 7, 2, 30}}}) r.push_back(x);
    return r;
}
MC_GROUP(g_facekeys, "face keys") {
    static const auto all = collidingFaces(c.run.thorough ? 240 : 140);
    int k = c.choose((int)all.size());
    if (!c.run.thorough && k % 37 && k + 6 < (int)all.size()) c.skip();
    c.go();
    const auto& q = all[k];
    // triangles 0 1 2 and 3 4 5; a common edge number makes them share the edge
    int tri[2][3] = {{0, 1, 2}, {3, 4, 5}};
    int next = 6;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (q[i] == q[3 + j]) {
        // edge i of the first joins its corners i, i+1; edge j of the second likewise
        tri[1][j] = tri[0][i]; tri[1][(j + 1) % 3] = tri[0][(i + 1) % 3];
    }
    std::map<int, std::pair<int, int>> at;      // edge number -> its vertices
    for (int f = 0; f < 2; f++) for (int i = 0; i < 3; i++) {
        auto e = std::make_pair(tri[f][i], tri[f][(i + 1) % 3]);
        int n = q[f * 3 + i];
        if (at.count(n) && std::minmax(at[n].first, at[n].second) != std::minmax(e.first, e.second)) c.skip();
        at[n] = e;
    }
    static const int slot[6][2] = {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}};
    int last = at.rbegin()->first;
    std::vector<std::vector<int>> cv;
    for (int t = 0; t <= last / 6; t++) {
        std::vector<int> v(4, -1);
        int used = 0;
        for (int s = 0; s < 6; s++) if (at.count(6 * t + s)) { v[slot[s][0]] = at[6 * t + s].first; v[slot[s][1]] = at[6 * t + s].second; used++; }
        if (used > 1) c.skip();
        for (int& x : v) if (x < 0) x = next++;
        cv.push_back(v);
    }
    for (int f = 0; f < 2; f++) cv.push_back({tri[f][0], tri[f][1], tri[f][2], next++});
    std::vector<Coord> X(next, Coord{});
    for (int i = 0; i < next; i++) { X[i][0] = i; X[i][1] = double(i) * i; X[i][2] = double(i % 7) * i; }
    std::vector<CellType> ty(cv.size(), C_TET);
    AbsMesh w = model(X, ty, cv);
    if (!w.D) c.skip();
    c.note("edges " + std::to_string(q[0]) + "," + std::to_string(q[1]) + "," + std::to_string(q[2]) + " and " + std::to_string(q[3]) + "," + std::to_string(q[4]) + "," + std::to_string(q[5]));
    readAndCompare(c, w, vtkText(w, 0), ty, 0);
}
#endif
// every VTK cell type number with a matching vertex count: read correctly or refused
MC_GROUP(g_types, "types") {
    int type = 1 + c.choose(25), pos = c.choose(2);
    c.go();
    static const int cnt[26] = {0, 1, 1, 2, 2, 3, 4, 5, 4, 4, 4, 8, 8, 6, 5, 10, 12, 0, 0, 0, 0, 3, 6, 8, 10, 20};
    static const std::set<int> ok = H_DIM == 2 ? std::set<int>{5, 7, 9} : std::set<int>{10, 12, 13, 14};
    static const std::set<int> special = {8, 11};
    if (cnt[type] == 0 || special.count(type) || (H_DIM == 2 && (type < 5 || type >= 10))) c.skip();
    AbsMesh a; a.init(H_DIM);
    for (int i = 0; i < 30; i++) a.X.push_back(Coord{{cos(i * 0.2), sin(i * 0.2), i * 0.1 * (H_DIM == 3), 0, 0}});
    std::vector<std::vector<int>> cv; std::vector<int> types;
    auto good = [&]() { if (H_DIM == 2) { cv.push_back({26, 27, 28}); types.push_back(5); } else { cv.push_back({26, 27, 28, 29}); types.push_back(10); } };
    if (pos) good();
    std::vector<int> v; for (int i = 0; i < cnt[type]; i++) v.push_back(i);
    cv.push_back(v); types.push_back(type);
    if (!pos) good();
    std::string text = vtkText(a, 0, types, cv);
    Mesh m; VTKMeshReader<H_DIM> rd; std::istringstream in(text);
    bool threw = false;
    try { rd.loadFromStream(in, m); } catch (std::exception& e) { threw = true; }
    c.op();
    c.state(type * 2 + pos);
    c.note("cell type " + std::to_string(type));
    c.out(type * 2 + threw);
    if (ok.count(type)) c.check(!threw, "supported-refused", "VTK cell type " + std::to_string(type) + " is refused");
    else c.check(threw, "unsupported-accepted", "VTK cell type " + std::to_string(type) + " is not supported but the file is read without an error");
}
MC_GROUP(g_axis, "axis-aligned") {   // VTK_PIXEL and VTK_VOXEL order their vertices differently from quads and hexahedra
    int perm = c.choose(4), style = c.choose(6);
    c.go();
    std::vector<Coord> X; std::vector<std::vector<int>> cv, real; std::vector<CellType> ty; std::vector<int> vt;
#if H_DIM == 2
    for (int j = 0; j < 2; j++) for (int i = 0; i < 3; i++) X.push_back(Coord{{double(i), double(j), 0, 0, 0}});
    real = {{0, 1, 3, 4}, {1, 2, 4, 5}};
    permuteVertices(X, real, perm);
    for (auto& p : real) { cv.push_back({p[0], p[1], p[3], p[2]}); ty.push_back(C_QUAD); vt.push_back(8); }
#else
    for (int k = 0; k < 2; k++) for (int j = 0; j < 2; j++) for (int i = 0; i < 3; i++) X.push_back(Coord{{double(i), double(j), double(k), 0, 0}});
    real = {{0, 1, 3, 4, 6, 7, 9, 10}, {1, 2, 4, 5, 7, 8, 10, 11}};
    permuteVertices(X, real, perm);
    for (auto& p : real) { cv.push_back({p[0], p[1], p[3], p[2], p[4], p[5], p[7], p[6]}); ty.push_back(C_HEX); vt.push_back(11); }
#endif
    AbsMesh w = model(X, ty, cv);
    bool threw = false;
    c.state(perm * 6 + style);
    Mesh m; VTKMeshReader<H_DIM> rd; std::istringstream in(vtkText(w, style, vt, real));
    try { rd.loadFromStream(in, m); } catch (std::exception&) { threw = true; }
    c.op();
    if (!threw) compareComplex(c, m, w, "reading pixels/voxels");
}
MC_GROUP(g_bad, "refused") {     // headers that must be refused, with the mesh left as it was
    int k = c.choose(5);
    c.go();
    static const char* txt[] = {"BINARY\nDATASET UNSTRUCTURED_GRID\n", "ASCII\nDATASET STRUCTURED_GRID\n", "ASCII\nFIELD x\n", "ASCII\nDATASET POLYDATA\n", "ascii\nDATASET UNSTRUCTURED_GRID\n"};
    Mesh m; VTKMeshReader<H_DIM> rd;
    std::istringstream in(std::string("# vtk DataFile Version 2.0\nt\n") + txt[k] + "POINTS 1 double\n0 0 0\nCELLS 0 0\nCELL_TYPES 0\n");
    bool threw = false;
    try { rd.loadFromStream(in, m); } catch (std::runtime_error&) { threw = true; }
    c.op(); c.state(k);
    c.check(threw, "bad-header", std::string("header accepted: ") + txt[k]);
}
MC_MAIN
