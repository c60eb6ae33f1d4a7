// Mesh generators and the reference incidence model.  Nothing here uses GTMesh's algorithms: the model
// is plain nested vectors; only build() touches the library, through its public setters.
#pragma once
#include "mc.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <memory>
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>

namespace mg {

using Coord = std::array<double, 5>;
enum CellType { C_TRI, C_QUAD, C_POLYGON, C_TET, C_HEX, C_WEDGE, C_PYR, C_POLY };

struct AbsMesh {
    int D = 0;
    std::vector<Coord> X;                              // vertex coordinates
    std::vector<std::vector<std::vector<int>>> sub;    // sub[d][i] = boundary of element i of dimension d, d = 1..D
    std::vector<int> left, right;                      // cells of element i of dimension D-1 (-1: none)
    std::vector<CellType> type;                        // per cell, when known
    std::vector<std::vector<int>> cellVerts;           // per cell, vertices in VTK order, when known
    int n(int d) const { return d == 0 ? (int)X.size() : (int)sub[d].size(); }

    void init(int dim) { D = dim; sub.assign(D + 1, {}); }

    // left/right from the cells: first cell of a face on the left, second on the right; false if > 2 cells
    bool finish() {
        left.assign(n(D - 1), -1);
        right.assign(n(D - 1), -1);
        for (int c = 0; c < n(D); c++)
            for (int f : sub[D][c]) {
                if (left[f] < 0) left[f] = c;
                else if (right[f] < 0) right[f] = c;
                else return false;
            }
        return true;
    }
    // all elements of dimension lo that belong to element i of dimension hi
    std::set<int> inc(int hi, int i, int lo) const {
        std::set<int> cur{i};
        for (int d = hi; d > lo; d--) {
            std::set<int> nx;
            for (int e : cur) for (int s : sub[d][e]) nx.insert(s);
            cur.swap(nx);
        }
        return cur;
    }
    // order of the first encounter in the depth-first walk over the stored boundary order
    void walk(int d, int i, int lo, std::vector<int>& out) const {
        if (d == lo) { if (std::find(out.begin(), out.end(), i) == out.end()) out.push_back(i); return; }
        for (int s : sub[d][i]) walk(d - 1, s, lo, out);
    }
    // connected elements of dimension b for element i of dimension a, any relation of a and b
    std::shared_ptr<std::map<std::pair<int, int>, std::vector<std::set<int>>>> all;      // all of them, for large meshes (made by prepare)
    void prepare() {
        all = std::make_shared<std::map<std::pair<int, int>, std::vector<std::set<int>>>>();
        for (int a = 0; a <= D; a++) for (int b = 0; b <= a; b++) {
            auto &down = (*all)[{a, b}], &up = (*all)[{b, a}];
            down.resize(n(a)); up.resize(n(b));
            for (int i = 0; i < n(a); i++) down[i] = inc(a, i, b);
            for (int i = 0; i < n(a); i++) for (int j : down[i]) up[j].insert(i);
        }
    }
    std::set<int> conn(int a, int i, int b) const {
        if (all) return (*all)[{a, b}][i];
        if (a >= b) return inc(a, i, b);
        std::set<int> r;
        for (int j = 0; j < n(b); j++) if (inc(b, j, a).count(i)) r.insert(j);
        return r;
    }
    uint64_t digest() const {
        uint64_t h = D;
        for (auto& l : sub) { h = mc::mix(h, l.size()); for (auto& e : l) { h = mc::mix(h, e.size() + 77); for (int s : e) h = mc::mix(h, s); } }
        for (int v : left) h = mc::mix(h, v + 5);
        for (int v : right) h = mc::mix(h, v + 5);
        for (auto& x : X) for (double v : x) { uint64_t b; memcpy(&b, &v, 8); h = mc::mix(h, b); }
        return h;
    }
    std::string str() const {
        std::ostringstream o;
        o << "D" << D;
        for (int d = 0; d <= D; d++) o << (d ? "/" : " n=") << n(d);
        return o.str();
    }
    std::string full() const {
        if (all) return str();
        std::ostringstream o;
        o << str() << " X=";
        for (auto& x : X) { o << "("; for (int d = 0; d < D; d++) o << (d ? "," : "") << x[d]; o << ")"; }
        for (int d = 1; d <= D; d++) { o << " sub" << d << "="; for (auto& e : sub[d]) { o << "["; for (size_t k = 0; k < e.size(); k++) o << (k ? "," : "") << e[k]; o << "]"; } }
        o << " L="; for (int v : left) o << v << ",";
        o << " R="; for (int v : right) o << v << ",";
        return o.str();
    }
};

// ---------------------------------------------------------------- assembling from vertex loops
struct CellDesc { CellType type; std::vector<std::vector<int>> loops; std::vector<int> verts; };

inline AbsMesh from2D(const std::vector<Coord>& X, const std::vector<CellDesc>& cells) {
    AbsMesh m; m.init(2);
    std::map<int, int> vmap;
    auto V = [&](int v) { auto it = vmap.find(v); if (it != vmap.end()) return it->second; int k = (int)m.X.size(); m.X.push_back(X[v]); vmap[v] = k; return k; };
    std::map<std::pair<int, int>, int> emap;
    for (auto& c : cells) {
        std::vector<int> lp, es;
        for (int v : c.loops[0]) lp.push_back(V(v));
        for (size_t k = 0; k < lp.size(); k++) {
            int a = lp[k], b = lp[(k + 1) % lp.size()];
            auto key = std::minmax(a, b);
            auto it = emap.find({key.first, key.second});
            int e;
            if (it == emap.end()) { e = (int)m.sub[1].size(); emap[{key.first, key.second}] = e; m.sub[1].push_back({a, b}); }
            else e = it->second;
            es.push_back(e);
        }
        m.sub[2].push_back(es);
        m.type.push_back(c.type);
        m.cellVerts.push_back(lp);
    }
    return m;
}

inline AbsMesh from3D(const std::vector<Coord>& X, const std::vector<CellDesc>& cells) {
    AbsMesh m; m.init(3);
    std::map<int, int> vmap;
    auto V = [&](int v) { auto it = vmap.find(v); if (it != vmap.end()) return it->second; int k = (int)m.X.size(); m.X.push_back(X[v]); vmap[v] = k; return k; };
    std::map<std::pair<int, int>, int> emap;
    std::map<std::set<int>, int> fmap;
    for (auto& c : cells) {
        std::vector<int> vs;
        for (int v : c.verts) vs.push_back(V(v));
        std::vector<int> fs;
        for (auto& loop : c.loops) {
            std::vector<int> lp, es;
            for (int v : loop) lp.push_back(V(v));
            for (size_t k = 0; k < lp.size(); k++) {
                int a = lp[k], b = lp[(k + 1) % lp.size()];
                auto key = std::minmax(a, b);
                auto it = emap.find({key.first, key.second});
                int e;
                if (it == emap.end()) { e = (int)m.sub[1].size(); emap[{key.first, key.second}] = e; m.sub[1].push_back({a, b}); }
                else e = it->second;
                es.push_back(e);
            }
            std::set<int> fk(es.begin(), es.end());
            auto it = fmap.find(fk);
            int f;
            if (it == fmap.end()) { f = (int)m.sub[2].size(); fmap[fk] = f; m.sub[2].push_back(es); }
            else f = it->second;
            fs.push_back(f);
        }
        m.sub[3].push_back(fs);
        m.type.push_back(c.type);
        m.cellVerts.push_back(vs);
    }
    return m;
}

// ---------------------------------------------------------------- 2D families
// square options: 0 absent, 1 quad, 2 split by diagonal 0-2, 3 split by diagonal 1-3, 4 four triangles around
// the centre, 5 one polygon with all four corners and the mid point of the bottom edge shifted (pentagon-like)
inline std::vector<CellDesc> squareCells(int opt, const std::array<int, 4>& q, int centre) {
    switch (opt) {
    case 1: return {{C_QUAD, {{q[0], q[1], q[2], q[3]}}, {}}};
    case 2: return {{C_TRI, {{q[0], q[1], q[2]}}, {}}, {C_TRI, {{q[0], q[2], q[3]}}, {}}};
    case 3: return {{C_TRI, {{q[0], q[1], q[3]}}, {}}, {C_TRI, {{q[1], q[2], q[3]}}, {}}};
    case 4: return {{C_TRI, {{q[0], q[1], centre}}, {}}, {C_TRI, {{q[1], q[2], centre}}, {}}, {C_TRI, {{q[2], q[3], centre}}, {}}, {C_TRI, {{q[3], q[0], centre}}, {}}};
    case 5: return {{C_TRI, {{q[0], q[1], centre}}, {}}, {C_POLYGON, {{q[1], q[2], q[3], q[0], centre}}, {}}};
    default: return {};
    }
}
// grid of nx x ny squares; warp distorts the grid (0: unit squares of size 2, 1: trapezoids, 2: shear + stretch)
inline void gridVerts2D(int nx, int ny, int warp, std::vector<Coord>& X, std::vector<std::array<int, 4>>& quads, std::vector<int>& centre) {
    auto P = [&](double i, double j) {
        double x = 2 * i, y = 2 * j;
        if (warp == 1) { x = 2 * i + (j > 0.75 ? 0.5 * i : 0.25 * i) ; y = 2 * j + 0.25 * i * j; }
        if (warp == 2) { x = 3 * i + j - 7; y = 4 * j - i * 0.5 + 11; }
        return Coord{{x, y, 0, 0, 0}};
    };
    for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) X.push_back(P(i, j));
    for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
        int v = j * (nx + 1) + i;
        quads.push_back({{v, v + 1, v + nx + 2, v + nx + 1}});
        centre.push_back((int)X.size());
        Coord c{};
        for (int k = 0; k < 4; k++) for (int d = 0; d < 2; d++) c[d] += X[quads.back()[k]][d] / 4;
        X.push_back(c);
    }
}
inline AbsMesh grid2D(int nx, int ny, const std::vector<int>& opt, int warp = 0) {
    std::vector<Coord> X; std::vector<std::array<int, 4>> q; std::vector<int> ce;
    gridVerts2D(nx, ny, warp, X, q, ce);
    std::vector<CellDesc> cells;
    for (size_t k = 0; k < q.size(); k++) for (auto& c : squareCells(opt[k], q[k], ce[k])) cells.push_back(c);
    AbsMesh m = from2D(X, cells);
    m.finish();
    return m;
}

// ---------------------------------------------------------------- 3D families
// cube corner numbering as VTK hexahedron: 0..3 bottom loop, 4..7 top loop
// options: 0 absent, 1 hexahedron, 2/3 two wedges (axis z, diagonal 0-2 / 1-3), 4/5 two wedges (axis x), 6/7 (axis y),
//          8 six pyramids around the centre, 9/10 five tetrahedra (two parities), 11 hexahedron as a general polyhedron
struct CubeSplit { std::vector<CellDesc> cells; std::array<int, 6> diag; }; // diag per cube face: 0 none, 1/2 which diagonal
inline CubeSplit cubeCells(int opt, const std::array<int, 8>& h, int ce) {
    CubeSplit r; r.diag = {{0, 0, 0, 0, 0, 0}};
    auto wedge = [&](std::array<int, 6> w) {   // two triangles 012 and 345
        return CellDesc{C_WEDGE, {{w[0], w[1], w[2]}, {w[3], w[4], w[5]}, {w[0], w[1], w[4], w[3]}, {w[1], w[2], w[5], w[4]}, {w[2], w[0], w[3], w[5]}}, {w[0], w[1], w[2], w[3], w[4], w[5]}};
    };
    auto tet = [&](int a, int b, int c, int d) { return CellDesc{C_TET, {{a, b, c}, {a, b, d}, {b, c, d}, {c, a, d}}, {a, b, c, d}}; };
    auto pyr = [&](int a, int b, int c, int d, int e) { return CellDesc{C_PYR, {{a, b, c, d}, {a, b, e}, {b, c, e}, {c, d, e}, {d, a, e}}, {a, b, c, d, e}}; };
    // cube faces: 0 bottom(0123) 1 top(4567) 2 front(0154) 3 back(3267) 4 left(0374) 5 right(1265); diag 1: through the face's first corner, 2: through its second
    switch (opt) {
    case 1: case 11:
        r.cells = {{opt == 1 ? C_HEX : C_POLY, {{h[0], h[1], h[2], h[3]}, {h[4], h[5], h[6], h[7]}, {h[0], h[1], h[5], h[4]}, {h[1], h[2], h[6], h[5]}, {h[2], h[3], h[7], h[6]}, {h[3], h[0], h[4], h[7]}}, {h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]}}};
        break;
    case 2: r.cells = {wedge({{h[0], h[1], h[2], h[4], h[5], h[6]}}), wedge({{h[0], h[2], h[3], h[4], h[6], h[7]}})}; r.diag[0] = r.diag[1] = 1; break;
    case 3: r.cells = {wedge({{h[0], h[1], h[3], h[4], h[5], h[7]}}), wedge({{h[1], h[2], h[3], h[5], h[6], h[7]}})}; r.diag[0] = r.diag[1] = 2; break;
    // axis x: left (0 3 7 4) to right (1 2 6 5)
    case 4: r.cells = {wedge({{h[0], h[3], h[7], h[1], h[2], h[6]}}), wedge({{h[0], h[7], h[4], h[1], h[6], h[5]}})}; r.diag[4] = r.diag[5] = 1; break;
    case 5: r.cells = {wedge({{h[0], h[3], h[4], h[1], h[2], h[5]}}), wedge({{h[3], h[7], h[4], h[2], h[6], h[5]}})}; r.diag[4] = r.diag[5] = 2; break;
    // axis y: front (0 1 5 4) to back (3 2 6 7)
    case 6: r.cells = {wedge({{h[0], h[1], h[5], h[3], h[2], h[6]}}), wedge({{h[0], h[5], h[4], h[3], h[6], h[7]}})}; r.diag[2] = r.diag[3] = 1; break;
    case 7: r.cells = {wedge({{h[0], h[1], h[4], h[3], h[2], h[7]}}), wedge({{h[1], h[5], h[4], h[2], h[6], h[7]}})}; r.diag[2] = r.diag[3] = 2; break;
    case 8:
        r.cells = {pyr(h[0], h[1], h[2], h[3], ce), pyr(h[4], h[5], h[6], h[7], ce), pyr(h[0], h[1], h[5], h[4], ce), pyr(h[3], h[2], h[6], h[7], ce), pyr(h[0], h[3], h[7], h[4], ce), pyr(h[1], h[2], h[6], h[5], ce)};
        break;
    case 9: // corner set {0,2,5,7} forms the inner tetrahedron
        r.cells = {tet(h[0], h[2], h[5], h[7]), tet(h[1], h[0], h[2], h[5]), tet(h[3], h[0], h[2], h[7]), tet(h[4], h[0], h[5], h[7]), tet(h[6], h[2], h[5], h[7])};
        r.diag = {{1, 2, 1, 2, 2, 1}};  // bottom 0-2, top 5-7, front 0-5, back 2-7, left 0-7, right 2-5
        r.diag[3] = 2; r.diag[4] = 1; r.diag[5] = 2;
        break;
    case 10: // corner set {1,3,4,6}
        r.cells = {tet(h[1], h[3], h[4], h[6]), tet(h[0], h[1], h[3], h[4]), tet(h[2], h[1], h[3], h[6]), tet(h[5], h[1], h[4], h[6]), tet(h[7], h[3], h[4], h[6])};
        r.diag = {{2, 1, 2, 1, 2, 1}};
        break;
    default: break;
    }
    return r;
}
inline void gridVerts3D(int nx, int ny, int nz, int warp, std::vector<Coord>& X, std::vector<std::array<int, 8>>& hexes, std::vector<int>& centre) {
    auto P = [&](double i, double j, double k) {
        double x = 2 * i, y = 2 * j, z = 2 * k;
        if (warp == 1) { x = 3 * i + j; y = 2 * j + k * 0.5; z = 4 * k - i; }           // affine: faces stay planar
        if (warp == 2) { x = 2 * i - 5; y = 3 * j + 0.5 * i - 2; z = 2.5 * k + 100; }
        return Coord{{x, y, z, 0, 0}};
    };
    for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) X.push_back(P(i, j, k));
    auto id = [&](int i, int j, int k) { return (k * (ny + 1) + j) * (nx + 1) + i; };
    for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
        hexes.push_back({{id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k), id(i, j, k + 1), id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1)}});
        centre.push_back((int)X.size());
        Coord c{};
        for (int v : hexes.back()) for (int d = 0; d < 3; d++) c[d] += X[v][d] / 8;
        X.push_back(c);
    }
}
// returns false when neighbouring cubes split their common face in different ways and `hanging` is off, or the
// diagonals differ; with `hanging` a quadrilateral next to a split one is split too and the cell becomes a polyhedron
inline bool grid3D(int nx, int ny, int nz, const std::vector<int>& opt, int warp, bool hanging, AbsMesh& out) {
    std::vector<Coord> X; std::vector<std::array<int, 8>> h; std::vector<int> ce;
    gridVerts3D(nx, ny, nz, warp, X, h, ce);
    std::map<std::set<int>, int> diagOf;   // cube face (vertex set) -> wanted diagonal, as one of its end vertices pairs
    std::map<std::set<int>, std::pair<int, int>> dv;
    static const int CF[6][4] = {{0, 1, 2, 3}, {4, 5, 6, 7}, {0, 1, 5, 4}, {3, 2, 6, 7}, {0, 3, 7, 4}, {1, 2, 6, 5}};
    std::vector<CubeSplit> sp;
    std::map<std::set<int>, int> seenNone;
    for (size_t k = 0; k < h.size(); k++) {
        sp.push_back(cubeCells(opt[k], h[k], ce[k]));
        if (opt[k] == 0) continue;
        for (int f = 0; f < 6; f++) {
            std::set<int> key; for (int v : CF[f]) key.insert(h[k][v]);
            if (sp[k].diag[f] == 0) { seenNone[key]++; continue; }
            std::pair<int, int> d = sp[k].diag[f] == 1 ? std::minmax(h[k][CF[f][0]], h[k][CF[f][2]]) : std::minmax(h[k][CF[f][1]], h[k][CF[f][3]]);
            auto it = dv.find(key);
            if (it != dv.end() && it->second != d) return false;
            dv[key] = d;
        }
    }
    for (auto& kv : dv) if (seenNone.count(kv.first) && !hanging) return false;
    std::vector<CellDesc> cells;
    for (size_t k = 0; k < h.size(); k++) for (auto c : sp[k].cells) {
        std::vector<std::vector<int>> loops;
        bool changed = false;
        for (auto& lp : c.loops) {
            std::set<int> key(lp.begin(), lp.end());
            auto it = dv.find(key);
            if (lp.size() == 4 && it != dv.end()) {
                changed = true;
                int s = 0;
                while (lp[s] != it->second.first && lp[s] != it->second.second) s++;
                loops.push_back({lp[s], lp[(s + 1) % 4], lp[(s + 2) % 4]});
                loops.push_back({lp[s], lp[(s + 2) % 4], lp[(s + 3) % 4]});
            } else loops.push_back(lp);
        }
        c.loops = loops;
        if (changed) c.type = C_POLY;
        cells.push_back(c);
    }
    out = from3D(X, cells);
    return out.finish();
}

// ---------------------------------------------------------------- any dimension
// cubical complex of a grid in D dimensions, only the cells of `present`
inline AbsMesh cubical(int D, const std::vector<int>& size, const std::vector<int>& present) {
    AbsMesh m; m.init(D);
    typedef std::vector<int> Key;      // 2*D+1 coordinates on the doubled grid: odd = extended in that axis
    std::vector<std::map<Key, int>> id(D + 1);
    std::function<int(const Key&)> add = [&](const Key& k) -> int {
        int d = 0; for (int v : k) d += v & 1;
        auto it = id[d].find(k);
        if (it != id[d].end()) return it->second;
        std::vector<int> s;
        if (d > 0) for (int a = 0; a < D; a++) if (k[a] & 1) for (int o : {-1, 1}) { Key q = k; q[a] += o; s.push_back(add(q)); }
        int n;
        if (d == 0) { n = (int)m.X.size(); Coord c{}; for (int a = 0; a < D; a++) c[a] = k[a]; m.X.push_back(c); }
        else { n = (int)m.sub[d].size(); m.sub[d].push_back(s); }
        id[d][k] = n;
        return n;
    };
    int total = 1; for (int s : size) total *= s;
    for (int c = 0; c < total; c++) {
        if (!present[c]) continue;
        Key k(D); int r = c;
        for (int a = 0; a < D; a++) { k[a] = 2 * (r % size[a]) + 1; r /= size[a]; }
        add(k);
    }
    m.finish();
    return m;
}
// the complex of a list of D-simplices on given points
inline AbsMesh simplicial(int D, const std::vector<Coord>& X, const std::vector<std::vector<int>>& cells) {
    AbsMesh m; m.init(D); m.X = X;
    std::vector<std::map<std::vector<int>, int>> id(D + 1);
    std::function<int(std::vector<int>)> add = [&](std::vector<int> v) -> int {
        std::sort(v.begin(), v.end());
        int d = (int)v.size() - 1;
        if (d == 0) return v[0];
        auto it = id[d].find(v);
        if (it != id[d].end()) return it->second;
        std::vector<int> s;
        for (size_t k = 0; k < v.size(); k++) { std::vector<int> w = v; w.erase(w.begin() + k); s.push_back(add(w)); }
        int n = (int)m.sub[d].size();
        m.sub[d].push_back(s);
        id[d][v] = n;
        return n;
    };
    for (auto& c : cells) add(c);
    m.finish();
    return m;
}

// ---------------------------------------------------------------- encodings of one abstract mesh
inline void swapLR(AbsMesh& m, int f) { std::swap(m.left[f], m.right[f]); }
inline void flipEdge(AbsMesh& m, int e) { std::swap(m.sub[1][e][0], m.sub[1][e][1]); }
inline void rotateList(std::vector<int>& l, int k) { std::rotate(l.begin(), l.begin() + (k % l.size()), l.end()); }
inline void reverseList(std::vector<int>& l) { std::reverse(l.begin(), l.end()); }
// renumber elements of dimension d: new index of old i is p[i]
inline void renumber(AbsMesh& m, int d, const std::vector<int>& p) {
    if (d == 0) { auto X = m.X; for (size_t i = 0; i < p.size(); i++) m.X[p[i]] = X[i]; for (auto& c : m.cellVerts) for (int& v : c) v = p[v]; }
    else { auto S = m.sub[d]; for (size_t i = 0; i < p.size(); i++) m.sub[d][p[i]] = S[i]; }
    if (d < m.D) for (auto& e : m.sub[d + 1]) for (int& s : e) s = p[s];
    if (d == m.D - 1) { auto l = m.left, r = m.right; for (size_t i = 0; i < p.size(); i++) { m.left[p[i]] = l[i]; m.right[p[i]] = r[i]; } }
    if (d == m.D) {
        for (int& v : m.left) if (v >= 0) v = p[v];
        for (int& v : m.right) if (v >= 0) v = p[v];
        if (!m.type.empty()) { auto t = m.type; auto cv = m.cellVerts; for (size_t i = 0; i < p.size(); i++) { m.type[p[i]] = t[i]; if (!cv.empty()) m.cellVerts[p[i]] = cv[i]; } }
    }
}
inline std::vector<int> permOf(int n, int kind) {   // a few fixed permutations: 0 identity, 1 reversal, 2 rotation, 3 odd/even interleave
    std::vector<int> p(n);
    for (int i = 0; i < n; i++) p[i] = kind == 0 ? i : kind == 1 ? n - 1 - i : kind == 2 ? (i + 1) % n : (i % 2 ? i / 2 : (n / 2) + i / 2);
    if (kind == 3) { std::vector<int> q; for (int i = 1; i < n; i += 2) q.push_back(i); for (int i = 0; i < n; i += 2) q.push_back(i); for (int i = 0; i < n; i++) p[q[i]] = i; }
    return p;
}

// The standard small menu of encodings (used when a full enumeration of encodings is not the point)
constexpr int N_ENC = 6;
inline void encode(AbsMesh& m, int kind) {
    int D = m.D;
    switch (kind) {
    case 1: for (int f = 0; f < m.n(D - 1); f++) swapLR(m, f); for (auto& l : m.sub[D]) rotateList(l, 1); break;
    case 2: for (int e = 0; e < m.n(1); e++) flipEdge(m, e); for (auto& l : m.sub[D]) reverseList(l); break;
    case 3: for (int f = 0; f < m.n(D - 1); f += 2) swapLR(m, f); for (int e = 0; e < m.n(1); e += 3) flipEdge(m, e); for (size_t c = 0; c < m.sub[D].size(); c++) rotateList(m.sub[D][c], (int)c + 2); break;
    case 4: for (int d = 0; d <= D; d++) renumber(m, d, permOf(m.n(d), 1)); for (auto& l : m.sub[2]) rotateList(l, 1); break;
    case 5: for (int d = 0; d <= D; d++) renumber(m, d, permOf(m.n(d), d % 2 ? 3 : 2)); for (int f = 1; f < m.n(D - 1); f += 2) swapLR(m, f); for (size_t i = 0; i < m.sub[D].size(); i++) if (i % 2) reverseList(m.sub[D][i]); break;
    default: break;
    }
}

// ---------------------------------------------------------------- building the real mesh
template <unsigned int d, unsigned int D, class Mesh> struct FillDim {
    static void fill(Mesh& m, const AbsMesh& a) {
        using Idx = typename std::decay<decltype(m.getVertices()[0].getIndex())>::type;
        m.template getElements<d>().resize(a.n(d));
        for (int i = 0; i < a.n(d); i++) {
            auto& e = m.template getElements<d>()[i];
            e.setIndex(Idx(i));
            for (int s : a.sub[d][i]) e.getSubelements().addSubelement(Idx(s));
        }
        FillDim<d + 1, D, Mesh>::fill(m, a);
    }
};
template <unsigned int D, class Mesh> struct FillDim<D, D, Mesh> { static void fill(Mesh&, const AbsMesh&) {} };

template <unsigned int D, class Idx, class Real, unsigned int... R>
void build(UnstructuredMesh<D, Idx, Real, R...>& m, const AbsMesh& a) {
    using Mesh = UnstructuredMesh<D, Idx, Real, R...>;
    const Idx INV = std::numeric_limits<Idx>::max();
    m.getVertices().resize(a.n(0));
    for (int i = 0; i < a.n(0); i++) { m.getVertices()[i].setIndex(Idx(i)); for (unsigned d = 0; d < D; d++) m.getVertices()[i][d] = Real(a.X[i][d]); }
    m.getEdges().resize(a.n(1));
    for (int i = 0; i < a.n(1); i++) {
        m.getEdges()[i].setIndex(Idx(i));
        m.getEdges()[i].setVertexAIndex(Idx(a.sub[1][i][0]));
        m.getEdges()[i].setVertexBIndex(Idx(a.sub[1][i][1]));
    }
    FillDim<2, D, Mesh>::fill(m, a);
    for (int f = 0; f < a.n(D - 1); f++) {
        m.getFaces()[f].setCellLeftIndex(a.left[f] < 0 ? INV : Idx(a.left[f]));
        m.getFaces()[f].setCellRightIndex(a.right[f] < 0 ? INV : Idx(a.right[f]));
    }
    m.getCells().resize(a.n(D));
    for (int c = 0; c < a.n(D); c++) {
        m.getCells()[c].setIndex(Idx(c));
        auto& l = a.sub[D][c];
        m.getCells()[c].setBoundaryElementIndex(Idx(l[0]));
        for (size_t k = 0; k < l.size(); k++) {
            int nx = l[(k + 1) % l.size()];
            if (a.left[l[k]] == c) m.getFaces()[l[k]].setNextBElemWRTCL(Idx(nx));
            else m.getFaces()[l[k]].setNextBElemWRTCR(Idx(nx));
        }
    }
    m.updateSignature();
}

// ---------------------------------------------------------------- geometry reference (own arithmetic)
inline Coord sub3(const Coord& a, const Coord& b) { Coord r{}; for (int i = 0; i < 5; i++) r[i] = a[i] - b[i]; return r; }
inline double dotC(const Coord& a, const Coord& b) { double s = 0; for (int i = 0; i < 5; i++) s += a[i] * b[i]; return s; }
inline Coord crossC(const Coord& a, const Coord& b) { return Coord{{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0], 0, 0}}; }
// ordered vertex loop of a closed chain of edges
inline std::vector<int> loopOf(const AbsMesh& m, const std::vector<int>& edges) {
    std::vector<int> lp;
    if (edges.empty()) return lp;
    std::set<int> left(edges.begin() + 1, edges.end());
    int start = m.sub[1][edges[0]][0], cur = m.sub[1][edges[0]][1];
    lp.push_back(start);
    while (cur != start) {
        lp.push_back(cur);
        bool ok = false;
        for (int e : left) {
            if (m.sub[1][e][0] == cur) { cur = m.sub[1][e][1]; left.erase(e); ok = true; break; }
            if (m.sub[1][e][1] == cur) { cur = m.sub[1][e][0]; left.erase(e); ok = true; break; }
        }
        if (!ok) return {};
    }
    return lp;
}
inline double polygonArea2D(const AbsMesh& m, const std::vector<int>& loop) {
    double s = 0;
    for (size_t k = 0; k < loop.size(); k++) { auto& a = m.X[loop[k]]; auto& b = m.X[loop[(k + 1) % loop.size()]]; s += a[0] * b[1] - a[1] * b[0]; }
    return s / 2;   // signed
}
// vector area of a 3D polygon
inline Coord vectorArea(const AbsMesh& m, const std::vector<int>& loop) {
    Coord s{};
    for (size_t k = 1; k + 1 < loop.size(); k++) {
        Coord c = crossC(sub3(m.X[loop[k]], m.X[loop[0]]), sub3(m.X[loop[k + 1]], m.X[loop[0]]));
        for (int i = 0; i < 3; i++) s[i] += c[i] / 2;
    }
    return s;
}

} // namespace mg
