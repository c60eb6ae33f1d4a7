// File formats, written and parsed here without GTMesh, and the comparison of a real mesh with the model.
#pragma once
#include "meshgen.h"

namespace mg {

inline int vtkType(CellType t) { switch (t) { case C_TRI: return 5; case C_QUAD: return 9; case C_POLYGON: return 7; case C_TET: return 10; case C_HEX: return 12; case C_WEDGE: return 13; case C_PYR: return 14; default: return 42; } }

struct TextStyle { int kind = 0; };   // 0 as GTMesh writes it, 1 dense / float / one cell per line, 2 generous white space and trailing data sections, 3 CR LF, 4 a token per line, 5 one line
inline std::string num(double v) { std::ostringstream o; o << std::setprecision(17) << v; return o.str(); }

// legacy ASCII VTK text of a mesh whose cells all have a VTK type
inline std::string vtkText(const AbsMesh& a, int style = 0, const std::vector<int>& types = {}, const std::vector<std::vector<int>>& cv = {}) {
    std::ostringstream o;
    auto& cells = cv.empty() ? a.cellVerts : cv;
    o << (style == 1 ? "# vtk DataFile Version 3.0\n\n" : "# vtk DataFile Version 2.0\nsome title\n") << "ASCII\nDATASET UNSTRUCTURED_GRID\n";
    o << "POINTS " << a.n(0) << (style == 1 ? " float\n" : " double\n");
    for (auto& x : a.X) {
        if (style == 2) o << "  ";
        for (int d = 0; d < 3; d++) o << (d ? (style == 2 ? "\t" : " ") : "") << (d < a.D ? num(x[d]) : std::string(style == 1 ? "0" : "0.0"));
        o << (style == 2 ? " \n" : "\n");
    }
    if (style != 1) o << "\n";
    size_t tot = 0; for (auto& c : cells) tot += c.size() + 1;
    o << "CELLS " << cells.size() << " " << tot << "\n";
    for (auto& c : cells) { o << c.size(); for (int v : c) o << (style == 2 ? "  " : " ") << v; o << (style == 2 ? " \n" : "\n"); }
    if (style != 1) o << "\n";
    o << "CELL_TYPES " << cells.size() << "\n";
    for (size_t c = 0; c < cells.size(); c++) o << (types.empty() ? vtkType(a.type[c]) : types[c]) << (style == 2 ? " " : "\n");
    if (style == 2) { o << "\n\nCELL_DATA " << cells.size() << "\nSCALARS w double 1\nLOOKUP_TABLE default\n"; for (size_t c = 0; c < cells.size(); c++) o << c << " "; o << "\n"; }
    if (style == 3) {        // a file with CR LF line ends
        std::string t = o.str(), r;
        for (char ch : t) { if (ch == '\n') r += '\r'; r += ch; }
        return r;
    }
    if (style == 4 || style == 5) {   // one token per line, or all of them on one line (after the title)
        std::string t = o.str();
        size_t p = t.find('\n', t.find('\n') + 1) + 1;
        std::istringstream in(t.substr(p));
        std::string r = t.substr(0, p), w;
        while (in >> w) r += w + (style == 4 ? "\n" : " ");
        return r;
    }
    return o.str();
}
// FPMA text
inline std::string fpmaText(const AbsMesh& a, const std::vector<std::vector<int>>& faceLoops, int style = 0) {
    std::ostringstream o;
    const char* nl = style == 2 ? " \n" : "\n";
    o << a.n(0) << nl;
    for (auto& x : a.X) o << num(x[0]) << ' ' << num(x[1]) << ' ' << num(x[2]) << nl;
    if (style == 0) o << "\n";
    o << a.n(2) << nl;
    for (auto& l : faceLoops) { o << l.size(); for (int v : l) o << ' ' << v; o << nl; }
    o << a.n(3) << nl;
    for (auto& l : a.sub[3]) { o << l.size(); for (int f : l) o << ' ' << f; o << nl; }
    if (style != 1) o << 0;
    return o.str();
}

struct VtkDoc {
    bool ok = false; std::string err, title;
    std::vector<std::array<double, 3>> P;
    std::vector<std::vector<long long>> cells;
    std::vector<int> types;
    struct Col { std::string kind, name; std::vector<double> v; };
    long long cellData = -1;
    std::vector<Col> cols;
};
// a strict parser of legacy ASCII unstructured grids
inline VtkDoc parseVtk(const std::string& s, bool header) {
    VtkDoc d;
    std::istringstream in(s);
    std::string l, w;
    if (header) {
        std::getline(in, l); if (l.compare(0, 22, "# vtk DataFile Version") != 0) { d.err = "bad first line"; return d; }
        std::getline(in, d.title);
        std::getline(in, l); if (l != "ASCII") { d.err = "ASCII expected, got " + l; return d; }
        std::getline(in, l); if (l != "DATASET UNSTRUCTURED_GRID") { d.err = "DATASET line expected, got " + l; return d; }
    }
    long long n, t;
    if (!(in >> w >> n) || w != "POINTS" || n < 0) { d.err = "POINTS expected"; return d; }
    in >> w; if (w != "double" && w != "float") { d.err = "point type expected"; return d; }
    for (long long i = 0; i < n; i++) { std::array<double, 3> p; if (!(in >> p[0] >> p[1] >> p[2])) { d.err = "point " + std::to_string(i) + " unreadable"; return d; } d.P.push_back(p); }
    if (!(in >> w >> n >> t) || w != "CELLS") { d.err = "CELLS expected, got " + w; return d; }
    long long sum = 0;
    for (long long i = 0; i < n; i++) {
        long long k; if (!(in >> k) || k < 0 || k > 100000) { d.err = "cell size"; return d; }
        std::vector<long long> c(k);
        for (auto& v : c) { if (!(in >> v) || v < 0 || v >= (long long)d.P.size()) { d.err = "cell " + std::to_string(i) + " has a bad vertex index"; return d; } }
        sum += k + 1;
        d.cells.push_back(c);
    }
    if (sum != t) { d.err = "CELLS announces " + std::to_string(t) + " numbers, " + std::to_string(sum) + " written"; return d; }
    if (!(in >> w >> n) || w != "CELL_TYPES" || n != (long long)d.cells.size()) { d.err = "CELL_TYPES expected for every cell"; return d; }
    for (long long i = 0; i < n; i++) { int k; if (!(in >> k)) { d.err = "cell type"; return d; } d.types.push_back(k); }
    if (in >> w) {
        if (w != "CELL_DATA" || !(in >> d.cellData)) { d.err = "unexpected text after the cell types: " + w; return d; }
        while (in >> w) {
            VtkDoc::Col c; c.kind = w;
            int per = 0;
            std::string ty, ex;
            if (w == "SCALARS") { in >> c.name >> ty; std::getline(in, ex); in >> w; if (w != "LOOKUP_TABLE") { d.err = "LOOKUP_TABLE expected"; return d; } in >> w; per = 1; }
            else if (w == "VECTORS") { in >> c.name >> ty; per = 3; }
            else if (w == "TENSORS") { in >> c.name >> ty; per = 9; }
            else { d.err = "unknown data section " + w; return d; }
            for (long long i = 0; i < per * d.cellData; i++) { double v; if (!(in >> v)) { d.err = "column " + c.name + " is too short"; return d; } c.v.push_back(v); }
            d.cols.push_back(c);
        }
    }
    d.ok = true;
    return d;
}
struct FpmaDoc { bool ok = false; std::string err; std::vector<std::array<double, 3>> P; std::vector<std::vector<long long>> faces, cells; };
inline FpmaDoc parseFpma(const std::string& s) {
    FpmaDoc d;
    std::istringstream in(s);
    long long n;
    if (!(in >> n)) { d.err = "vertex count"; return d; }
    for (long long i = 0; i < n; i++) { std::array<double, 3> p; if (!(in >> p[0] >> p[1] >> p[2])) { d.err = "vertex"; return d; } d.P.push_back(p); }
    for (int part = 0; part < 2; part++) {
        if (!(in >> n)) { d.err = part ? "cell count" : "face count"; return d; }
        for (long long i = 0; i < n; i++) {
            long long k; if (!(in >> k) || k < 0 || k > 100000) { d.err = "list length"; return d; }
            std::vector<long long> c(k);
            for (auto& v : c) if (!(in >> v) || v < 0 || v >= (long long)(part ? d.faces.size() : d.P.size())) { d.err = std::string(part ? "cell " : "face ") + std::to_string(i) + " has a bad index"; return d; }
            (part ? d.cells : d.faces).push_back(c);
        }
    }
    d.ok = true;
    return d;
}

// faces of a VTK cell by vertex set, from its vertex order (own tables)
inline std::vector<std::vector<int>> vtkFaces(int type, const std::vector<int>& v) {
    switch (type) {
    case 10: return {{v[0], v[1], v[2]}, {v[0], v[1], v[3]}, {v[1], v[2], v[3]}, {v[2], v[0], v[3]}};
    case 12: return {{v[0], v[1], v[2], v[3]}, {v[4], v[5], v[6], v[7]}, {v[0], v[1], v[5], v[4]}, {v[1], v[2], v[6], v[5]}, {v[2], v[3], v[7], v[6]}, {v[3], v[0], v[4], v[7]}};
    case 11: return {{v[0], v[1], v[3], v[2]}, {v[4], v[5], v[7], v[6]}, {v[0], v[1], v[5], v[4]}, {v[1], v[3], v[7], v[5]}, {v[3], v[2], v[6], v[7]}, {v[2], v[0], v[4], v[6]}};
    case 13: return {{v[0], v[1], v[2]}, {v[3], v[4], v[5]}, {v[0], v[1], v[4], v[3]}, {v[1], v[2], v[5], v[4]}, {v[2], v[0], v[3], v[5]}};
    case 14: return {{v[0], v[1], v[2], v[3]}, {v[0], v[1], v[4]}, {v[1], v[2], v[4]}, {v[2], v[3], v[4]}, {v[3], v[0], v[4]}};
    }
    return {};
}

inline std::string strOf(const std::vector<int>& v) { std::string s = "["; for (int x : v) s += std::to_string(x) + ","; return s + "]"; }
inline std::string strOfS(const std::set<int>& v) { std::string s = "{"; for (int x : v) s += std::to_string(x) + ","; return s + "}"; }

using EdgeKey = std::pair<int, int>;
inline EdgeKey edgeKey(const AbsMesh& a, int e) { return std::minmax(a.sub[1][e][0], a.sub[1][e][1]); }
using FaceKey = std::set<EdgeKey>;

// edges of face f by vertex pairs
template <class Mesh> typename std::enable_if<Mesh::meshDimension() == 2>::type faceEdges(const Mesh&, int f, const std::vector<EdgeKey>& keyOf, FaceKey& k, size_t& cnt) { k.insert(keyOf[f]); cnt = 1; }
template <class Mesh> typename std::enable_if<(Mesh::meshDimension() > 2)>::type faceEdges(const Mesh& m, int f, const std::vector<EdgeKey>& keyOf, FaceKey& k, size_t& cnt) {
    for (auto& s : m.getFaces()[f].getSubelements()) { size_t e = (size_t)s; if (e < keyOf.size()) k.insert(keyOf[e]); else k.insert({-1, -1}); cnt++; }
}

// Does the real mesh hold the complex `a`?  Vertices and cells have the model's numbering; edges (and in 3D faces)
// are matched by their vertices.  keepFaces: faces keep the model's numbering and cells their boundary order.
template <class Mesh> void compareComplex(mc::Case& c, const Mesh& m, const AbsMesh& a, const std::string& what, bool keepFaces = false, double tol = 0) {
    constexpr int D = Mesh::meshDimension();
    using Idx = typename std::decay<decltype(m.getVertices()[0].getIndex())>::type;
    const Idx INV = std::numeric_limits<Idx>::max();
    auto F = [&](const std::string& key, const std::string& msg) { c.fail(key, what + ": " + msg + " | model " + a.full().substr(0, 6000)); };
    if ((int)m.getVertices().size() != a.n(0)) F("vertices", "vertex count " + std::to_string(m.getVertices().size()) + " want " + std::to_string(a.n(0)));
    for (int i = 0; i < a.n(0); i++) {
        if (m.getVertices()[i].getIndex() != (Idx)i) F("vertex-index", "vertex " + std::to_string(i) + " has index " + std::to_string(m.getVertices()[i].getIndex()));
        for (int d = 0; d < D; d++) {
            double g = m.getVertices()[i][d], w = a.X[i][d];
            if (!(g == w || std::fabs(g - w) <= tol * std::max(1.0, std::fabs(w)))) F("coordinates", "vertex " + std::to_string(i) + " coordinate " + std::to_string(d) + " is " + num(g) + " want " + num(w));
        }
    }
    // edges
    std::map<EdgeKey, int> want, got;
    for (int e = 0; e < a.n(1); e++) want[edgeKey(a, e)] = e;
    std::vector<EdgeKey> keyOf;
    for (size_t e = 0; e < m.getEdges().size(); e++) {
        auto& ed = m.getEdges()[e];
        if (ed.getIndex() != (Idx)e) F("edge-index", "edge " + std::to_string(e) + " has index " + std::to_string(ed.getIndex()));
        EdgeKey k = std::minmax((int)ed.getVertexAIndex(), (int)ed.getVertexBIndex());
        if (!want.count(k)) F("edge-extra", "edge " + std::to_string(k.first) + "-" + std::to_string(k.second) + " is not an edge of any cell");
        if (got.count(k)) F("edge-duplicate", "edge " + std::to_string(k.first) + "-" + std::to_string(k.second) + " exists twice");
        got[k] = (int)e;
        keyOf.push_back(k);
    }
    for (auto& k : want) if (!got.count(k.first)) F("edge-missing", "edge " + std::to_string(k.first.first) + "-" + std::to_string(k.first.second) + " is missing");
    // faces of the real mesh -> model faces
    int nf = (int)m.getFaces().size();
    if (nf != a.n(D - 1)) F("face-count", "number of faces is " + std::to_string(nf) + " want " + std::to_string(a.n(D - 1)));
    std::vector<int> toModel(nf, -1);
    std::map<FaceKey, int> wantF;
    for (int f = 0; f < a.n(D - 1); f++) {
        FaceKey k;
        if (D == 2) k.insert(edgeKey(a, f)); else for (int e : a.sub[D - 1][f]) k.insert(edgeKey(a, e));
        wantF[k] = f;
    }
    std::vector<char> seen(a.n(D - 1), 0);
    for (int f = 0; f < nf; f++) {
        if (m.getFaces()[f].getIndex() != (Idx)f) F("face-index", "face " + std::to_string(f) + " has index " + std::to_string(m.getFaces()[f].getIndex()));
        FaceKey k;
        size_t cnt = 0;
        faceEdges(m, f, keyOf, k, cnt);
        if (cnt != k.size()) F("face-repeats", "face " + std::to_string(f) + " lists an edge twice");
        auto it = wantF.find(k);
        if (it == wantF.end()) F("face-extra", "face " + std::to_string(f) + " is not a face of any cell");
        if (seen[it->second]++) F("face-duplicate", "face " + std::to_string(it->second) + " of the model exists twice");
        toModel[f] = it->second;
        if (keepFaces && it->second != f) F("face-order", "face " + std::to_string(it->second) + " became number " + std::to_string(f));
    }
    // cells: closed boundary lists
    if ((int)m.getCells().size() != a.n(D)) F("cell-count", "number of cells is " + std::to_string(m.getCells().size()) + " want " + std::to_string(a.n(D)));
    std::vector<std::set<int>> cellsOf(nf);
    for (int q = 0; q < a.n(D); q++) {
        if (m.getCells()[q].getIndex() != (Idx)q) F("cell-index", "cell " + std::to_string(q) + " has index " + std::to_string(m.getCells()[q].getIndex()));
        std::vector<int> list;
        Idx start = m.getCells()[q].getBoundaryElementIndex(), cur = start;
        do {
            if (cur >= (Idx)nf) F("boundary-broken", "boundary list of cell " + std::to_string(q) + " reaches " + std::to_string(cur));
            auto& fa = m.getFaces()[cur];
            if (fa.getCellLeftIndex() != (Idx)q && fa.getCellRightIndex() != (Idx)q) F("boundary-foreign", "boundary list of cell " + std::to_string(q) + " contains face " + std::to_string(cur) + ", which does not name the cell");
            list.push_back(toModel[cur]);
            if ((int)list.size() > nf) F("boundary-open", "boundary list of cell " + std::to_string(q) + " does not close");
            cellsOf[cur].insert(q);
            cur = fa.getNextBElem((Idx)q);
        } while (cur != start);
        std::set<int> gs(list.begin(), list.end()), ws(a.sub[D][q].begin(), a.sub[D][q].end());
        if (gs != ws || list.size() != ws.size()) F("cell-faces", "cell " + std::to_string(q) + " has faces " + strOf(list) + " want " + strOfS(ws));
        if (keepFaces && list != a.sub[D][q]) F("cell-face-order", "cell " + std::to_string(q) + " lists faces " + strOf(list) + " want " + strOf(a.sub[D][q]));
    }
    for (int f = 0; f < nf; f++) {
        Idx l = m.getFaces()[f].getCellLeftIndex(), r = m.getFaces()[f].getCellRightIndex();
        std::set<int> s;
        if (l != INV) s.insert((int)l);
        if (r != INV) s.insert((int)r);
        std::set<int> w;
        int mf = toModel[f];
        if (a.left[mf] >= 0) w.insert(a.left[mf]);
        if (a.right[mf] >= 0) w.insert(a.right[mf]);
        if (s != w) F("left-right", "face " + std::to_string(f) + " names cells " + strOfS(s) + " want " + strOfS(w));
    }
    c.out(a.digest());
}
// native cell types
template <int D> struct Native;
template <> struct Native<2> { static MeshNativeType<2>::ElementType of(CellType t) { return t == C_TRI ? MeshNativeType<2>::TRIANGLE : t == C_QUAD ? MeshNativeType<2>::QUAD : MeshNativeType<2>::POLYGON; } };
template <> struct Native<3> { static MeshNativeType<3>::ElementType of(CellType t) { return t == C_TET ? MeshNativeType<3>::TETRA : t == C_HEX ? MeshNativeType<3>::HEXAHEDRON : t == C_WEDGE ? MeshNativeType<3>::WEDGE : t == C_PYR ? MeshNativeType<3>::PYRAMID : MeshNativeType<3>::POLYHEDRON; } };

// all vertex orders of a VTK cell that describe the same cell (symmetries, including mirrored ones when `mirror`)
inline std::vector<std::vector<int>> vtkOrders(CellType t, const std::vector<int>& v, bool mirror) {
    std::vector<std::vector<int>> r;
    int n = (int)v.size();
    if (t == C_TRI || t == C_QUAD || t == C_POLYGON) {
        for (int m = 0; m < (mirror ? 2 : 1); m++) for (int k = 0; k < n; k++) { std::vector<int> w = v; if (m) std::reverse(w.begin(), w.end()); std::rotate(w.begin(), w.begin() + k, w.end()); r.push_back(w); }
        return r;
    }
    // the symmetries of the cell type, computed once
    static std::map<int, std::vector<std::vector<int>>> cache;
    auto& perms = cache[vtkType(t)];
    if (perms.empty()) {
        int vt = vtkType(t);
        auto edgesOf = [&](const std::vector<int>& w) { std::set<EdgeKey> s; for (auto& f : vtkFaces(vt, w)) for (size_t k = 0; k < f.size(); k++) s.insert(std::minmax(f[k], f[(k + 1) % f.size()])); return s; };
        auto facesOf = [&](const std::vector<int>& w) { std::set<std::set<int>> s; for (auto& f : vtkFaces(vt, w)) s.insert(std::set<int>(f.begin(), f.end())); return s; };
        std::vector<int> p(n);
        for (int i = 0; i < n; i++) p[i] = i;
        auto e0 = edgesOf(p); auto f0 = facesOf(p);
        do { if (edgesOf(p) == e0 && facesOf(p) == f0) perms.push_back(p); } while (std::next_permutation(p.begin(), p.end()));
    }
    for (auto& p : perms) { std::vector<int> w(n); for (int i = 0; i < n; i++) w[i] = v[p[i]]; r.push_back(w); }
    return r;
}

} // namespace mg

// pairs of different edges that a careless key would merge: equal concatenated decimal numbers, a*K+b, a+b, a*b, a^b
inline std::vector<std::array<int, 4>> collidingEdges(int limit, bool big) {
    std::vector<std::array<int, 4>> r{{{1, 4, 2, 3}}, {{1, 6, 2, 3}}, {{1, 2, 4, 7}}, {{0, 5, 1, 5}}, {{3, 8, 3, 9}}};
    std::map<std::string, std::vector<std::pair<int, int>>> by;
    for (int a = 0; a < limit; a++) for (int b = a + 1; b < limit; b++) {
        if (limit > 200 && (a > 99 || b < 100) && !(a < 100 && b > 10)) continue;
        by[std::to_string(a) + std::to_string(b)].push_back({a, b});
        by["r" + std::to_string(b) + std::to_string(a)].push_back({a, b});
    }
    for (auto& kv : by) for (size_t i = 0; i < kv.second.size(); i++) for (size_t j = 0; j < i; j++) r.push_back({{kv.second[j].first, kv.second[j].second, kv.second[i].first, kv.second[i].second}});
    std::vector<int> K{16, 32, 64, 100, 128, 256, 1000, 1024};
    if (big) for (int k : {4096, 10000, 32768, 65536}) K.push_back(k);
    for (int k : K) { r.push_back({{0, k + 2, 1, 2}}); r.push_back({{2, k + 1, 1, k + k + 1}}); }
    return r;
}
// two simplices of dimension D, disjoint where possible, with the given edges
inline std::vector<std::vector<int>> cellsWithEdges(int D, const std::array<int, 4>& e, int& nVerts) {
    std::set<int> used(e.begin(), e.end());
    int next = 0;
    std::vector<std::vector<int>> cv{{e[0], e[1]}, {e[2], e[3]}};
    for (auto& c : cv) while ((int)c.size() <= D) { while (used.count(next)) next++; used.insert(next); c.push_back(next); }
    nVerts = *used.rbegin() + 1;
    return cv;
}
