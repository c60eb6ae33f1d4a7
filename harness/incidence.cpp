// M01 traversal, M02 connections / neighbourhood, M03 colouring: every mesh of the families below in every
// encoding of the menu, all pairs (and triples) of dimensions, against the reference incidence model.
//   -DPROP=1|2|3  -DMD=<dimension>  -DMR=<reserve list>  -DIDX=<index type>
#include "meshgen.h"
#include "sizes.h"
using namespace mg;
#ifndef H_IDX
#define H_IDX size_t
#endif
#ifdef H_RES
using Mesh = UnstructuredMesh<H_DIM, H_IDX, double, H_RES>;
#else
using Mesh = UnstructuredMesh<H_DIM, H_IDX, double>;
#endif

static std::string setStr(const std::set<int>& s) { std::string r = "{"; for (int v : s) r += std::to_string(v) + ","; return r + "}"; }
template <class V> static std::string vecStr(const V& v) { std::string r = "["; for (auto x : v) r += std::to_string((long long)H_IDX(x)) + ","; return r + "]"; }

// ------------------------------------------------------------------------------------------- M01
template <unsigned A, unsigned B> void travPair(mc::Case& c, const Mesh& m, const AbsMesh& a) {
    std::string nm = std::to_string(A) + "->" + std::to_string(B);
    // whole mesh
    std::set<std::pair<int, int>> got, want;
    std::map<std::pair<int, int>, int> mult;
    bool range = true;
    m.template apply<A, B>([&](H_IDX o, H_IDX e) { got.insert({(int)o, (int)e}); mult[{(int)o, (int)e}]++; if (o >= (H_IDX)a.n(A) || e >= (H_IDX)a.n(B)) range = false; });
    for (int i = 0; i < a.n(A); i++) for (int j : a.conn(A, i, B)) want.insert({i, j});
    c.op();
    c.check(range, "apply-range", "apply " + nm + " over the mesh passes an index that is not an element");
    if (got != want) {
        std::string d;
        for (auto& p : want) if (!got.count(p)) d += " missing(" + std::to_string(p.first) + "," + std::to_string(p.second) + ")";
        for (auto& p : got) if (!want.count(p)) d += " extra(" + std::to_string(p.first) + "," + std::to_string(p.second) + ")";
        c.fail("apply-mesh", "apply<" + nm + ">(f) visits the wrong pairs:" + d + " mesh " + a.full());
    }
    if (A == B + 1 || B == A + 1) for (auto& kv : mult) c.check(kv.second == 1, "apply-once", "apply<" + nm + "> visits (" + std::to_string(kv.first.first) + "," + std::to_string(kv.first.second) + ") " + std::to_string(kv.second) + " times, mesh " + a.full());
    c.out(got.size() * 31 + A * 7 + B);
}
template <unsigned A, unsigned B, bool down> struct TravElem {
    static void run(mc::Case& c, const Mesh& m, const AbsMesh& a) {
        std::string nm = std::to_string(A) + "->" + std::to_string(B);
        for (int i = 0; i < a.n(A); i++) {
            std::vector<int> seq;
            bool orig = true;
            m.template apply<A, B>((H_IDX)i, [&](H_IDX o, H_IDX e) { if (o != (H_IDX)i) orig = false; seq.push_back((int)e); });
            c.op();
            c.check(orig, "elem-origin", "apply<" + nm + ">(" + std::to_string(i) + ") reports another origin element, mesh " + a.full());
            std::set<int> got(seq.begin(), seq.end()), want = a.inc(A, i, B);
            if (got != want) c.fail("elem-set", "apply<" + nm + ">(" + std::to_string(i) + ") visits " + setStr(got) + " want " + setStr(want) + ", mesh " + a.full());
            if (A == B + 1) c.check(seq.size() == got.size(), "elem-once", "apply<" + nm + ">(" + std::to_string(i) + ") repeats a boundary element, mesh " + a.full());
        }
    }
};
template <unsigned A, unsigned B> struct TravElem<A, B, false> { static void run(mc::Case&, const Mesh&, const AbsMesh&) {} };

// ------------------------------------------------------------------------------------------- M02
template <unsigned A, unsigned B> void connPair(mc::Case& c, const Mesh& m, const AbsMesh& a) {
    std::string nm = std::to_string(A) + "," + std::to_string(B);
    auto asc = m.template connections<A, B>();
    auto ori = m.template connections<A, B, ORDER_ORIGINAL>();
    c.op();
    c.equal(asc.template getDataByPos<0>().size(), (size_t)a.n(A), "conn-alloc", "number of entries of connections<" + nm + ">");
    c.equal(ori.template getDataByPos<0>().size(), (size_t)a.n(A), "conn-alloc-orig", "number of entries of connections<" + nm + ", original>");
    for (int i = 0; i < a.n(A); i++) {
        std::vector<int> g, o, w, wo;
        for (auto e : asc.template getDataByDim<A>()[i]) g.push_back((int)H_IDX(e));
        for (auto e : ori.template getDataByDim<A>()[i]) o.push_back((int)H_IDX(e));
        for (int j : a.conn(A, i, B)) w.push_back(j);
        if (A > B) a.walk(A, i, B, wo); else wo = w;
        if (g != w) c.fail("conn-asc", "connections<" + nm + "> of " + std::to_string(i) + " is " + vecStr(g) + ", want " + vecStr(w) + ", mesh " + a.full());
        if (o != wo) c.fail("conn-orig", "connections<" + nm + ",original> of " + std::to_string(i) + " is " + vecStr(o) + ", want " + vecStr(wo) + ", mesh " + a.full());
        for (int j : w) c.out(j * 1000 + i);
    }
}
template <unsigned A, unsigned K, unsigned B> void neighTriple(mc::Case& c, const Mesh& m, const AbsMesh& a) {
    std::string nm = std::to_string(A) + "," + std::to_string(K) + "," + std::to_string(B);
    auto asc = m.template neighborhood<A, K, B>();
    auto ori = m.template neighborhood<A, K, B, ORDER_ORIGINAL>();
    c.op();
    c.equal(asc.template getDataByPos<0>().size(), (size_t)a.n(A), "neigh-alloc", "number of entries of neighborhood<" + nm + ">");
    std::vector<std::vector<int>> kb(a.n(K));
    std::vector<int> seen(a.n(B), -1);
    for (int k = 0; k < a.n(K); k++) {
        if (K > B) a.walk(K, k, B, kb[k]);
        else for (int j : a.conn(K, k, B)) kb[k].push_back(j);
    }
    for (int i = 0; i < a.n(A); i++) {
        std::vector<int> g, o, ak, wo;
        for (auto e : asc.template getDataByDim<A>()[i]) g.push_back((int)H_IDX(e));
        for (auto e : ori.template getDataByDim<A>()[i]) o.push_back((int)H_IDX(e));
        if (A > K) a.walk(A, i, K, ak); else for (int j : a.conn(A, i, K)) ak.push_back(j);
        for (int k : ak) for (int j : kb[k]) if (!(A == B && i == j) && seen[j] != i) { seen[j] = i; wo.push_back(j); }
        std::vector<int> w = wo;
        std::sort(w.begin(), w.end());
        if (g != w) c.fail("neigh-asc", "neighborhood<" + nm + "> of " + std::to_string(i) + " is " + vecStr(g) + ", want " + vecStr(w) + ", mesh " + a.full());
        if (o != wo) c.fail("neigh-orig", "neighborhood<" + nm + ",original> of " + std::to_string(i) + " is " + vecStr(o) + ", want " + vecStr(wo) + ", mesh " + a.full());
        c.out(w.size());
    }
}

// ------------------------------------------------------------------------------------------- M03
template <unsigned A, unsigned K> void colorOne(mc::Case& c, const AbsMesh& a, const MeshDataContainer<unsigned int, A>& col, const std::string& what) {
    auto& d = col.template getDataByPos<0>();
    c.op();
    c.equal(d.size(), (size_t)a.n(A), "color-alloc", "number of colours of " + what);
    static std::vector<std::set<int>> conf;       // of the last mesh
    static uint64_t of = 0; static size_t n = ~size_t(0);
    uint64_t dig = a.digest();
    if (of != dig || n != a.sub[1].size()) {
        of = dig; n = a.sub[1].size();
        std::vector<std::set<int>> at(a.n(K));
        for (int i = 0; i < a.n(A); i++) for (int k : a.conn(A, i, K)) at[k].insert(i);
        std::vector<std::vector<char>> m(a.n(A), std::vector<char>(a.n(A), 0));
        for (auto& s : at) for (int i : s) for (int j : s) if (i != j) m[i][j] = 1;
        conf.assign(a.n(A), {});
        for (int i = 0; i < a.n(A); i++) for (int j = 0; j < a.n(A); j++) if (m[i][j]) conf[i].insert(conf[i].end(), j);
    }
    size_t deg = 0;
    unsigned mx = 0;
    for (int i = 0; i < a.n(A); i++) {
        deg = std::max(deg, conf[i].size());
        mx = std::max(mx, d[i]);
        for (int j : conf[i]) if (d[i] == d[j])
            c.fail("improper", what + ": elements " + std::to_string(i) + " and " + std::to_string(j) + " share a connecting element and both have colour " + std::to_string(d[i]) + ", mesh " + (a.n(0) < 12 ? a.full() : a.str()));
    }
    if (a.n(A)) c.check(mx <= deg, "too-many", what + ": colour " + std::to_string(mx) + " used although no element has more than " + std::to_string(deg) + " conflicts, mesh " + (a.n(0) < 12 ? a.full() : a.str()));
    c.out(mx + 100 * A + 1000 * K);
}
template <unsigned A, unsigned K> void colorPair(mc::Case& c, const Mesh& m, const AbsMesh& a, unsigned nseeds) {
    std::string nm = std::to_string(A) + "," + std::to_string(K);
    colorOne<A, K>(c, a, m.template coloring<A, K>(), "coloring<" + nm + ",greedy>");
    colorOne<A, K>(c, a, m.template coloring<A, K, METHOD_RANDOM>(), "coloring<" + nm + ",random>");
    for (unsigned s = 0; s < nseeds; s++) {
        auto r = m.template coloring<A, K, METHOD_RANDOM>(s);
        colorOne<A, K>(c, a, r, "coloring<" + nm + ",random>(" + std::to_string(s) + ")");
        if (s == 1) c.check(r.template getDataByPos<0>() == m.template coloring<A, K, METHOD_RANDOM>(s).template getDataByPos<0>(), "seed", "two runs with seed 1 differ");
        if (s < 2) c.check(r.template getDataByPos<0>() == MeshColoring<A, K, METHOD_RANDOM>::color(m, s).template getDataByPos<0>(), "seed-passed", "coloring<" + nm + ",random>(" + std::to_string(s) + ") of the mesh differs from the function with this seed");
    }
}
// seeds choose among the colourings
template <unsigned A, unsigned K> int colorSeeds(mc::Case& c, const Mesh& m, const AbsMesh& a) {
    std::set<std::vector<unsigned>> seen;
    for (unsigned s = 0; s < 32; s++) {
        auto r = m.template coloring<A, K, METHOD_RANDOM>(s);
        colorOne<A, K>(c, a, r, "random colouring");
        seen.insert(r.template getDataByPos<0>());
    }
    return seen.size() > 1;
}

// ------------------------------------------------------------------------------------------- loops over dimensions
static unsigned g_seeds = 3;
template <unsigned A, unsigned B, bool ok> struct ColorIf { static void run(mc::Case& c, const Mesh& m, const AbsMesh& a, unsigned s) { colorPair<A, B>(c, m, a, s); } };
template <unsigned A, unsigned B> struct ColorIf<A, B, false> { static void run(mc::Case&, const Mesh&, const AbsMesh&, unsigned) {} };
template <unsigned A, unsigned K, unsigned B> struct NeighLoop { static void run(mc::Case& c, const Mesh& m, const AbsMesh& a) { neighTriple<A, K, B>(c, m, a); NeighLoop<A, K, B - 1>::run(c, m, a); } };
template <unsigned A, unsigned K> struct NeighLoop<A, K, 0> { static void run(mc::Case& c, const Mesh& m, const AbsMesh& a) { neighTriple<A, K, 0>(c, m, a); } };


template <unsigned A, unsigned B> void onePair(mc::Case& c, const Mesh& m, const AbsMesh& a) {
#if H_PROP == 1
    travPair<A, B>(c, m, a);
    TravElem<A, B, (A > B)>::run(c, m, a);
#elif H_PROP == 2
    connPair<A, B>(c, m, a);
    NeighLoop<A, B, H_DIM>::run(c, m, a);
#else
    ColorIf<A, B, (A != B)>::run(c, m, a, g_seeds);
#endif
}
template <unsigned A, unsigned B> struct LoopB { static void run(mc::Case& c, const Mesh& m, const AbsMesh& a) { onePair<A, B>(c, m, a); LoopB<A, B - 1>::run(c, m, a); } };
template <unsigned A> struct LoopB<A, 0> { static void run(mc::Case& c, const Mesh& m, const AbsMesh& a) { onePair<A, 0>(c, m, a); } };
template <unsigned A, unsigned D> struct LoopA { static void run(mc::Case& c, const Mesh& m, const AbsMesh& a) { LoopB<A, H_DIM>::run(c, m, a); LoopA<A - 1, D>::run(c, m, a); } };
template <unsigned D> struct LoopA<0, D> { static void run(mc::Case& c, const Mesh& m, const AbsMesh& a) { LoopB<0, H_DIM>::run(c, m, a); } };

static void all(mc::Case& c, const AbsMesh& a, unsigned seeds = 3) {
    g_seeds = seeds;
    Mesh m;
    build(m, a);
    c.state(a.digest());
    LoopA<H_DIM, H_DIM>::run(c, m, a);
}
static void chooseEncoding(mc::Case& c, AbsMesh& a) { encode(a, c.choose(N_ENC)); }

// every abstract complex: edges and faces with arbitrary incidence, not necessarily realisable in space
static void abstractComplex(mc::Case& c, int E, int V, int C) {
    AbsMesh a; a.init(H_DIM);
    a.X.assign(V, Coord{});
    for (int i = 0; i < V; i++) a.X[i][0] = i;
#if H_DIM == 2
    for (int e = 0; e < E; e++) {
        // quick tier, three edges: the first edge is 0->1 or 2->1 (the others are arbitrary)
        int p = (E == 3 && e == 0 && !c.run.thorough) ? (c.choose(2) ? 5 : 0) : c.choose(V * (V - 1));
        int x = p / (V - 1), y = p % (V - 1);
        a.sub[1].push_back({x, y < x ? y : y + 1});
    }
#else
    // E faces over a fixed triangle of edges plus a pendant one: every non-empty subset as a face
    static const int ed[4][2] = {{0, 1}, {1, 2}, {2, 0}, {0, 2}};
    int ne = V;
    for (int e = 0; e < ne; e++) a.sub[1].push_back({ed[e][0], ed[e][1]});
    a.X.resize(3);
    for (int d = 2; d < H_DIM; d++) {
        int below = a.n(d - 1), cnt = d == H_DIM - 1 ? E : 2;
        for (int f = 0; f < cnt; f++) {
            int mask = 1 + c.choose((1 << below) - 1);
            std::vector<int> s;
            for (int k = 0; k < below; k++) if (mask >> k & 1) s.push_back(k);
            a.sub[d].push_back(s);
        }
    }
#endif
    a.left.assign(E, -1); a.right.assign(E, -1);
    a.sub[H_DIM].assign(C, {});
    for (int f = 0; f < E; f++) {
        int k = c.choose((C + 1) * (C + 1) - C);     // left, right in {none} + cells, not the same cell twice
        int l = 0, r = 0;
        for (int q = 0; q < (C + 1) * (C + 1); q++) { l = q / (C + 1) - 1; r = q % (C + 1) - 1; if (l >= 0 && l == r) continue; if (k-- == 0) break; }
        a.left[f] = l; a.right[f] = r;
        if (l >= 0) a.sub[H_DIM][l].push_back(f);
        if (r >= 0) a.sub[H_DIM][r].push_back(f);
    }
    for (int q = 0; q < C; q++) if (a.sub[H_DIM][q].empty()) c.skip();
    for (int q = 0; q < C; q++) {                     // every order of the boundary list
        auto& l = a.sub[H_DIM][q];
        std::vector<int> rest = l, out;
        while (!rest.empty()) { int k = rest.size() > 1 ? c.choose((int)rest.size()) : 0; out.push_back(rest[k]); rest.erase(rest.begin() + k); }
        l = out;
    }
    c.go();
    c.note(a.full());
    all(c, a);
}

MC_GROUP(g_abs, "abstract") {
    bool t = c.run.thorough;
#if H_DIM == 2
    int E = 1 + c.choose(t ? 4 : 3);
    int C = 1 + c.choose(2);
    if (t && E == 4 && H_PROP == 2) { if (C == 1) c.skip(); }
    abstractComplex(c, E, E == 4 ? 2 : 3, C);
#elif H_DIM == 3
    int E = 1 + c.choose(t ? 3 : 2);
    abstractComplex(c, E, E == 3 ? 2 : 3, 1 + c.choose(2));
#else
    abstractComplex(c, 1 + c.choose(2), 2, 1 + c.choose(t ? 2 : 1));
#endif
}

#if H_DIM == 2
MC_GROUP(g_grid, "grid") {
    bool t = c.run.thorough;
    int nx = 2, ny = t ? 2 : 1 + c.choose(2), no = t ? 6 : 4;
    std::vector<int> o;
    for (int i = 0; i < nx * ny; i++) o.push_back(c.choose(ny == 1 ? 6 : no));
    AbsMesh a = grid2D(nx, ny, o);
    chooseEncoding(c, a);
    c.go();
    for (int v : o) c.note(std::to_string(v));
    all(c, a);
}
static AbsMesh star(int n, int kind) {   // n cells around one vertex / one n-gon: many elements in mutual conflict
    std::vector<Coord> X(n + 1, Coord{});
    for (int i = 0; i < n; i++) { X[i][0] = cos(2 * M_PI * i / n); X[i][1] = sin(2 * M_PI * i / n); }
    std::vector<CellDesc> cells;
    if (kind == 0) { CellDesc p{C_POLYGON, {{}}, {}}; for (int i = 0; i < n; i++) p.loops[0].push_back(i); cells.push_back(p); }
    else for (int i = 0; i < n; i++) cells.push_back({C_TRI, {{i, (i + 1) % n, n}}, {}});
    AbsMesh a = from2D(X, cells);
    a.finish();
    return a;
}
MC_GROUP(g_star, "star") {
    int n = 3 + c.choose(c.run.thorough ? 64 : 34), kind = c.choose(2);
    AbsMesh a = star(n, kind);
    if (c.run.thorough) chooseEncoding(c, a);
    c.go();
    c.note((kind ? "fan " : "polygon ") + std::to_string(n));
    all(c, a);
}
#elif H_DIM == 3
MC_GROUP(g_grid, "grid") {
    bool t = c.run.thorough;
    int kind = c.choose(t ? 2 : 1);
    std::vector<int> o;
    int n = kind == 0 ? 2 : 3;
    for (int i = 0; i < n; i++) o.push_back(kind == 0 ? c.choose(11) : (i == 1 ? 1 + c.choose(4) : c.choose(6)));
    int enc = c.choose(kind == 0 ? N_ENC : 2);
    c.go();
    AbsMesh a;
    if (!grid3D(n, 1, 1, o, 0, true, a)) c.skip();
    if (!a.n(3)) c.skip();
    encode(a, enc);
    for (int v : o) c.note(std::to_string(v));
    all(c, a);
}
static AbsMesh star(int n, int kind) {   // prism over an n-gon, and n wedges around an axis
    std::vector<Coord> X(2 * n + 2, Coord{});
    for (int i = 0; i < n; i++) for (int z = 0; z < 2; z++) { X[i + z * n][0] = cos(2 * M_PI * i / n); X[i + z * n][1] = sin(2 * M_PI * i / n); X[i + z * n][2] = z; }
    X[2 * n + 1][2] = 1;
    std::vector<CellDesc> cells;
    if (kind == 0) {
        CellDesc p{C_POLY, {{}, {}}, {}};
        for (int i = 0; i < n; i++) { p.loops[0].push_back(i); p.loops[1].push_back(i + n); }
        for (int i = 0; i < n; i++) p.loops.push_back({i, (i + 1) % n, (i + 1) % n + n, i + n});
        cells.push_back(p);
    } else for (int i = 0; i < n; i++) {
        int j = (i + 1) % n, a = 2 * n, b = 2 * n + 1;
        cells.push_back({C_WEDGE, {{i, j, a}, {i + n, j + n, b}, {i, j, j + n, i + n}, {j, a, b, j + n}, {a, i, i + n, b}}, {}});
    }
    AbsMesh a = from3D(X, cells);
    a.finish();
    return a;
}
MC_GROUP(g_star, "star") {
    int n = 3 + c.choose(c.run.thorough ? 40 : 16), kind = c.choose(2);
#ifdef H_RES
    if (kind == 0 && n > 6) c.skip();
#endif
    AbsMesh a = star(n, kind);
    c.go();
    c.note((kind ? "wedge fan " : "prism ") + std::to_string(n));
    all(c, a);
}
#else
MC_GROUP(g_cub, "cubical") {
    std::vector<int> size(H_DIM, 1), present;
    size[0] = 2; if (c.run.thorough) size[H_DIM - 1] = 2;
    int tot = 1; for (int s : size) tot *= s;
    for (int i = 0; i < tot; i++) present.push_back(c.choose(2));
    AbsMesh a = cubical(H_DIM, size, present);
    int enc = c.choose(N_ENC);
    c.go();
    if (!a.n(H_DIM)) c.skip();
    encode(a, enc);
    c.note(a.str());
    all(c, a);
}
MC_GROUP(g_simp, "simplicial") {   // every non-empty set of at most k simplices on H_DIM+2 points
    int P = H_DIM + 2, kmax = c.run.thorough ? 2 : 2;
    std::vector<Coord> X(P, Coord{});
    for (int i = 1; i <= H_DIM; i++) X[i][i - 1] = 1;
    for (int d = 0; d < H_DIM; d++) X[H_DIM + 1][d] = 1;
    std::vector<std::vector<int>> cells;
    int last = -1;
    for (int k = 0; k < kmax; k++) {
        int s = c.choose(P + 1);            // simplex that omits point s; P means stop
        if (s == P || s <= last) { if (s != P) c.skip(); break; }
        last = s;
        std::vector<int> v; for (int i = 0; i < P; i++) if (i != s) v.push_back(i);
        cells.push_back(v);
    }
    int enc = c.choose(N_ENC);
    c.go();
    if (cells.empty()) c.skip();
    AbsMesh a = simplicial(H_DIM, X, cells);
    encode(a, enc);
    c.note(a.str());
    all(c, a);
}
#endif
// meshes with hundreds of elements, and with elements connected to hundreds of others
#if H_PROP == 3
MC_GROUP(g_seedsMatter, "seeds") {
    c.go();
    int differ = 0, n = 0;
    for (int k = 0; k < 6; k++) {
        AbsMesh a;
#if H_DIM == 2
        a = k < 3 ? grid2D(2, 1 + k % 2, std::vector<int>(2 + 2 * (k % 2), k), 0) : star(2 + k, 1);
#elif H_DIM == 3
        if (!grid3D(1 + k % 3, 1, 1, std::vector<int>(1 + k % 3, k), 0, true, a) || !a.n(3)) continue;
#else
        std::vector<int> size(H_DIM, 1); size[0] = 1 + k % 2; size[1] = 1 + k / 2 % 2;
        a = cubical(H_DIM, size, std::vector<int>(size[0] * size[1], 1));
#endif
        Mesh m; build(m, a);
        differ += colorSeeds<H_DIM - 1, 0>(c, m, a) + colorSeeds<1, 0>(c, m, a) + colorSeeds<0, 1>(c, m, a) + colorSeeds<0, H_DIM>(c, m, a); n += 4;
        c.state(a.digest());
    }
    c.check(differ > 0, "seeds-matter", "every colouring of " + std::to_string(n) + " is the same for 32 seeds");
}
#endif
#if H_PROP == 3 && H_DIM <= 3
MC_GROUP(g_allSeeds, "far seeds") {      // a mesh with choices enough: all seeds give different colourings, whichever bits differ
    c.go();
    AbsMesh a = star(40, 1);
    a.prepare();
    Mesh m; build(m, a);
    std::set<unsigned> seeds;
    for (unsigned k = 0; k < 32; k++) { seeds.insert(k); seeds.insert(1u << k); seeds.insert((1u << k) - 1); seeds.insert((1u << k) + 1); seeds.insert(~(1u << k)); seeds.insert(1562315u ^ (1u << k)); }
    seeds.insert(~0u); seeds.insert(1562315u);
    std::map<std::vector<unsigned>, unsigned> seen;
    for (unsigned s : seeds) {
        auto r = m.template coloring<1, 0, METHOD_RANDOM>(s);
        auto f = MeshColoring<1, 0, METHOD_RANDOM>::color(m, s);
        c.op();
        colorOne<1, 0>(c, a, r, "random colouring");
        c.check(r.template getDataByPos<0>() == f.template getDataByPos<0>(), "function", "the mesh and the function colour differently with the seed " + std::to_string(s));
        auto i = seen.emplace(r.template getDataByPos<0>(), s);
        c.check(i.second, "seeds-equal", "the seeds " + std::to_string(i.first->second) + " and " + std::to_string(s) + " give the same colouring of " + std::to_string(a.n(1)) + " edges");
    }
    c.state(a.digest());
}
#endif
MC_GROUP(g_large, "large") {
    bool t = c.run.thorough;
    int kind = c.choose(4);
    auto ns = sizes::upTo(kind < 2 ? (t ? 1100 : H_PROP == 2 ? 257 : 300) : (t ? 4200 : H_PROP == 2 ? 300 : 1100));
    int n = (int)ns[c.choose((int)ns.size())];
    c.go();
    if (n < 40) c.skip();
    AbsMesh a;

#if H_DIM == 4
    if (kind == 0 || n > 300) c.skip();
    std::vector<int> size{n / 2, 2, 1, 1};
    if (kind == 2) size = {n, 1, 1, 1};
    if (kind == 3) size = {3, n / 9, 3, 1};
    int tot = 1; for (int s : size) tot *= s;
    if (tot < 20 || tot > (t ? 300 : 140)) c.skip();
    a = cubical(H_DIM, size, std::vector<int>(tot, 1));
#else
    if (kind < 2) {
#ifdef H_RES
        if (kind == 0) c.skip();
#endif
        a = star(n, kind);
    } else {
        int nx = kind == 2 ? n : (int)std::sqrt((double)n), ny = kind == 2 ? 1 : nx;
#if H_DIM == 2
        std::vector<int> o; for (int i = 0; i < nx * ny; i++) o.push_back(1 + i % 5);
        a = grid2D(nx, ny, o);
#else
        if (n > 300 && !t) c.skip();
        std::vector<int> o; for (int i = 0; i < nx * ny; i++) o.push_back(i % 3 ? 1 : 11);
        grid3D(nx, ny, 1, o, 0, true, a);
#endif
    }
#endif
    encode(a, n % 3 == 0 ? 5 : n % 3 == 1 ? 4 : 2);
    a.prepare();
    c.note("kind " + std::to_string(kind) + " of " + std::to_string(n) + ": " + a.str());
    all(c, a, 1);
}
MC_GROUP(g_empty, "empty") {
    AbsMesh a; a.init(H_DIM);
    a.finish();
    c.go();
    c.note("mesh without elements");
    all(c, a);
}
MC_MAIN
