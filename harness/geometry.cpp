// M09 boundary cells, M10 centres and measures, M11 normals, M16 edge orientation and cell distances:
// every mesh of the families below, in every encoding, under every affine map of the menu, against
// formulas evaluated here on the abstract mesh in extended precision.
//   -DH_PROP=9|10|11|16  -DH_DIM=2|3|4  [-DH_IDX=..] [-DH_REAL=..] [-DH_RES=..]
#include "meshgen.h"
#include "sizes.h"
using namespace mg;
#ifndef H_IDX
#define H_IDX size_t
#endif
#ifndef H_REAL
#define H_REAL double
#endif
#ifdef H_RES
using Mesh = UnstructuredMesh<H_DIM, H_IDX, H_REAL, H_RES>;
#else
using Mesh = UnstructuredMesh<H_DIM, H_IDX, H_REAL>;
#endif
using Real = H_REAL;
using Idx = H_IDX;
constexpr int D = H_DIM;
typedef long double LD;
typedef std::array<LD, 5> P;
static const bool SINGLE = sizeof(Real) == 4;
static const LD TOL = SINGLE ? 2e-4L : 1e-9L;
static const Idx INV = std::numeric_limits<Idx>::max();
static const Idx BND = Idx(1) << (std::numeric_limits<Idx>::digits - 1);

// ---------------------------------------------------------------- small own vector algebra
static P pt(const AbsMesh& m, int v) { P p{}; for (int d = 0; d < D; d++) p[d] = (LD)Real(m.X[v][d]); return p; }
static P operator+(P a, const P& b) { for (int i = 0; i < 5; i++) a[i] += b[i]; return a; }
static P operator-(P a, const P& b) { for (int i = 0; i < 5; i++) a[i] -= b[i]; return a; }
static P operator*(LD s, P a) { for (int i = 0; i < 5; i++) a[i] *= s; return a; }
static LD dot(const P& a, const P& b) { LD s = 0; for (int i = 0; i < 5; i++) s += a[i] * b[i]; return s; }
static LD len(const P& a) { return sqrtl(dot(a, a)); }
static P cross(const P& a, const P& b) { return P{{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0], 0, 0}}; }
static LD gramVolume(std::vector<P> v) {       // volume of the parallelotope, by Householder-free elimination of the Gram matrix
    size_t n = v.size();
    std::vector<std::vector<LD>> g(n, std::vector<LD>(n));
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) g[i][j] = dot(v[i], v[j]);
    LD det = 1;
    for (size_t i = 0; i < n; i++) {
        size_t p = i;
        for (size_t r = i; r < n; r++) if (fabsl(g[r][i]) > fabsl(g[p][i])) p = r;
        if (p != i) { std::swap(g[p], g[i]); det = -det; }
        if (g[i][i] == 0) return 0;
        det *= g[i][i];
        for (size_t r = i + 1; r < n; r++) { LD f = g[r][i] / g[i][i]; for (size_t k = i; k < n; k++) g[r][k] -= f * g[i][k]; }
    }
    return sqrtl(fabsl(det));
}
template <class V> static P toP(const V& v) { P p{}; for (int d = 0; d < D; d++) p[d] = (LD)v[d]; return p; }
static std::string ps(const P& p) { std::ostringstream o; o << "("; for (int d = 0; d < D; d++) o << (d ? "," : "") << (double)p[d]; o << ")"; return o.str(); }

// ---------------------------------------------------------------- the reference geometry
struct Geo {
    const AbsMesh& m;
    std::vector<std::vector<P>> ctr, tes;    // centres per dimension (default / faces of 3D meshes by area)
    std::vector<std::vector<LD>> meas;       // measures per dimension
    std::vector<P> vmean;                    // mean of the vertices per cell: an interior point of the convex cells used
    bool planar = true;
    LD size = 0, mag = 0;                    // diameter-like size of the mesh, magnitude of its coordinates

    P mean(const std::set<int>& vs) const { P s{}; for (int v : vs) s = s + pt(m, v); return (LD)1 / (LD)vs.size() * s; }
    P vecArea(int f) const {                 // 3D: vector area of face f along its loop
        auto lp = loopOf(m, m.sub[2][f]);
        P s{};
        P o = pt(m, lp[0]);
        for (size_t k = 1; k + 1 < lp.size(); k++) s = s + (LD)0.5 * cross(pt(m, lp[k]) - o, pt(m, lp[k + 1]) - o);
        return s;
    }
    explicit Geo(const AbsMesh& a, bool flat = true) : m(a), planar(flat) {
        P lo = m.n(0) ? pt(m, 0) : P{}, hi = lo;
        for (int v = 0; v < m.n(0); v++) { P p = pt(m, v); for (int d = 0; d < D; d++) { lo[d] = std::min(lo[d], p[d]); hi[d] = std::max(hi[d], p[d]); mag = std::max(mag, fabsl(p[d])); } }
        size = len(hi - lo);
        ctr.resize(D + 1); tes.resize(D + 1); meas.resize(D + 1);
        for (int v = 0; v < m.n(0); v++) ctr[0].push_back(pt(m, v));
        tes[0] = ctr[0];
        for (int d = 1; d <= D; d++) for (int i = 0; i < m.n(d); i++) {
            P s{}, t{};
            for (int e : m.sub[d][i]) { s = s + ctr[d - 1][e]; t = t + tes[d - 1][e]; }
            ctr[d].push_back((LD)1 / (LD)m.sub[d][i].size() * s);
            t = (LD)1 / (LD)m.sub[d][i].size() * t;
            if (D == 3 && d == 2) {
                P w{}; LD total = 0;
                if (planar) {                // centroid of the polygon from signed triangles at its first corner
                    auto lp = loopOf(m, m.sub[2][i]);
                    P va = vecArea(i), n = ((LD)1 / len(va)) * va;
                    for (size_t k = 1; k + 1 < lp.size(); k++) {
                        P p0 = pt(m, lp[0]), p1 = pt(m, lp[k]), p2 = pt(m, lp[k + 1]);
                        LD ar = (LD)0.5 * dot(cross(p1 - p0, p2 - p0), n);
                        w = w + (ar / 3) * (p0 + p1 + p2);
                        total += ar;
                    }
                } else {                     // surface of the triangles between the mean of the edge centres and the edges
                    for (int e : m.sub[2][i]) {
                        P p1 = pt(m, m.sub[1][e][0]), p2 = pt(m, m.sub[1][e][1]);
                        LD ar = (LD)0.5 * len(cross(p1 - t, p2 - t));
                        w = w + (ar / 3) * (t + p1 + p2);
                        total += ar;
                    }
                }
                t = ((LD)1 / total) * w;
            }
            tes[d].push_back(t);
        }
        for (int c = 0; c < m.n(D); c++) vmean.push_back(mean(m.inc(D, c, 0)));
        for (int e = 0; e < m.n(1); e++) meas[1].push_back(len(pt(m, m.sub[1][e][0]) - pt(m, m.sub[1][e][1])));
        for (int d = 2; d <= D; d++) for (int i = 0; i < m.n(d); i++) meas[d].push_back(measureOf(d, i));
    }
    LD measureOf(int d, int i) const {
        if (D == 2) return fabsl((LD)1 * area2(i));
        if (D == 3 && d == 2) {
            if (planar) return len(vecArea(i));
            LD s = 0;
            for (int e : m.sub[2][i]) s += (LD)0.5 * len(cross(pt(m, m.sub[1][e][0]) - tes[2][i], pt(m, m.sub[1][e][1]) - tes[2][i]));
            return s;
        }
        if (D == 3) {                        // divergence theorem from an interior point
            LD s = 0;
            for (int f : m.sub[3][i]) {
                if (planar) s += fabsl(dot(vecArea(f), tes[2][f] - vmean[i])) / 3;
                else {                       // signed tetrahedra over the oriented loop: no absolute values inside a face
                    auto lp = loopOf(m, m.sub[2][f]);
                    LD t = 0;
                    for (size_t k = 0; k < lp.size(); k++) t += dot(cross(pt(m, lp[k]) - tes[2][f], pt(m, lp[(k + 1) % lp.size()]) - tes[2][f]), tes[2][f] - vmean[i]) / 6;
                    s += fabsl(t);
                }
            }
            return s;
        }
        // parallelotopes and simplices: the edges at one vertex
        std::set<int> vs = m.inc(d, i, 0), es = m.inc(d, i, 1);
        int v0 = *vs.begin();
        std::vector<P> ed;
        for (int e : es) { if (m.sub[1][e][0] == v0) ed.push_back(pt(m, m.sub[1][e][1]) - pt(m, v0)); else if (m.sub[1][e][1] == v0) ed.push_back(pt(m, m.sub[1][e][0]) - pt(m, v0)); }
        LD v = gramVolume(ed);
        if ((int)vs.size() == d + 1) for (int k = 2; k <= d; k++) v /= k;
        return v;
    }
    LD area2(int i) const {
        auto lp = loopOf(m, m.sub[2][i]);
        LD s = 0;
        for (size_t k = 0; k < lp.size(); k++) { P a = pt(m, lp[k]) - pt(m, lp[0]), b = pt(m, lp[(k + 1) % lp.size()]) - pt(m, lp[0]); s += a[0] * b[1] - a[1] * b[0]; }
        return s / 2;
    }
    // unit normal of face f pointing from its left to its right cell (3D and more: away from the left cell)
    P normal3(int f) const {
        P va = vecArea(f);
        P n = ((LD)1 / len(va)) * va;
        LD s = m.left[f] >= 0 ? dot(n, ctr[2][f] - vmean[m.left[f]]) : dot(n, vmean[m.right[f]] - ctr[2][f]);
        return s < 0 ? (LD)-1 * n : n;
    }
};

// ---------------------------------------------------------------- families
struct Fam { AbsMesh m; std::string name; bool planar = true; };
static AbsMesh polygonFan(int n, bool cells) {      // an irregular convex n-gon: one cell, or n triangles around an inner point
    std::vector<Coord> X;
    for (int k = 0; k < n; k++) { double t = 2 * M_PI * (k + 0.1 * (k % 3)) / n; X.push_back(Coord{{3 * cos(t), 2 * sin(t), 0, 0, 0}}); }
    X.push_back(Coord{{0.25, -0.125, 0, 0, 0}});
    std::vector<CellDesc> cd;
    if (!cells) { std::vector<int> lp; for (int k = 0; k < n; k++) lp.push_back(k); cd.push_back({C_POLYGON, {lp}, {}}); }
    else for (int k = 0; k < n; k++) cd.push_back({C_TRI, {{k, (k + 1) % n, n}}, {}});
    AbsMesh m = from2D(X, cd);
    m.finish();
    return m;
}
static AbsMesh prism(int n, int layers, double taper) {     // frustum over an irregular n-gon; its side faces are planar
    std::vector<Coord> X;
    for (int l = 0; l <= layers; l++) for (int k = 0; k < n; k++) { double t = 2 * M_PI * (k + 0.1 * (k % 3)) / n, s = 1 + taper * l; X.push_back(Coord{{3 * s * cos(t), 2 * s * sin(t), 2.0 * l, 0, 0}}); }
    std::vector<CellDesc> cd;
    for (int l = 0; l < layers; l++) {
        CellDesc c{C_POLY, {}, {}};
        std::vector<int> lo, hi;
        for (int k = 0; k < n; k++) { lo.push_back(l * n + k); hi.push_back((l + 1) * n + k); }
        c.loops.push_back(lo);
        for (int k = 0; k < n; k++) c.loops.push_back({lo[k], lo[(k + 1) % n], hi[(k + 1) % n], hi[k]});
        c.loops.push_back(hi);
        c.verts = lo; c.verts.insert(c.verts.end(), hi.begin(), hi.end());
        cd.push_back(c);
    }
    AbsMesh m = from3D(X, cd);
    m.finish();
    return m;
}
static std::vector<Fam> makeFamilies(bool thorough) {
    std::vector<Fam> r;
#if H_DIM == 2
    for (int w = 0; w < 3; w++) {
        for (int a = 0; a <= 5; a++) for (int b = 0; b <= 5; b++) {
            if (a + b == 0) continue;
            r.push_back({grid2D(2, 1, {a, b}, w), "grid2x1(" + std::to_string(a) + "," + std::to_string(b) + ") warp " + std::to_string(w)});
        }
        for (int a = 0; a <= 5; a++) for (int b = 0; b <= 5; b++) {
            if (!thorough && (a > 2 || b > 2)) continue;
            for (int x = 0; x < (thorough ? 6 : 3); x++) r.push_back({grid2D(2, 2, {a, b, 1 + (a + x) % 5, x}, w), "grid2x2"});
        }
    }
    for (int n = 3; n <= (thorough ? 40 : 12); n++) { r.push_back({polygonFan(n, false), "polygon " + std::to_string(n)}); r.push_back({polygonFan(n, true), "fan " + std::to_string(n)}); }
#elif H_DIM == 3
    for (int w = 0; w < 3; w++) for (int a = 0; a <= 11; a++) for (int b = 0; b <= 11; b++) {
        if (a + b == 0 || (w == 2 && !thorough)) continue;
        AbsMesh m;
        if (grid3D(2, 1, 1, {a, b}, w, true, m)) r.push_back({m, "grid2x1x1(" + std::to_string(a) + "," + std::to_string(b) + ") warp " + std::to_string(w)});
    }
    if (thorough) for (int a = 0; a <= 11; a++) for (int b = 0; b <= 11; b++) for (int x = 0; x <= 11; x++) {
        AbsMesh m;
        if (a + b + x && grid3D(2, 1, 2, {a, b, x, 1}, 1, true, m)) r.push_back({m, "grid2x1x2"});
    }
    for (int n = 3; n <= (thorough ? 16 : 8); n++) for (int l = 1; l <= 2; l++) for (double t : {0.0, 0.25, -0.3}) r.push_back({prism(n, l, t), "frustum " + std::to_string(n) + " x " + std::to_string(l)});
#else
    for (auto sz : std::vector<std::vector<int>>{{1, 1, 1, 1}, {2, 1, 1, 1}, {1, 1, 1, 2}}) {
        int t = 1; for (int s : sz) t *= s;
        r.push_back({cubical(4, sz, std::vector<int>(t, 1)), "cubical4"});
    }
    if (thorough) r.push_back({cubical(4, {2, 2, 1, 1}, {1, 1, 0, 1}), "cubical4L"});
    std::vector<Coord> X = {{{0, 0, 0, 0, 0}}, {{3, 0, 1, 0, 0}}, {{0, 2, 0, 1, 0}}, {{1, 0, 4, 0, 0}}, {{0, 1, 0, 2, 0}}, {{3, 3, 3, 3, 0}}};
    r.push_back({simplicial(4, std::vector<Coord>(X.begin(), X.begin() + 5), {{0, 1, 2, 3, 4}}), "simplex4"});
    r.push_back({simplicial(4, X, {{0, 1, 2, 3, 4}, {1, 2, 3, 4, 5}}), "two simplices4"});
#endif
    return r;
}
static const std::vector<Fam>& families(const mc::Case& c) {
    static const std::vector<Fam> q = makeFamilies(false);
    if (!c.run.thorough) return q;
    static const std::vector<Fam> t = makeFamilies(true);
    return t;
}
// the same shapes with hundreds of elements, and with elements connected to hundreds of others
static const std::vector<Fam>& largeFamilies(const mc::Case& c) {
    auto make = [](bool thorough) {
        std::vector<Fam> r;
        std::vector<int> ns;
        for (size_t n : sizes::upTo(thorough ? 1100 : 300)) if (n > 40) ns.push_back((int)n);
        for (int n : ns) {
            std::string of = " of " + std::to_string(n);
#if H_DIM == 2
            r.push_back({polygonFan(n, false), "polygon" + of}); r.push_back({polygonFan(n, true), "fan" + of});
            std::vector<int> o; for (int i = 0; i < n; i++) o.push_back(1 + i % 5);
            r.push_back({grid2D(n, 1, o, 0), "strip" + of});
            if (n > 200) { int k = (int)std::sqrt((double)n); o.resize(k * k); r.push_back({grid2D(k, k, o, 1), "square" + of}); }
#elif H_DIM == 3
#ifndef H_RES
            r.push_back({prism(n, 1, 0.25), "frustum" + of});
#endif
            if (n < 300 || thorough) { r.push_back({prism(4, n, 0.01), "tower" + of}); }
            if (n < 140 || thorough) {
                std::vector<int> o; for (int i = 0; i < n; i++) o.push_back(i % 3 ? 1 : 11);
                AbsMesh m;
                if (grid3D(n, 1, 1, o, 0, true, m)) r.push_back({m, "strip" + of});
            }
#else
            if (n < 70 || (thorough && n < 300)) r.push_back({cubical(4, {n, 1, 1, 1}, std::vector<int>(n, 1)), "cubical4 strip" + of});
            if (n == 63 || n == 129) r.push_back({cubical(4, {n / 9, 3, 3, 1}, std::vector<int>(n / 9 * 9, 1)), "cubical4 block" + of});
#endif
        }
        return r;
    };
    static const std::vector<Fam> q = make(false);
    if (!c.run.thorough) return q;
    static const std::vector<Fam> t = make(true);
    return t;
}
// affine maps
static const int N_MAP = 8;
static void applyMap(AbsMesh& m, int k) {
    static const double G[4][4] = {{2, 1, 0.5, 0}, {-0.5, 3, 0.25, 0.5}, {0.75, -1, 2.5, -0.25}, {0, 0.5, 0.125, 1.5}};
    for (auto& x : m.X) {
        Coord y = x;
        switch (k) {
        case 1: { const double s[4] = {1, 3, 0.5, 2}, b[4] = {10, -20, 5, 7}; for (int i = 0; i < D; i++) y[i] = s[i] * x[i] + b[i]; break; }
        case 2: for (int i = 0; i < D; i++) { y[i] = 0; for (int j = 0; j < D; j++) y[i] += G[i][j] * x[j]; } break;
        case 3: std::swap(y[0], y[1]); break;
        case 4: for (int i = 0; i < D; i++) { y[i] = 0; for (int j = 0; j < D; j++) y[i] += 1e-6 * G[i][j] * x[j]; } break;
        case 5: for (int i = 0; i < D; i++) { y[i] = -3e6; for (int j = 0; j < D; j++) y[i] += 1e6 * G[i][j] * x[j]; } break;
        case 6: for (int i = 0; i + 1 < D; i += 1) { double p = y[i], q = y[i + 1]; y[i] = 0.6 * p - 0.8 * q; y[i + 1] = 0.8 * p + 0.6 * q; } break;
        case 7: for (int i = 0; i < D; i++) y[i] = (i % 2 ? 1.5 : -0.75) * x[i] - 4; break;
        default: break;
        }
        x = y;
    }
}
// the first cells only (their vertices, edges and faces stay), or no cell and fewer and fewer lower elements
static AbsMesh partOf(AbsMesh a, int cells, int level) {
    a.sub[D].resize(cells); a.type.resize(cells); if ((int)a.cellVerts.size() > cells) a.cellVerts.resize(cells);
    for (int d = D - 1; d >= 1; d--) if (d > D - 1 - level) a.sub[d].clear();
    if (level == D) a.X.clear();
    a.finish();
    return a;
}
// isolated faces (no cell on either side) hang on the mesh: only for the boundary property
static void describe(mc::Case& c, const Fam& f, int enc, int map) { c.note(f.name + " encoding " + std::to_string(enc) + " map " + std::to_string(map)); }
static AbsMesh draw(mc::Case& c, bool& planar, bool maps = true, bool large = false) {
    const Fam& f = c.pick(large ? largeFamilies(c) : families(c), "mesh");
    int enc, map;
    if (large) { const int e[][2] = {{0, 0}, {2, 1}, {5, 6}}; int k = c.choose(3, "encoding and map"); enc = e[k][0]; map = maps ? e[k][1] : 0; }
    else { enc = c.choose(N_ENC, "encoding"); map = maps ? c.choose(N_MAP, "map") : 0; }
    c.go();
    describe(c, f, enc, map);
    AbsMesh a = f.m;
    planar = f.planar;
    encode(a, enc);
    applyMap(a, map);
    if (large) a.prepare();
    c.state(a.digest());
    return a;
}
static void near(mc::Case& c, LD got, LD want, LD scale, const std::string& key, const std::string& what, const AbsMesh& a) {
    if (!(fabsl(got - want) <= TOL * scale)) { std::ostringstream o; o.precision(12); o << what << ": got " << (double)got << ", want " << (double)want << ", mesh " << (a.n(0) < 14 ? a.full() : a.str()); c.fail(key, o.str()); }
}
static void nearP(mc::Case& c, const P& got, const P& want, LD scale, const std::string& key, const std::string& what, const AbsMesh& a) {
    for (int d = 0; d < D; d++) if (!(fabsl(got[d] - want[d]) <= TOL * scale)) c.fail(key, what + ": got " + ps(got) + ", want " + ps(want) + ", mesh " + (a.n(0) < 14 ? a.full() : a.str()));
}
// dims 1..D of a centres/measures container
template <unsigned d, class F, class C> struct Each { static void run(const C& x, const F& f) { f(d, x.template getDataByDim<d>()); Each<d + 1, F, C>::run(x, f); } };
template <class F, class C> struct Each<D + 1, F, C> { static void run(const C&, const F&) {} };
template <class C, class F> static void eachDim(const C& x, const F& f) { Each<1, F, C>::run(x, f); }

static void checkCenters(mc::Case& c, const Geo& g, const std::vector<std::vector<P>>& want, const std::string& what, const decltype(std::declval<Mesh&>().computeElementCenters())& ce) {
    eachDim(ce, [&](unsigned d, const std::vector<Vertex<D, Real>>& v) {
        c.equal(v.size(), (size_t)g.m.n(d), "centres-alloc", what + ": number of centres of dimension " + std::to_string(d));
        for (size_t i = 0; i < v.size(); i++) nearP(c, toP(v[i]), want[d][i], g.mag + g.size, "centre" + std::to_string(d), what + ": centre of element " + std::to_string(i) + " of dimension " + std::to_string(d), g.m);
    });
}
template <class M> static void checkMeasures(mc::Case& c, const Geo& g, const std::string& what, const M& me) {
    eachDim(me, [&](unsigned d, const std::vector<Real>& v) {
        c.equal(v.size(), (size_t)g.m.n(d), "measure-alloc", what + ": number of measures of dimension " + std::to_string(d));
        LD biggest = 0;
        for (LD x : g.meas[d]) biggest = std::max(biggest, x);
        for (size_t i = 0; i < v.size(); i++) near(c, v[i], g.meas[d][i], biggest + powl(g.size, d) * (g.mag / g.size) * (SINGLE ? 1e-1L : 1e-2L), "measure" + std::to_string(d), what + ": measure of element " + std::to_string(i) + " of dimension " + std::to_string(d), g.m);
    });
}

#if H_PROP == 10
static void body10(mc::Case& c, const AbsMesh& a, bool planar, bool bnd) {
    Geo g(a, planar);
    Mesh m;
    build(m, a);
    if (bnd) m.setupBoundaryCells();
    const Mesh& cm = m;
    auto sameAsInput = [&](const std::string& when) {
        for (int v = 0; v < a.n(0); v++) nearP(c, toP(m.getVertices()[v]), pt(a, v), 0, "vertices-changed", when + " changed vertex " + std::to_string(v), a);
    };
    if (planar) {
        auto ce = m.computeElementCenters();
        c.op();
        checkCenters(c, g, g.ctr, "computeElementCenters", ce);
        checkCenters(c, g, g.ctr, "computeCenters", computeCenters<METHOD_DEFAULT>(cm));
        m.initializeCenters();
        for (int i = 0; i < a.n(D - 1); i++) nearP(c, toP(m.getFaces()[i].getCenter()), g.ctr[D - 1][i], g.mag + g.size, "face-centre", "initializeCenters: face " + std::to_string(i), a);
        for (int i = 0; i < a.n(D); i++) nearP(c, toP(m.getCells()[i].getCenter()), g.ctr[D][i], g.mag + g.size, "cell-centre", "initializeCenters: cell " + std::to_string(i), a);
        checkMeasures(c, g, "computeElementMeasures", cm.computeElementMeasures());
        c.op();
        sameAsInput("initializeCenters and measures");
#if H_DIM > 3
        auto shifted = ce;
        checkMeasures(c, g, "computeMeasures(centers)", computeMeasures<METHOD_DEFAULT>(ce, cm));
#endif
        // any other given centres are stored as they are
        auto given = ce;
        eachDim(ce, [&](unsigned, const std::vector<Vertex<D, Real>>&) {});
        for (auto& p : given.template getDataByDim<D>()) p[0] += Real(1);
        for (auto& p : given.template getDataByDim<D - 1>()) p[D - 1] -= Real(2);
        m.initializeCenters(given);
        for (int i = 0; i < a.n(D); i++) c.check(m.getCells()[i].getCenter() == given.template getDataByDim<D>()[i], "given-cell", "initializeCenters(centers) does not store the centre of cell " + std::to_string(i));
        for (int i = 0; i < a.n(D - 1); i++) c.check(m.getFaces()[i].getCenter() == given.template getDataByDim<D - 1>()[i], "given-face", "initializeCenters(centers) does not store the centre of face " + std::to_string(i));
    }
    auto ct = m.template computeElementCenters<METHOD_TESSELLATED>();
    c.op();
    checkCenters(c, g, g.tes, "computeElementCenters<TESSELLATED>", ct);
    m.template initializeCenters<METHOD_TESSELLATED>();
    for (int i = 0; i < a.n(D - 1); i++) nearP(c, toP(m.getFaces()[i].getCenter()), g.tes[D - 1][i], g.mag + g.size, "face-centre-t", "initializeCenters<TESSELLATED>: face " + std::to_string(i), a);
    for (int i = 0; i < a.n(D); i++) nearP(c, toP(m.getCells()[i].getCenter()), g.tes[D][i], g.mag + g.size, "cell-centre-t", "initializeCenters<TESSELLATED>: cell " + std::to_string(i), a);
    checkMeasures(c, g, "computeElementMeasures<TESSELLATED>", cm.template computeElementMeasures<METHOD_TESSELLATED>());
    if (planar) checkMeasures(c, g, "computeElementMeasures with tessellated centres", cm.computeElementMeasures());
    c.op();
    sameAsInput("the tessellated method");
    LD tot = 0;
    for (LD v : g.meas[D]) tot += v;
    c.out(a.n(D) * 7 + (tot > 1));
}
MC_GROUP(gMeasures, "centres and measures of every mesh under every map") {
    bool planar;
    bool bnd = c.flag("boundary cells");
    AbsMesh a = draw(c, planar);
    body10(c, a, planar, bnd);
}
MC_GROUP(gMeasuresP, "centres and measures of parts of meshes") {
    bool bnd = c.flag("boundary cells");
    bool planar;
    AbsMesh a = draw(c, planar);
    int cells = c.choose(std::min(3, a.n(D) + 1), "cells left"), level = c.choose(D + 1, "elements gone");
    if (cells && (level || cells == a.n(D))) c.skip();
    if (!c.run.thorough && (c.choices[2] % 3 != 1 || c.choices[3] % 3 != 1)) c.skip();
    a = partOf(a, cells, level);
    c.state(a.digest());
    body10(c, a, planar, bnd);
}
MC_GROUP(gMeasuresL, "centres and measures of large meshes") {
    bool planar;
    AbsMesh a = draw(c, planar, true, true);
    body10(c, a, planar, a.n(0) % 2);
}
#endif
#if H_DIM == 3 && (H_PROP == 10 || H_PROP == 11)
// one or two hexahedra / prisms, each corner displaced out of the planes of its faces
static AbsMesh bent(mc::Case& c) {
    static std::vector<Fam> base = [] {
        std::vector<Fam> b; AbsMesh m;
        grid3D(1, 1, 1, {1}, 0, false, m); b.push_back({m, "cube"});
        grid3D(2, 1, 1, {1, 1}, 0, false, m); b.push_back({m, "two cubes"});
        grid3D(2, 1, 1, {1, 2}, 1, true, m); b.push_back({m, "cube and wedges"});
        b.push_back({prism(5, 2, 0.25), "pentagonal frusta"});
        return b;
    }();
    static const double DISP[4][3] = {{0.3, 0, 0}, {0, -0.25, 0.2}, {-0.2, 0.15, 0.25}, {0.1, 0.1, -0.35}};
    const Fam& f = c.pick(base, "mesh");
    AbsMesh a = f.m;
    int v = c.choose(a.n(0), "corner"), d = c.choose(4, "displacement"), v2 = c.choose(a.n(0) + 1, "second corner"), enc = c.choose(N_ENC, "encoding"), map = c.choose(N_MAP, "map");
    if (v2 < a.n(0) && (v2 <= v || (!c.run.thorough && (map % 3 || enc % 2)))) c.skip();
    if (map == 5 && SINGLE) c.skip();
    c.go();
    describe(c, f, enc, map);
    for (int k = 0; k < 3; k++) a.X[v][k] += DISP[d][k];
    if (v2 < a.n(0)) for (int k = 0; k < 3; k++) a.X[v2][k] += DISP[(d + 1) % 4][k];
    encode(a, enc);
    applyMap(a, map);
    c.state(a.digest());
    return a;
}
#endif
#if H_DIM == 3 && H_PROP == 10
MC_GROUP(gBent, "tessellated measures of cells with curved faces") {
    AbsMesh a = bent(c);
    body10(c, a, false, false);
}
#endif

#if H_PROP == 11
template <class N> static void checkNormals(mc::Case& c, const Geo& g, const N& nv, const std::string& what) {
    const AbsMesh& a = g.m;
    auto& v = nv.template getDataByPos<0>();
    c.equal(v.size(), (size_t)a.n(D - 1), "normal-alloc", what + ": number of normals");
    for (int f = 0; f < a.n(D - 1); f++) {
        P n = toP(v[f]);
        std::string w = what + ": face " + std::to_string(f);
        near(c, len(n), 1, 10, "unit", w + " length of the normal", a);
        for (int e : a.inc(D - 1, f, 1)) {
            P t = pt(a, a.sub[1][e][0]) - pt(a, a.sub[1][e][1]);
            near(c, dot(n, t) / len(t), 0, 10 * (1 + g.mag / len(t)), "perpendicular", w + " normal times edge " + std::to_string(e), a);
        }
#if H_DIM == 2
        P t = pt(a, a.sub[1][f][1]) - pt(a, a.sub[1][f][0]);
        P want{{t[1] / len(t), -t[0] / len(t), 0, 0, 0}};
        nearP(c, n, want, 1 + g.mag / len(t), "direction", w + " normal", a);
#elif H_DIM == 3
        nearP(c, n, g.normal3(f), 10 * (1 + g.mag / g.size), "direction", w + " normal from left to right", a);
#else
        int L = a.left[f], R = a.right[f];
        LD s = L >= 0 ? dot(n, g.vmean[L] - g.ctr[D - 1][f]) : dot(n, g.ctr[D - 1][f] - g.vmean[R]);
        c.check(s > 0, "direction", w + " normal does not point to the side of the left cell, mesh " + a.str());
#endif
        c.out((n[0] > 0) + 2 * (n[1] > 0));
    }
}
static void normalsOf(mc::Case& c, bool large) {
    bool planar;
    int bnd = c.choose(3, "boundary cells");
    AbsMesh a = draw(c, planar, true, large);
    Geo g(a);
    Mesh m;
    build(m, a);
    if (bnd) m.setupBoundaryCells();
    m.initializeCenters();
    if (bnd == 2) m.setupBoundaryCellsCenters();
    const Mesh& cm = m;
    checkNormals(c, g, cm.computeFaceNormals(), "computeFaceNormals");
    c.op();
    checkNormals(c, g, cm.template computeFaceNormals<METHOD_TESSELLATED>(), "computeFaceNormals<TESSELLATED>");
    c.op();
#if H_DIM <= 3
    m.template initializeCenters<METHOD_TESSELLATED>();
    checkNormals(c, g, cm.computeFaceNormals(), "computeFaceNormals, tessellated centres");
    c.op();
#else
    checkNormals(c, g, ::computeFaceNormals<METHOD_DEFAULT>(m.computeElementCenters(), cm), "computeFaceNormals(centers)");
#endif
}
MC_GROUP(gNormalsP, "normals of meshes without faces") {
    bool planar;
    AbsMesh a = draw(c, planar);
    int level = 1 + c.choose(D, "elements gone"), bnd = c.choose(2, "boundary cells");
    if (c.choices[2] > 1) c.skip();
    a = partOf(a, 0, level);
    Mesh m;
    build(m, a);
    if (bnd) m.setupBoundaryCells();
    m.initializeCenters();
    c.equal(m.computeFaceNormals().template getDataByPos<0>().size(), (size_t)0, "normals-of-nothing", "number of normals of a mesh without faces");
    c.equal(m.template computeFaceNormals<METHOD_TESSELLATED>().template getDataByPos<0>().size(), (size_t)0, "normals-of-nothing", "number of tessellated normals of a mesh without faces");
    c.op();
}
MC_GROUP(gNormals, "normals of every mesh under every map") { normalsOf(c, false); }
MC_GROUP(gNormalsL, "normals of large meshes") { normalsOf(c, true); }
#if H_DIM == 3
MC_GROUP(gBentN, "tessellated normals of curved faces") {
    AbsMesh a = bent(c);
    Geo g(a, false);
    Mesh m;
    build(m, a);
    m.initializeCenters<METHOD_TESSELLATED>();
    auto nv = m.computeFaceNormals<METHOD_TESSELLATED>();
    c.op();
    for (int f = 0; f < a.n(2); f++) {
        P n = g.meas[2][f] * toP(nv.getDataByPos<0>()[f]);
        P va = g.vecArea(f);
        LD s = a.left[f] >= 0 ? dot(va, g.tes[2][f] - g.vmean[a.left[f]]) : dot(va, g.vmean[a.right[f]] - g.tes[2][f]);
        if (s < 0) va = (LD)-1 * va;
        nearP(c, n, va, 10 * g.size * g.size * (1 + g.mag / g.size), "flux", "area times tessellated normal of face " + std::to_string(f) + " is not the vector area of the face", a);
    }
}
#endif
#endif

#if H_PROP == 16
// cells whose centre sees every edge from inside
static bool cross2(const Geo& g, int cell, int e, LD& v) {
    P p = pt(g.m, g.m.sub[1][e][0]) - g.ctr[D][cell], q = pt(g.m, g.m.sub[1][e][1]) - g.ctr[D][cell];
    v = p[0] * q[1] - p[1] * q[0];
    return fabsl(v) > 1e-3L * g.meas[D][cell];
}
static void orientOf(mc::Case& c, bool large) {
    bool planar;
    int bnd = c.choose(3, "boundary cells");
    AbsMesh a = draw(c, planar, true, large);
    Geo g(a);
    Mesh m;
    build(m, a);
    m.initializeCenters();
    if (bnd) m.setupBoundaryCells();
    if (bnd) m.setupBoundaryCellsCenters();
    // boundary cells may sit elsewhere than on their face, e.g. mirrored
    if (bnd == 2) for (auto& bc : m.getBoundaryCells()) { auto p = bc.getCenter(); p[0] += Real(0.5); p[D - 1] -= Real(0.25); bc.setCenter(p); }
    auto bcentre = [&](int f) { P p = g.ctr[D - 1][f]; if (bnd == 2) { p[0] += 0.5L; p[D - 1] -= 0.25L; } return p; };
#if H_DIM == 2
    for (int cell = 0; cell < a.n(2); cell++) for (int e : a.sub[2][cell]) {
        LD v;
        if (!cross2(g, cell, e, v)) continue;
        c.op();
        c.equal(edgeIsLeft<2>(m, Idx(cell), Idx(e)), v > 0, "edge-left", "edgeIsLeft(cell " + std::to_string(cell) + ", edge " + std::to_string(e) + ") in " + a.full());
        c.equal(edgeIsLeft(m, m.getCells()[cell], m.getEdges()[e]), v > 0, "edge-left-ref", "edgeIsLeft(cell " + std::to_string(cell) + ", edge " + std::to_string(e) + ") by elements in " + a.full());
        c.out(v > 0);
    }
#elif H_DIM == 3
    auto ori = edgesOrientation(m);
    c.equal(ori.template getDataByPos<0>().size(), (size_t)a.n(2), "orient-alloc", "number of faces in edgesOrientation");
    for (int f = 0; f < a.n(2); f++) {
        auto& o = ori.template getDataByPos<0>()[f];
        c.equal(o.size(), a.sub[2][f].size(), "orient-count", "number of edges of face " + std::to_string(f));
        P n = g.normal3(f);
        for (size_t k = 0; k < o.size(); k++) {
            int e = a.sub[2][f][k];
            bool want = dot(cross(pt(a, a.sub[1][e][0]) - g.ctr[2][f], pt(a, a.sub[1][e][1]) - g.ctr[2][f]), n) > 0;
            c.op();
            c.equal(bool(o[k]), want, "orient", "edgesOrientation of face " + std::to_string(f) + " edge " + std::to_string(e) + " in " + (a.n(0) < 14 ? a.full() : a.str()));
            if (f % 5 == 0) c.equal(edgeIsLeft(m, Idx(f), Idx(e)), want, "edge-left", "edgeIsLeft(face " + std::to_string(f) + ", edge " + std::to_string(e) + ") in " + (a.n(0) < 14 ? a.full() : a.str()));
            c.out(want);
        }
    }
#endif
    auto dist = computeCellsDistance(m);
    auto diff = computeCellsCenterDifference(m);
    c.op();
    c.equal(dist.template getDataByPos<0>().size(), (size_t)a.n(D - 1), "dist-alloc", "number of distances");
    c.equal(diff.template getDataByPos<0>().size(), (size_t)a.n(D - 1), "diff-alloc", "number of differences");
    for (int f = 0; f < a.n(D - 1); f++) {
        P l = a.left[f] >= 0 ? g.ctr[D][a.left[f]] : bcentre(f), r = a.right[f] >= 0 ? g.ctr[D][a.right[f]] : bcentre(f);
        near(c, dist.template getDataByPos<0>()[f], len(r - l), 4 * (g.mag + (bnd == 2)), "distance", "computeCellsDistance of face " + std::to_string(f), a);
        nearP(c, toP(diff.template getDataByPos<0>()[f]), r - l, 4 * (g.mag + (bnd == 2)), "difference", "computeCellsCenterDifference of face " + std::to_string(f), a);
    }
}
MC_GROUP(gOrientP, "distances of meshes without faces") {
    bool planar;
    AbsMesh a = draw(c, planar);
    int level = 1 + c.choose(D, "elements gone"), bnd = c.choose(2, "boundary cells");
    if (c.choices[2] > 1) c.skip();
    a = partOf(a, 0, level);
    Mesh m;
    build(m, a);
    m.initializeCenters();
    if (bnd) { m.setupBoundaryCells(); m.setupBoundaryCellsCenters(); }
    c.equal(computeCellsDistance(m).template getDataByPos<0>().size(), (size_t)0, "distances-of-nothing", "number of distances in a mesh without faces");
    c.equal(computeCellsCenterDifference(m).template getDataByPos<0>().size(), (size_t)0, "differences-of-nothing", "number of differences in a mesh without faces");
#if H_DIM == 3
    c.equal(edgesOrientation(m).template getDataByPos<0>().size(), (size_t)0, "orientations-of-nothing", "number of orientations in a mesh without faces");
#endif
    c.op();
}
MC_GROUP(gOrient, "orientation of edges and distances of cells of every mesh") { orientOf(c, false); }
MC_GROUP(gOrientL, "orientation of edges and distances of cells of large meshes") { orientOf(c, true); }
#endif

#if H_PROP == 9
// everything observable through the interface, for comparisons before and after
template <class V> static std::string vstr(const V& v) { std::ostringstream o; o.precision(17); for (auto& x : v) o << x << ","; return o.str(); }
template <unsigned A, unsigned B, class M> static void applyStr(std::ostream& o, const M& m) {
    o << " a" << A << B << ":";
    m.template apply<A, B>([&](Idx i, Idx j) { o << i << ">" << j << ","; });
    auto cn = m.template connections<A, B>();
    for (auto& l : cn.template getDataByPos<0>()) { for (auto& e : l) o << Idx(e) << ","; o << "/"; }
}
static std::string digestOf(Mesh& mm) {
    const Mesh& m = mm;
    std::ostringstream o;
    o.precision(17);
    for (auto& v : m.getVertices()) { o << "v" << v.getIndex(); for (int d = 0; d < D; d++) o << "," << v[d]; }
    for (auto& e : m.getEdges()) o << "e" << e.getIndex() << "," << e.getVertexAIndex() << "," << e.getVertexBIndex();
    for (auto& c : m.getCells()) { o << "c" << c.getIndex() << "," << c.getBoundaryElementIndex(); for (int d = 0; d < D; d++) o << "," << c.getCenter()[d]; }
    for (auto& f : m.getFaces()) {
        o << "f" << f.getIndex() << "," << f.getNextBElemWRTCL() << "," << f.getNextBElemWRTCR();
        o << "," << (isBoundaryIndex(f.getCellLeftIndex()) ? INV : f.getCellLeftIndex()) << "," << (isBoundaryIndex(f.getCellRightIndex()) ? INV : f.getCellRightIndex());
        for (int d = 0; d < D; d++) o << "," << f.getCenter()[d];
    }
    applyStr<D, D - 1>(o, m); applyStr<D - 1, D>(o, m); applyStr<D, 0>(o, m); applyStr<0, D>(o, m); applyStr<0, D - 1>(o, m); applyStr<D - 1, 0>(o, m);
    auto nb = m.template neighborhood<D, D - 1, D>();
    for (auto& l : nb.template getDataByPos<0>()) { for (auto& e : l) o << Idx(e) << ","; o << "|"; }
    auto nf = m.template neighborhood<D - 1, D, D - 1>();
    for (auto& l : nf.template getDataByPos<0>()) { for (auto& e : l) o << Idx(e) << ","; o << "|"; }
    o << vstr(m.template coloring<D, D - 1>().template getDataByPos<0>());
    return o.str();
}
static std::string measuresOf(Mesh& m) {
    std::ostringstream o;
    o.precision(17);
    eachDim(m.computeElementMeasures(), [&](unsigned, const std::vector<Real>& v) { o << vstr(v) << ";"; });
    auto nv = m.computeFaceNormals();
    for (auto& n : nv.template getDataByPos<0>()) for (int d = 0; d < D; d++) o << n[d] << ",";
#if H_DIM == 3
    auto eo = edgesOrientation(m);
    for (auto& v : eo.template getDataByPos<0>()) for (bool b : v) o << b;
#endif
    return o.str();
}
static std::string writtenBy(Mesh& m) {
    std::ostringstream o;
#if H_DIM <= 3
    using W = VTKMeshWriter<H_DIM, Idx, Real>;
    W w;
    MeshDataContainer<typename MeshWriter<H_DIM>::elementType::ElementType, H_DIM> ty;
#if H_DIM == 2
    ty.allocateData(m, MeshWriter<H_DIM>::elementType::ElementType::POLYGON);
#else
    ty.allocateData(m, MeshWriter<H_DIM>::elementType::ElementType::POLYHEDRON);
#endif
    w.writeHeader(o, "x");
    w.writeToStream(o, m, ty);
#endif
#if H_DIM == 3
    FPMAMeshWriter<3, Idx, Real> fw;
    fw.writeToStream(o, m);
#endif
    return o.str();
}
// the state of the boundary cells against the model: `sides` lists the (face, side) pairs that had no cell
static void checkBoundary(mc::Case& c, const Mesh& m, const AbsMesh& a, const std::string& when) {
    int want = 0;
    std::set<Idx> used;
    for (int f = 0; f < a.n(D - 1); f++) for (int s = 0; s < 2; s++) {
        int cell = s ? a.right[f] : a.left[f];
        Idx got = s ? m.getFaces()[f].getCellRightIndex() : m.getFaces()[f].getCellLeftIndex();
        std::string w = when + ": " + (s ? "right" : "left") + " side of face " + std::to_string(f) + " ";
        if (cell >= 0) { c.equal(got, Idx(cell), "cell-replaced", w + "in " + a.str()); continue; }
        want++;
        c.check(got != INV, "missing", w + "got no boundary cell in " + a.str());
        c.check(isBoundaryIndex(got), "not-boundary", w + "holds " + std::to_string((long long)got) + ", not a boundary index, in " + a.str());
        Idx k = extractBoundaryIndex(got);
        c.check(k < (Idx)m.getBoundaryCells().size(), "range", w + "refers to boundary cell " + std::to_string((long long)k) + " of " + std::to_string(m.getBoundaryCells().size()));
        c.check(used.insert(k).second, "shared", w + "shares boundary cell " + std::to_string((long long)k) + " in " + a.str());
        c.equal(m.getBoundaryCells()[k].getIndex(), got, "index", w + "index stored in its boundary cell");
        c.equal(m.getBoundaryCells()[k].getBoundaryElementIndex(), Idx(f), "face", w + "face of its boundary cell");
    }
    c.equal(m.getBoundaryCells().size(), (size_t)want, "count", when + ": number of boundary cells in " + a.str());
    c.out(want);
}
static void boundaryOps(mc::Case& c, bool large) {
    bool planar;
    AbsMesh a = draw(c, planar, false, large);
    if (!large && !c.run.thorough && c.choices[0] % 3 != c.choices[1] % 3) c.skip();   // quick: two encodings per mesh
    // up to two cells lost before, so that inner faces miss a side as well (stored on the left or on the right)
    int lost = c.choose(large ? 2 : a.n(D) + 1, "cell without stored sides");
    if (large) lost = lost ? a.n(D) / 2 : a.n(D);
    std::vector<int> keepLeft;
    Mesh m;
    build(m, a);
    m.initializeCenters();
    if (lost < a.n(D)) {     // the faces do not know this cell (as in a mesh under construction)
        for (int f = 0; f < a.n(D - 1); f++) {
            if (a.left[f] == lost) { a.left[f] = -1; m.getFaces()[f].setCellLeftIndex(INV); }
            if (a.right[f] == lost) { a.right[f] = -1; m.getFaces()[f].setCellRightIndex(INV); }
        }
    }
    bool whole = lost == a.n(D);
    std::string before, meas, file;
    if (whole) { before = digestOf(m); meas = measuresOf(m); file = writtenBy(m); }
    bool done = false, centred = false;
    std::string hist;
    int len = large ? 2 : c.run.thorough ? 4 : 3;
    for (int s = 0; s < len; s++) {
        int op = large && s == 0 ? 0 : c.choose(7, "op");
        if (op == 6 && s != 1 && !c.run.thorough) c.skip();
        hist += " " + std::to_string(op);
        switch (op) {
        case 6: {   // the sides of some faces exchanged: the cells keep their boundaries
            std::vector<std::vector<Idx>> lists[2];
            auto collect = [&](std::vector<std::vector<Idx>>& l) { for (auto& q : m.getCells()) { l.emplace_back(); if (!whole && (int)q.getIndex() == lost) continue; size_t f = q.getBoundaryElementIndex(), n = 0; do { l.back().push_back(Idx(f)); f = m.getFaces()[f].getNextBElem(q.getIndex()); } while (f != (size_t)q.getBoundaryElementIndex() && n++ < m.getFaces().size()); } };
            collect(lists[0]);
            for (size_t f = s % 2; f < m.getFaces().size(); f += 2) { m.getFaces()[f].swapCellsLR(); std::swap(a.left[f], a.right[f]); }
            collect(lists[1]);
            c.check(lists[0] == lists[1], "swap", "the boundary lists of the cells change with the sides of the faces exchanged" + hist + " in " + a.str());
            if (whole) { before = digestOf(m); meas = measuresOf(m); file = writtenBy(m); }
            break;
        }
        case 0: m.setupBoundaryCells(); done = true; centred = false; break;
        case 1: if (!done) c.skip(); m.setupBoundaryCellsCenters(); centred = true; break;
        case 2: if (!whole) c.skip(); m.initializeCenters(); break;
        case 3: {   // centres elsewhere, boundary cells follow on demand
            if (whole || centred) c.skip();
            for (auto& f : m.getFaces()) { auto p = f.getCenter(); p[0] += Real(1); f.setCenter(p); }
            centred = false;
            break;
        }
        case 4: {   // one more face without cells
            if (whole || s > 1) c.skip();
            int f = a.n(D - 1);
            auto fc = m.getFaces()[0];
            fc.setIndex(Idx(f)); fc.setCellLeftIndex(INV); fc.setCellRightIndex(INV);
            m.getFaces().push_back(fc);
            a.sub[D - 1].push_back(a.sub[D - 1][0]); a.left.push_back(-1); a.right.push_back(-1);
            done = false; centred = false;
            break;
        }
        default: {  // copies keep their boundary cells
            Mesh copy = m;
            m.clear();
            c.check(m.getBoundaryCells().empty(), "clear", "clear() keeps " + std::to_string(m.getBoundaryCells().size()) + " boundary cells");
            m = copy;
        }
        }
        c.op("boundary op" + hist);
        if (done) checkBoundary(c, m, a, "after" + hist);
        if (done && centred) for (auto& b : m.getBoundaryCells()) {
            auto p = toP(b.getCenter()), q = toP(m.getFaces()[b.getBoundaryElementIndex()].getCenter());
            nearP(c, p, q, 0, "centre", "centre of the boundary cell of face " + std::to_string((long long)b.getBoundaryElementIndex()), a);
        }
    }
    if (whole) {
        c.check(digestOf(m) == before, "rest-changed", "elements, traversals, connections, neighbours or colours differ after" + hist + " in " + a.str());
        c.check(measuresOf(m) == meas, "measures-changed", "measures, normals or orientations differ after" + hist + " in " + a.str());
        c.check(writtenBy(m) == file, "file-changed", "the written files differ after" + hist + " in " + a.str());
    }
}
MC_GROUP(gBoundary, "every operation sequence on the boundary cells of every mesh") { boundaryOps(c, false); }
MC_GROUP(gBoundaryL, "operations on the boundary cells of large meshes") { boundaryOps(c, true); }
#if H_DIM == 2 || defined(H_RES)
// the connection of a face to its cells: every state x every operation
MC_GROUP(gConnection, "every state and operation of the connection of a face to its cells") {
    const std::vector<Idx> cells = {INV, Idx(0), Idx(1), Idx(2), Idx(BND | Idx(0)), Idx(BND | Idx(1))}, nexts = {INV, Idx(5), Idx(6)};
    Idx L = c.pick(cells), R = c.pick(cells), nL = c.pick(nexts), nR = c.pick(nexts);
    c.go();
    if (L == R && L != INV) c.skip();          // a cell on both sides is not a mesh
    CellBoundaryConnection<Idx> x(L, R, nL, nR);
    int steps = c.run.thorough ? 3 : 2;
    std::string hist;
    for (int s = 0; s <= steps; s++) {
        std::string w = "connection after" + hist + ": ";
        c.state(mc::mix(mc::mix(mc::mix(mc::mix(1, L), R), nL), nR));
        c.equal(x.getCellLeftIndex(), L, "left", w + "left"); c.equal(x.getCellRightIndex(), R, "right", w + "right");
        c.equal(x.getNextBElemWRTCL(), nL, "nextL", w + "next of the left cell"); c.equal(x.getNextBElemWRTCR(), nR, "nextR", w + "next of the right cell");
        c.equal(x.cellsOK(), L != INV && R != INV, "ok", w + "cellsOK");
        for (Idx v : cells) {
            bool thrown = false; Idx o = 0, n = 0;
            try { o = x.getOtherCellIndex(v); } catch (std::runtime_error&) { thrown = true; }
            bool known = v != INV && (v == L || v == R);
            c.equal(thrown, !known, "other-throw", w + "getOtherCellIndex(" + std::to_string((long long)v) + ") throws");
            if (known) c.equal(o, v == L ? R : L, "other", w + "getOtherCellIndex(" + std::to_string((long long)v) + ")");
            thrown = false;
            try { n = x.getNextBElem(v); } catch (std::runtime_error&) { thrown = true; }
            c.equal(thrown, !known, "next-throw", w + "getNextBElem(" + std::to_string((long long)v) + ") throws");
            if (known) c.equal(n, v == L ? nL : nR, "next", w + "getNextBElem(" + std::to_string((long long)v) + ")");
        }
        if (s == steps) break;
        int op = c.choose(7, "op");
        if (op == 6) { x.swapCellsLR(); std::swap(L, R); std::swap(nL, nR); hist += " swap"; }
        else if (op < 4) {
            Idx v = c.pick(cells);
            hist += " op" + std::to_string(op) + "(" + std::to_string((long long)v) + ")";
            if (op == 0) { if (v != INV && v == R) c.skip(); x.setCellLeftIndex(v); L = v; }
            if (op == 1) { if (v != INV && v == L) c.skip(); x.setCellRightIndex(v); R = v; }
            if (op == 2) {
                if (v != INV && (v == L || v == R)) c.skip();
                bool r = x.setCellIndex(v), want = v != INV && (L == INV || R == INV);
                if (want) (L == INV ? L : R) = v;
                c.equal(r, want, "set-cell", "setCellIndex" + hist);
            }
            if (op == 3) {
                Idx n = c.pick(nexts);
                bool r = x.setNextBElem(n, v), want = false;
                if (v != INV) {
                    if (v == L) { nL = n; want = true; }
                    else if (v == R) { nR = n; want = true; }
                    else if (L == INV) { L = v; nL = n; want = true; }
                    else if (R == INV) { R = v; nR = n; want = true; }
                }
                c.equal(r, want, "set-next", "setNextBElem" + hist);
            }
        } else {
            Idx n = c.pick(nexts);
            hist += " op" + std::to_string(op) + "(" + std::to_string((long long)n) + ")";
            if (op == 4) { x.setNextBElemWRTCL(n); nL = n; } else { x.setNextBElemWRTCR(n); nR = n; }
        }
        c.op(hist);
    }
}
#endif
MC_GROUP(gMarks, "marks of invalid and boundary indexes") {
    std::vector<Idx> v = {0, 3, 100, 1000, Idx(BND - 2)};
    for (Idx p = 1; p < BND; p = Idx(p << 1)) for (Idx x : {Idx(p - 1), p, Idx(p + 1), Idx(p | (p >> 1))}) if (x < BND - 1) v.push_back(x);
    Idx i = c.pick(v);
    c.go();
    c.check(!isInvalidIndex(i) && !isBoundaryIndex(i), "plain", "index " + std::to_string((long long)i) + " counts as invalid or boundary");
    c.check(isInvalidIndex(INV), "invalid", "the invalid index is not recognised");
    Idx b = makeBoundaryIndex(i);
    c.check(isBoundaryIndex(b) && !isInvalidIndex(b) && b != i, "make", "makeBoundaryIndex(" + std::to_string((long long)i) + ")");
    c.equal(extractBoundaryIndex(b), i, "extract", "extractBoundaryIndex(makeBoundaryIndex)");
    c.equal(makeBoundaryIndex(b), b, "make-twice", "makeBoundaryIndex twice");
    c.equal(extractBoundaryIndex(i), i, "extract-plain", "extractBoundaryIndex of a plain index");
    c.op();
}
#endif
MC_MAIN
