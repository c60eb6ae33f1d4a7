// T04 vector algebra (-DH_PROP=4 -DH_T=type), T05 Gram-Schmidt (-DH_PROP=5), T06 compile-time helpers (-DH_PROP=6).
#include "mc.h"
#include <GTMesh/NumericStaticArray/Vector.h>
#include <GTMesh/NumericStaticArray/GramSchmidt.h>
#include <GTMesh/Utils/ConstexprFor.h>
#include <GTMesh/Utils/ClassSelector.h>
#include <GTMesh/Singleton/Singleton.h>
#include <GTMesh/Macros/MacroForEach.h>
#include <cmath>
#include <limits>

#if H_PROP == 4
using R = H_T;
static const bool flt = std::is_floating_point<R>::value;
static std::vector<R> menu(int dim) { std::vector<R> m{0, 1, (R)-3, 7}; if (dim <= 2) { m.push_back((R)-2); m.push_back(flt ? (R)0.5 : (R)25); m.push_back((R)100); } return m; }
template <unsigned D> static Vector<D, R> draw(mc::Case& c, const std::vector<R>& m) { Vector<D, R> v; for (unsigned i = 0; i < D; i++) v[i] = m[c.choose((int)m.size())]; return v; }
// the larger dimensions are filled by position dependent values, so that every coordinate is told apart
template <unsigned D> static Vector<D, R> patt(int k) { Vector<D, R> v; for (unsigned i = 0; i < D; i++) v[i] = (R)(k == 0 ? (int)i + 1 : k == 1 ? 5 - 3 * (int)i : k == 2 ? (i % 2 ? -7 : 11) : k < 3 + (int)D ? (i == (unsigned)k - 3 ? 9 : 0) : (i == (unsigned)k - 3 - D ? 0 : 4)); return v; }
template <unsigned D> static std::string str(const Vector<D, R>& v) { std::ostringstream o; o << "("; for (unsigned i = 0; i < D; i++) o << (i ? "," : "") << +v[i]; o << ")"; return o.str(); }
template <unsigned D> static void sameV(mc::Case& c, const Vector<D, R>& g, const std::array<R, D>& w, const std::string& key, const std::string& what, bool exact = true) {
    for (unsigned i = 0; i < D; i++) {
        bool ok = g[i] == w[i] || (g[i] != g[i] && w[i] != w[i]);
        if (!ok && !exact && flt) ok = std::fabs((double)g[i] - (double)w[i]) <= 4 * (double)std::numeric_limits<R>::epsilon() * std::fabs((double)w[i]);
        if (!ok) { std::ostringstream o; o << what << ": coordinate " << i << " is " << +g[i] << ", want " << +w[i]; c.fail(key, o.str()); }
    }
}
template <unsigned D> static uint64_t dig(const Vector<D, R>& v) { uint64_t h = D; for (unsigned i = 0; i < D; i++) { double d = (double)v[i]; uint64_t b; memcpy(&b, &d, 8); h = mc::mix(h, b); } return h; }
template <unsigned D> static void pairOps(mc::Case& c, const Vector<D, R>& a, const Vector<D, R>& b) {
    const Vector<D, R> a0 = a, b0 = b;
    std::array<R, D> add, sub; R dot = 0; bool eq = true;
    for (unsigned i = 0; i < D; i++) { add[i] = (R)(a0[i] + b0[i]); sub[i] = (R)(a0[i] - b0[i]); eq = eq && a0[i] == b0[i]; }
    for (unsigned i = 0; i < D; i++) dot = (R)(dot + (R)(a0[i] * b0[i]));
    std::string w = str(a0) + " and " + str(b0);
    c.note(w);
    sameV<D>(c, a + b, add, "add", "sum of " + w);
    sameV<D>(c, a - b, sub, "sub", "difference of " + w);
    if (flt) c.check(std::fabs((double)(a * b) - (double)dot) <= 1e-5 * (1 + std::fabs((double)dot)), "dot", "scalar product of " + w);
    else c.equal((long long)(a * b), (long long)dot, "dot", "scalar product of " + w);
    c.equal(a == b, eq, "eq", "equality of " + w); c.equal(a != b, !eq, "ne", "inequality of " + w);
    Vector<D, R> x = a; Vector<D, R>* p = &(x += b); sameV<D>(c, x, add, "add-assign", "+= of " + w); c.check(p == &x, "return", "+= does not return its left side");
    x = a; p = &(x -= b); sameV<D>(c, x, sub, "sub-assign", "-= of " + w); c.check(p == &x, "return", "-= does not return its left side");
    x = a; x += x; std::array<R, D> dbl; for (unsigned i = 0; i < D; i++) dbl[i] = (R)(a0[i] + a0[i]); sameV<D>(c, x, dbl, "add-self", "v += v of " + w);
    x = a; x -= x; std::array<R, D> nul; nul.fill(0); sameV<D>(c, x, nul, "sub-self", "v -= v of " + w);
    x = a; x = x + b; sameV<D>(c, x, add, "add-into", "v = v + w of " + w);
    // chains, as used all over the library
    std::array<R, D> chain; for (unsigned i = 0; i < D; i++) chain[i] = (R)((a0[i] + b0[i]) - (R)(a0[i] * 2));
    sameV<D>(c, (a + b) - a * 2, chain, "chain", "(v + w) - v * 2 of " + w);
    R ss = 0; for (unsigned i = 0; i < D; i++) ss = (R)(ss + (R)(a0[i] * a0[i]));
    Vector<D, R> n = a;
    c.check(n.sumOfSquares() == ss || (flt && std::fabs((double)(n.sumOfSquares() - ss)) <= 1e-5 * (double)ss), "squares", "sum of squares of " + str(a0));
    R nrm = n.normEuclid(), wn = (R)std::sqrt(flt ? (double)ss : (double)ss);
    c.check(nrm == wn || (flt && std::fabs((double)(nrm - wn)) <= 1e-6 * (double)wn), "norm", "norm of " + str(a0));
    c.check(n == a0 && b == b0 && a == a0, "operand", "an operand changed, " + w);
    c.equal((size_t)Vector<D, R>::size(), (size_t)D, "size", "size");
    c.op(); c.state(mc::mix(dig(a0), dig(b0))); c.out(dig(a0 + b0));
}
template <unsigned D, class S> static void scal(mc::Case& c, const Vector<D, R>& a, S s) {
    std::array<R, D> mul, div; 
    for (unsigned i = 0; i < D; i++) { mul[i] = (R)(a[i] * s); if (s != S(0)) { R q = a[i]; q /= s; div[i] = q; } }
    std::ostringstream o; o << str(a) << " and scalar " << s; std::string w = o.str();
    Vector<D, R> a0 = a;
    sameV<D>(c, a * s, mul, "scale", "product of " + w, false);
    Vector<D, R> x = a; Vector<D, R>* p = &(x *= s); sameV<D>(c, x, mul, "scale-assign", "*= of " + w, false); c.check(p == &x, "return", "*= does not return its left side");
    if (s != S(0)) {
        sameV<D>(c, a / s, div, "divide", "quotient of " + w, false);
        x = a; p = &(x /= s); sameV<D>(c, x, div, "divide-assign", "/= of " + w, false); c.check(p == &x, "return", "/= does not return its left side");
    }
    c.check(a == a0, "operand", "the operand changed, " + w);
    c.op(); c.out(dig(a * s));
}
template <unsigned D> static void scalars(mc::Case& c, const Vector<D, R>& a, int k) {
    switch (k) {
    case 0: scal<D>(c, a, 2); break; case 1: scal<D>(c, a, -7); break; case 2: scal<D>(c, a, 3L); break; case 3: scal<D>(c, a, 0.5); break;
    case 4: scal<D>(c, a, -1.25f); break; case 5: scal<D>(c, a, 3.0); break; case 6: scal<D>(c, a, 0); break; case 7: scal<D>(c, a, (short)5); break;
    case 8: { std::array<R, D> w; for (unsigned i = 0; i < D; i++) w[i] = (R)(a[i] * (R)3); sameV<D>(c, R(3) * a, w, "scale-left", "3 * v"); c.op(); break; }
    default: { // a coordinate of the vector itself as the scalar
        for (unsigned j = 0; j < D; j++) {
            R s = a[j]; std::array<R, D> w; Vector<D, R> x = a;
            for (unsigned i = 0; i < D; i++) w[i] = (R)(a[i] * s);
            x *= x[j]; sameV<D>(c, x, w, "scale-own", "v *= v[" + std::to_string(j) + "]", false);
            if (s != R(0)) { for (unsigned i = 0; i < D; i++) w[i] = (R)(a[i] / s); x = a; x /= x[j]; sameV<D>(c, x, w, "divide-own", "v /= v[" + std::to_string(j) + "]", false);
                x = a; x = x / x[j]; sameV<D>(c, x, w, "divide-own", "v = v / v[" + std::to_string(j) + "]", false); }
            c.op();
        } }
    }
    c.state(mc::mix(dig(a), k));
}
template <unsigned D> static void pairs(mc::Case& c) { auto m = menu(D); auto a = draw<D>(c, m); auto b = draw<D>(c, m); c.go(); pairOps<D>(c, a, b); }
template <unsigned D> static void scals(mc::Case& c) { int k = c.choose(10); auto a = draw<D>(c, menu(D)); c.go(); scalars<D>(c, a, k); }
MC_GROUP(p1, "pairs 1D") { pairs<1>(c); }
MC_GROUP(p2, "pairs 2D") { pairs<2>(c); }
MC_GROUP(p3, "pairs 3D") { pairs<3>(c); }
MC_GROUP(p4, "pairs 4D") { if (c.run.thorough) pairs<4>(c); else { auto a = patt<4>(c.choose(11)), b = patt<4>(c.choose(11)); c.go(); pairOps<4>(c, a, b); } }
MC_GROUP(p5, "pairs 5D") { auto a = patt<5>(c.choose(13)), b = patt<5>(c.choose(13)); c.go(); pairOps<5>(c, a, b); }
MC_GROUP(p9, "pairs 9D") { auto a = patt<9>(c.choose(21)), b = patt<9>(c.choose(21)); c.go(); pairOps<9>(c, a, b); }
MC_GROUP(s1, "scalars 1D") { scals<1>(c); }
MC_GROUP(s2, "scalars 2D") { scals<2>(c); }
MC_GROUP(s3, "scalars 3D") { scals<3>(c); }
MC_GROUP(s5, "scalars 5D") { int k = c.choose(10); auto a = patt<5>(c.choose(13)); c.go(); scalars<5>(c, a, k); }
MC_GROUP(s9, "scalars 9D") { int k = c.choose(10); auto a = patt<9>(c.choose(21)); c.go(); scalars<9>(c, a, k); }
#define MORE(D) MC_GROUP(p##D, "pairs " #D "D") { auto a = patt<D>(c.choose(2 * D + 3)), b = patt<D>(c.choose(2 * D + 3)); c.go(); pairOps<D>(c, a, b); } \
    MC_GROUP(s##D, "scalars " #D "D") { int k = c.choose(10); auto a = patt<D>(c.choose(2 * D + 3)); c.go(); scalars<D>(c, a, k); }
MORE(6) MORE(7) MORE(8) MORE(10) MORE(16) MORE(17) MORE(33)
// initializer lists of any length into fresh and used vectors
template <unsigned D> static void initList(mc::Case& c) {
    int n = c.choose(6), how = c.choose(4), old = c.choose(3);
    c.go();
    auto v = patt<D>(old); auto keep = v;
    switch (n) {
#define L(N, ...) case N: if (how == 0) v = {__VA_ARGS__}; else if (how == 1) v = Vector<D, R>{__VA_ARGS__}; else if (how == 2) { Vector<D, R> x({__VA_ARGS__}); v = x; } else { Vector<D, R> x = {__VA_ARGS__}; v = x; } break;
    L(0) L(1, R(4)) L(2, R(4), R(-9)) L(3, R(4), R(-9), R(2)) L(4, R(4), R(-9), R(2), R(8)) L(5, R(4), R(-9), R(2), R(8), R(1))
#undef L
    }
    static const int all[] = {4, -9, 2, 8, 1};
    std::array<R, D> w; for (unsigned i = 0; i < D; i++) w[i] = (int)i < n ? (R)all[i] : R(0);
    c.op(); c.state(n * 100 + how * 10 + old); c.out(n);
    c.note(std::to_string(n) + " values into " + std::to_string(D) + " coordinates, form " + std::to_string(how));
    sameV<D>(c, v, w, "list", "vector from a list");
}
MC_GROUP(i1, "lists 1D") { initList<1>(c); }
MC_GROUP(i3, "lists 3D") { initList<3>(c); }
MC_GROUP(i5, "lists 5D") { initList<5>(c); }
// cross product: all pairs, and its axioms through the scalar product
MC_GROUP(g_cross, "cross") {
    auto m = menu(3); auto a = draw<3>(c, m), b = draw<3>(c, m);
    c.go();
    auto p = vectorProduct(a, b);
    std::array<R, 3> w{{(R)(a[1] * b[2] - a[2] * b[1]), (R)(a[2] * b[0] - a[0] * b[2]), (R)(a[0] * b[1] - a[1] * b[0])}};
    sameV<3>(c, p, w, "cross", "vector product of " + str(a) + " and " + str(b));
    c.check(p * a == 0 && p * b == 0, "orthogonal", "the vector product is not orthogonal");
    auto q = vectorProduct(b, a);
    for (int i = 0; i < 3; i++) c.check(p[i] == -q[i], "antisymmetric", "the vector product is not antisymmetric");
    c.op(); c.state(mc::mix(dig(a), dig(b))); c.out(dig(p));
}
// sums of products are not cut to a narrower type on the way
MC_GROUP(g_wide, "wide") {
    int k = c.choose(4), at = c.choose(3);
    c.go();
    R big = std::is_same<R, long long>::value ? (R)3037000499LL : std::is_same<R, int>::value ? (R)40000 : flt ? (R)(sizeof(R) == 4 ? 4095 : sizeof(R) == 8 ? 94906265 : 3037000499.0L) : (R)100;
    Vector<3, R> v; v.fill(0); v[at] = (R)(big - k);
    R want = (R)((big - k) * (big - k));
    c.op(); c.state(k * 3 + at); c.out((uint64_t)want);
    c.check(v * v == want && v.sumOfSquares() == want, "precision", "the scalar product loses digits of its type");
    Vector<3, R> u; u.fill(0); u[at] = 1; u[(at + 1) % 3] = (R)(big - k);
    c.check(u * u == (R)(want + 1), "precision", "the scalar product loses digits of its type");
}
#endif

#if H_PROP == 5
template <unsigned D, class R> using Vs = std::vector<Vector<D, R>>;
// rank modulo a prime (never more than the rank over the integers)
static int rankOf(std::vector<std::vector<long long>> m) {
    const long long P = 1000003;
    int r = 0, rows = m.size(), cols = rows ? m[0].size() : 0;
    for (int col = 0; col < cols && r < rows; col++) {
        int p = r; while (p < rows && m[p][col] == 0) p++;
        if (p == rows) continue;
        std::swap(m[p], m[r]);
        for (int i = r + 1; i < rows; i++) { long long f = m[i][col], g = m[r][col]; for (int k = 0; k < cols; k++) m[i][k] = (m[i][k] * g - m[r][k] * f) % P; }
        r++;
    }
    return r;
}
static long double detOf(std::vector<std::vector<long double>> m) { // by permutations of rows with pivoting
    long double d = 1; int n = m.size();
    for (int c = 0; c < n; c++) {
        int p = c; for (int i = c; i < n; i++) if (fabsl(m[i][c]) > fabsl(m[p][c])) p = i;
        if (m[p][c] == 0) return 0;
        if (p != c) { std::swap(m[p], m[c]); d = -d; }
        d *= m[c][c];
        for (int i = c + 1; i < n; i++) { long double f = m[i][c] / m[c][c]; for (int k = c; k < n; k++) m[i][k] -= f * m[c][k]; }
    }
    return d;
}
template <unsigned N, unsigned D, class R, class I> static void orth(mc::Case& c, int values, double scale) {
    int over = c.choose(4);
    std::vector<std::vector<long long>> m(N, std::vector<long long>(D));
    static const int menu[] = {0, 1, -2, 3, 5};
    if (values) for (auto& r : m) for (auto& x : r) x = menu[c.choose(values)];
    else {               // many vectors: four kinds of bases with any two entries changed
        int kind = c.choose(4), i = c.choose(N), j = c.choose(D), k = c.choose(N < 11 ? c.run.thorough ? N : 2 : 1), l = N < 11 ? c.choose(D) : c.choose(c.run.thorough ? 5 : 2) * (D - 1) / 4;
        for (int r = 0; r < (int)N; r++) for (int x = 0; x < (int)D; x++) m[r][x] = kind == 0 ? (r == x ? 3 : 0) : kind == 1 ? (x >= r) : kind == 2 ? (r == x ? 5 : x < r ? -1 : 0) : (r == x ? 4 : (r + 2 * x) % 3 - 1);
        m[i][j] += 1; m[(i + k + 1) % N][l] -= 2;
    }
    c.go();
    if (rankOf(m) < (int)N) c.skip();
    std::array<Vector<D, R>, N> in; for (unsigned i = 0; i < N; i++) for (unsigned j = 0; j < D; j++) in[i][j] = (R)(m[i][j] * scale);
    std::array<Vector<D, R>, N> v = in; std::array<R, N> norms; Vs<D, R> vv(in.begin(), in.end()); std::vector<R> vn(c.choices.size() % 3);
    switch (over) {
    case 0: gramSchmidt<N, D, I, R>(v); break;
    case 1: gramSchmidt<D, I, R>(vv); for (unsigned i = 0; i < N; i++) v[i] = vv[i]; c.equal(vv.size(), (size_t)N, "size", "number of vectors"); break;
    case 2: gramSchmidt<N, D, I, R>(v, norms); break;
    default: gramSchmidt<D, I, R>(vv, vn); for (unsigned i = 0; i < N; i++) v[i] = vv[i]; c.equal(vn.size(), (size_t)N, "size", "number of norms"); for (unsigned i = 0; i < N; i++) norms[i] = vn[i];
    }
    std::ostringstream o; o << N << " vectors in " << D << " dimensions, overload " << over << ": "; for (auto& r : m) { for (auto x : r) o << x << " "; o << "; "; } std::string w = o.str(); c.note(w);
    // model: classical elimination in extended precision
    std::vector<std::vector<long double>> q(N, std::vector<long double>(D));
    std::vector<long double> qn(N);
    for (unsigned i = 0; i < N; i++) {
        for (unsigned j = 0; j < D; j++) q[i][j] = (long double)m[i][j] * scale;
        for (unsigned k = 0; k < i; k++) { long double s = 0, n = 0; for (unsigned j = 0; j < D; j++) { s += q[i][j] * q[k][j]; n += q[k][j] * q[k][j]; } for (unsigned j = 0; j < D; j++) q[i][j] -= s / n * q[k][j]; }
        qn[i] = 0; for (auto x : q[i]) qn[i] += x * x; qn[i] = sqrtl(qn[i]);
    }
    long double eps = sizeof(R) == 4 ? 3e-3L : 1e-9L, big = 6.0L * scale;
    for (unsigned i = 0; i < N; i++) {
        long double n2 = 0;
        for (unsigned j = 0; j < D; j++) {
            long double want = over >= 2 ? q[i][j] / qn[i] : q[i][j], tol = over >= 2 ? eps * big / qn[i] : eps * big;
            c.check(fabsl((long double)v[i][j] - want) <= tol, "vector", w + "coordinate " + std::to_string(j) + " of vector " + std::to_string(i) + " is " + std::to_string((double)v[i][j]) + ", want " + std::to_string((double)want));
            n2 += (long double)v[i][j] * v[i][j];
        }
        if (over >= 2) { c.check(fabsl((long double)norms[i] - qn[i]) <= eps * big, "norm", w + "norm " + std::to_string(i)); c.check(fabsl(n2 - 1) < eps * 10, "unit", w + "a vector is not normalized"); }
    }
    for (unsigned i = 0; i < N; i++) for (unsigned k = 0; k < i; k++) { long double s = 0, a = 0, b = 0; for (unsigned j = 0; j < D; j++) { s += (long double)v[i][j] * v[k][j]; a += (long double)v[i][j] * v[i][j]; b += (long double)v[k][j] * v[k][j]; }
        c.check(fabsl(s) <= eps * 200 * sqrtl(a * b), "orthogonal", w + "vectors are not orthogonal"); }
    // the volume they span is the product of the norms
    std::vector<std::vector<long double>> gram(N, std::vector<long double>(N, 0)); for (unsigned i = 0; i < N; i++) for (unsigned k = 0; k < N; k++) for (unsigned j = 0; j < D; j++) gram[i][k] += (long double)m[i][j] * m[k][j];
    long double vol = 1; for (unsigned i = 0; i < N; i++) { long double n = 0; if (over >= 2) n = norms[i]; else { for (unsigned j = 0; j < D; j++) n += (long double)v[i][j] * v[i][j]; n = sqrtl(n); } vol *= n / scale; }
    long double wantVol = sqrtl(fabsl(detOf(gram)));
    c.check(fabsl(vol - wantVol) <= eps * 200 * (1 + wantVol), "volume", w + "the product of the norms is not the volume");
    uint64_t h = N * 10 + D; for (auto& r : m) for (auto x : r) h = mc::mix(h, (uint64_t)x); c.op(); c.state(h); c.out((uint64_t)(wantVol * 1000));
}
#define G(N, D, R, I, V, S) MC_GROUP(g_##N##D##R##I##S, #N " vectors " #D "D " #R " " #I " scale " #S) { orth<N, D, R, I>(c, V && c.run.thorough && N * D <= 4 ? 5 : V, 1e##S); }
using ulong_t = size_t; using uint_t = unsigned; using ushort_t = unsigned short;
#define GM(N, D, R, I) G(N, D, R, I, 0, 0)
GM(5, 5, double, ulong_t) GM(4, 6, double, uint_t) GM(6, 6, double, ulong_t) GM(7, 7, double, ushort_t) GM(3, 9, double, ulong_t) GM(8, 9, double, ulong_t) GM(10, 10, double, uint_t) GM(12, 12, double, ulong_t) GM(17, 18, double, ulong_t) GM(33, 33, double, ushort_t)
G(1, 1, double, ulong_t, 5, 0) G(1, 2, double, ulong_t, 5, 0) G(1, 3, double, ulong_t, 5, 0) G(2, 2, double, ulong_t, 5, 0) G(2, 2, float, uint_t, 5, 0) G(2, 3, double, ulong_t, 4, 0) G(2, 3, double, uint_t, 3, 6)
G(2, 3, float, ushort_t, 3, 0) G(3, 3, double, ulong_t, 3, 0) G(2, 4, double, uint_t, 3, 0) G(3, 4, double, ulong_t, 2, 0) G(4, 4, double, ulong_t, 2, 0) G(2, 5, double, ulong_t, 2, 0)
#endif

#if H_PROP == 6
// loops: the functor runs once for every index, in order, with the arguments of the call
struct Rec { template <size_t I> static void exec(std::vector<size_t>& seen, int& sum, const std::string& s) { seen.push_back(I); sum += (int)I + (int)s.size(); } template <size_t I> static void exec(std::vector<size_t>& seen) { seen.push_back(I); } };
struct Noth { template <size_t I> static void exec() { count() += I; } static size_t& count() { static size_t k = 0; return k; } };
static std::string join(const std::vector<size_t>& v) { std::string s; for (size_t x : v) s += std::to_string(x) + " "; return s; }
template <size_t A, size_t B, size_t S> static void loop(mc::Case& c) {
    std::vector<size_t> want; for (size_t i = A; i < B; i += S) want.push_back(i);
    std::vector<size_t> got, got2; int sum = 0, wsum = 0; for (size_t i : want) wsum += (int)i + 3;
    std::string nm = "loop from " + std::to_string(A) + " to " + std::to_string(B) + " by " + std::to_string(S);
    std::string txt("abc");
    constexprFor<Rec, A, B, S>(got, sum, txt);
    c.equal(join(got), join(want), "loop", nm); c.equal(sum, wsum, "loop-args", nm + ", arguments");
    if (S == 1) { got2.clear(); constexprFor<Rec, A, B>(got2); c.equal(join(got2), join(want), "loop-default", nm + " with the default step"); }
    if (S == 1 && A == 0) { got2.clear(); constexprFor<Rec, B>(got2); c.equal(join(got2), join(want), "loop-zero", nm + " with the default start"); }
    got2.clear(); ConstexprFor<A, B, S>::template exec<Rec>(got2); c.equal(join(got2), join(want), "loop-class", nm);
    Noth::count() = 0; ConstexprFor<A, B, S>::template exec<Noth>(); size_t w = 0; for (size_t i : want) w += i; c.equal(Noth::count(), w, "loop-noargs", nm + " without arguments");
    c.op(); c.state(A * 10000 + B * 100 + S); c.out(join(want));
}
template <size_t A, size_t B> static void steps(mc::Case& c, int s) { switch (s) { case 0: loop<A, B, 1>(c); break; case 1: loop<A, B, 2>(c); break; default: loop<A, B, 3>(c); } }
template <size_t A> static void stops(mc::Case& c, int b, int s) { switch (b) { case 0: steps<A, A>(c, s); break; case 1: steps<A, A + 1>(c, s); break; case 2: steps<A, A + 2>(c, s); break; case 3: steps<A, A + 3>(c, s); break; case 4: steps<A, A + 6>(c, s); break; case 5: steps<A, A + 7>(c, s); break; default: steps<A, A + 25>(c, s); } }
MC_GROUP(g_long, "long loops") { int b = c.choose(8), s = c.choose(3); c.go(); switch (b) { case 0: steps<0, 31>(c, s); break; case 1: steps<0, 32>(c, s); break; case 2: steps<0, 33>(c, s); break; case 3: steps<3, 67>(c, s); break; case 4: steps<0, 65>(c, s); break; case 5: steps<0, 129>(c, s); break; case 6: steps<1, 257>(c, s); break; default: steps<250, 260>(c, s); } }
MC_GROUP(g_loop, "loops") { int a = c.choose(4), b = c.choose(7), s = c.choose(3); c.go(); switch (a) { case 0: stops<0>(c, b, s); break; case 1: stops<1>(c, b, s); break; case 2: stops<2>(c, b, s); break; default: stops<7>(c, b, s); } }
// selection: the first class whose condition holds, else the last one
template <int N> struct Tag { static const int id = N; };
template <class V, class C> struct Hold : std::integral_constant<bool, (V::value >> C::id) & 1> {};
template <int M> struct Mask { static const int value = M; };
template <int M> static void selectOne(mc::Case& c) {
    int want[4]; for (int n = 1; n <= 4; n++) { want[n - 1] = n - 1; for (int i = 0; i < n; i++) if (M >> i & 1) { want[n - 1] = i; break; } }
    c.equal(ClassSelector<Mask<M>, Hold, Tag<0>>::SelectedClass::id + 0, want[0], "selector", "one class");
    c.equal(ClassSelector<Mask<M>, Hold, Tag<0>, Tag<1>>::SelectedClass::id + 0, want[1], "selector", "two classes, conditions " + std::to_string(M));
    c.equal(ClassSelector<Mask<M>, Hold, Tag<0>, Tag<1>, Tag<2>>::SelectedClass::id + 0, want[2], "selector", "three classes, conditions " + std::to_string(M));
    c.equal(ClassSelector<Mask<M>, Hold, Tag<0>, Tag<1>, Tag<2>, Tag<3>>::SelectedClass::id + 0, want[3], "selector", "four classes, conditions " + std::to_string(M));
    c.op(); c.state(M); c.out(want[3] + want[2] * 4);
}
MC_GROUP(g_sel, "selector") { int m = c.choose(16); c.go(); switch (m) {
#define S(N) case N: selectOne<N>(c); break;
    S(0) S(1) S(2) S(3) S(4) S(5) S(6) S(7) S(8) S(9) S(10) S(11) S(12) S(13) S(14) S(15) } }
// one instance per class, made at the first use
static int made[2];
template <int K> struct Single { int value = 5; Single() { made[K]++; } };
struct Own : Singleton<Own> { int n = 1; };
MC_GROUP(g_single, "singleton") {
    std::vector<int> ops; for (int i = 0; i < 5; i++) ops.push_back(c.choose(4));
    c.go();
    static int want[2] = {0, 0}, model[2] = {5, 5};   // one process, one history: the model lives as long as the instances
    for (int o : ops) {
        int k = o & 1; want[k] = 1;
        int& v = k ? Singleton<Single<1>>::getInstance().value : Singleton<Single<0>>::getInstance().value;
        c.equal(v, model[k], "value", "state of the instance");
        if (o & 2) { v++; model[k]++; }
        c.equal(made[0], want[0], "made", "instances made"); c.equal(made[1], want[1], "made", "instances made");
        c.op();
    }
    c.check(&Own::getInstance() == &Own::getInstance() && &Singleton<Own>::getInstance() == &Own::getInstance(), "same", "different instances");
    c.state(made[0] * 2 + made[1]); c.out(ops[0] + 4 * ops[1]);
}
// FOR_EACH: every argument once, in order, for all counts up to 40
#define ONE_ARG(x) x + 1
#define TWO_ARGS(x, y) x * 100 + y
#define STAT(s, x, y) s + x * 100 + y
#define SEQ(N, ...) case N: got = {FOR_EACH(ONE_ARG, __VA_ARGS__)}; break;
#define SEQ2(N, ...) case N: got = {FOR_EACH_2ARGS(TWO_ARGS, __VA_ARGS__)}; break;
#define SEQ3(N, ...) case N: got = {FOR_EACH_3ARGS_1STAT(STAT, 7, __VA_ARGS__)}; break;
#define SEQ4(N, ...) case N: got = {FOR_EACH_EVEN(ONE_ARG, __VA_ARGS__)}; break;
#define SEQ5(N, ...) case N: got = {FOR_EACH_ODD(ONE_ARG, __VA_ARGS__)}; break;
#include "foreachgen.h"
MC_GROUP(g_each, "for each") {
    int form = c.choose(5), n = 1 + c.choose(40);
    if (form && n % 2 != (form == 4)) c.skip();
    c.go();
    std::vector<int> got, want;
    switch (form) { case 0: got = each1(n); break; case 1: got = each2(n); break; case 2: got = each3(n); break; case 3: got = each4(n); break; default: got = each5(n); }
    for (int i = 1; i <= n; i++) { if (form == 0 || (form == 3 && i % 2 == 0) || (form == 4 && i % 2)) want.push_back(i + 1); else if (form < 3 && i % 2 == 0) want.push_back((i - 1) * 100 + i + (form == 2 ? 7 : 0)); }
    c.op(); c.state(form * 100 + n); c.out(n);
    c.equal(join(std::vector<size_t>(got.begin(), got.end())), join(std::vector<size_t>(want.begin(), want.end())), "each", "form " + std::to_string(form) + " with " + std::to_string(n) + " arguments");
}
#endif
MC_MAIN
