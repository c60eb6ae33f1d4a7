// T03 element-wise arithmetic of traited classes.   -DH_PART=0..3
#include "mc.h"
#include "sizes.h"
#include <GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#include <array>
#include <limits>
#ifndef H_PART
#define H_PART 0
#endif
// every class lists its arithmetic leaves for the model
#define Z(m) f(r.m, a.m, b.m);
struct Pair2 { double x, y; template <class F> static void zip(Pair2& r, const Pair2& a, const Pair2& b, F f) { Z(x) Z(y) } };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Pair2, x, y);
struct Mix { int i; double d; float g; long l; template <class F> static void zip(Mix& r, const Mix& a, const Mix& b, F f) { Z(i) Z(d) Z(g) Z(l) } };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Mix, i, d, g, l);
struct One { int v; template <class F> static void zip(One& r, const One& a, const One& b, F f) { Z(v) } };
MAKE_ATTRIBUTE_TRAIT(One, v);
struct Nest { Pair2 p; double z; Pair2 q; template <class F> static void zip(Nest& r, const Nest& a, const Nest& b, F f) { Z(p.x) Z(p.y) Z(z) Z(q.x) Z(q.y) } };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Nest, p, z, q);
struct Deep { Nest n; Mix m; template <class F> static void zip(Deep& r, const Deep& a, const Deep& b, F f) { Z(n.p.x) Z(n.p.y) Z(n.z) Z(n.q.x) Z(n.q.y) Z(m.i) Z(m.d) Z(m.g) Z(m.l) } };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Deep, n, m);
struct Wide { double a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11; template <class F> static void zip(Wide& r, const Wide& a, const Wide& b, F f) { Z(a0) Z(a1) Z(a2) Z(a3) Z(a4) Z(a5) Z(a6) Z(a7) Z(a8) Z(a9) Z(a10) Z(a11) } };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Wide, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11);
struct Shorts { short s; signed char c; long long q; template <class F> static void zip(Shorts& r, const Shorts& a, const Shorts& b, F f) { Z(s) Z(c) Z(q) } };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Shorts, s, c, q);
struct Acc { double x, y; const double& getX() const { return x; } double& X() { return x; } template <class F> static void zip(Acc& r, const Acc& a, const Acc& b, F f) { Z(x) Z(y) } };
MAKE_CUSTOM_TRAIT_ARITHMETIC(Acc, "x", std::make_pair(&Acc::getX, &Acc::X), "y", &Acc::y);
template <unsigned D, class R> struct Tm { R u; R w; template <class F> static void zip(Tm& r, const Tm& a, const Tm& b, F f) { Z(u) Z(w) } };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((Tm<D, R>), (unsigned D, class R), u, w);
// only some of the attributes take part
struct Part { double a; int tag; double b; template <class F> static void zip(Part& r, const Part& a, const Part& b, F f) { Z(a) Z(b) } };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Part, a, b);
struct WithVec { double rho; Vector<3, double> p; template <class F> static void zip(WithVec& r, const WithVec& a, const WithVec& b, F f) { Z(rho) Z(p[0]) Z(p[1]) Z(p[2]) } };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(WithVec, rho, p);
// operators that do not commute: the order of the operands is that of the expression
struct Ord { std::string s; friend Ord operator+(const Ord& a, const Ord& b) { return {"(" + a.s + "+" + b.s + ")"}; } friend Ord operator-(const Ord& a, const Ord& b) { return {"(" + a.s + "-" + b.s + ")"}; } friend Ord operator*(const Ord& a, const Ord& b) { return {"(" + a.s + "*" + b.s + ")"}; } };
struct Ordered { Ord x; std::string t; Ord y; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Ordered, x, y);
struct OrdNest { Ordered n; Ord z; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(OrdNest, n, z);
#undef Z

static const double menu[] = {0, 1, -2, 3, 7, -5, 49};
// k < 7: small integers; others: with many digits, beyond a byte and, in double, beyond the precision of float
template <class R> static R digits(double v) { return std::is_floating_point<R>::value ? (sizeof(R) == 4 ? (R)(v * 1000 + 7.25) : (R)(v * 1000.1 + 1 / 3.0)) : sizeof(R) == 1 ? (R)v : sizeof(R) == 2 ? (R)(v * 100 + 7) : (R)(v * 300 + 7); }
template <class T> static T value(int k, int stride, bool positive) {
    T t{}; int n = 0;
    T::zip(t, t, t, [&](auto& r, auto, auto) { double v = menu[(k + stride * n++) % 7]; using R = std::decay_t<decltype(r)>; r = k >= 7 ? digits<R>(v) : (R)(positive ? std::fabs(v) + 1 : v); });
    return t;
}
template <class R> static bool near(R g, R w) {
    if (!std::is_floating_point<R>::value) return g == w;
    if (g == w || (g != g && w != w)) return true;
    return std::fabs((double)g - (double)w) <= (sizeof(R) == 4 ? 2e-6 : 1e-13) * (std::fabs((double)g) + std::fabs((double)w));
}
template <class T> static void same(mc::Case& c, const T& got, const T& want, const std::string& key, const std::string& what) {
    T x = got; int n = 0;
    T::zip(x, got, want, [&](auto&, auto g, auto w) { if (!near(g, w)) { std::ostringstream o; o << what << ": attribute " << n << " is " << +g << ", want " << +w; c.fail(key, o.str()); } n++; });
}
template <class T> static bool exactly(const T& a, const T& b) { bool ok = true; T x = a; T::zip(x, a, b, [&](auto&, auto g, auto w) { ok = ok && (g == w || (g != g && w != w)); }); return ok; }
template <class T> static uint64_t digest(const T& t) { uint64_t h = 3; T x = t; T::zip(x, t, t, [&](auto&, auto g, auto) { double d = (double)g; uint64_t b; memcpy(&b, &d, 8); h = mc::mix(h, b); }); return h; }
template <class T> static T tmp(const T& t) { return t; }

// op with two objects: cc, cr, rc, rr, aliased
#define FOUR(OP) (how == 0 ? T(a OP b) : how == 1 ? T(a OP tmp(b)) : how == 2 ? T(tmp(a) OP b) : how == 3 ? T(tmp(a) OP tmp(b)) : T(a OP a))
template <class T, bool mult> struct Mul { static T go(const T& a, const T& b, int how) { return FOUR(*); } static void assign(T& a, const T& b) { a *= b; } static const bool has = true; };
template <class T> struct Mul<T, false> { static T go(const T& a, const T&, int) { return a; } static void assign(T&, const T&) {} static const bool has = false; };
template <class T, bool mult> static void binary(mc::Case& c, const char* name) {
    int op = c.choose(6), how = c.choose(5), ka = c.choose(8), sa = c.choose(3) + 1, kb = c.choose(8), sb = c.choose(3);
    c.go();
    if (!Mul<T, mult>::has && (op == 2 || op == 5)) c.skip();
    if (op >= 3 && how != 0 && how != 1 && how != 4) c.skip();
    T a = value<T>(ka, sa, false), b = value<T>(kb, sb, false), a0 = a, b0 = b, want{};
    const T& B = how == 4 ? a0 : b0;
    T::zip(want, a0, B, [&](auto& r, auto x, auto y) { using R = std::decay_t<decltype(r)>; r = op % 3 == 0 ? (R)(x + y) : op % 3 == 1 ? (R)(x - y) : (R)(x * y); });
    static const char* nm[] = {"a + b", "a - b", "a * b", "a += b", "a -= b", "a *= b"};
    std::string w = std::string(name) + ": " + nm[op] + (how == 4 ? " with b = a" : how == 1 ? " (temporary b)" : how == 2 ? " (temporary a)" : how == 3 ? " (temporaries)" : "");
    c.note(w);
    if (op < 3) {
        const T& ca = a; const T& cb = b;
        auto go = [&](const T& a, const T& b) { return op == 0 ? FOUR(+) : op == 1 ? FOUR(-) : Mul<T, mult>::go(a, b, how); };
        T r = go(ca, cb);
        same(c, r, want, "value", w);
        if (how == 0) { T r2 = op == 0 ? T(a + b) : op == 1 ? T(a - b) : Mul<T, mult>::go(a, b, 0); same(c, r2, want, "value-lvalue", w); }
        c.check(exactly(a, a0) && exactly(b, b0), "operand", w + " changed an operand");
    } else {
        const T& use = how == 4 ? a : b;
        T* ret = nullptr;
        if (op == 3) ret = how == 1 ? &(a += tmp(b)) : &(a += use); else if (op == 4) ret = how == 1 ? &(a -= tmp(b)) : &(a -= use); else { if (how == 1) Mul<T, mult>::assign(a, tmp(b)); else Mul<T, mult>::assign(a, use); ret = &a; }
        same(c, a, want, "assign", w);
        c.check(ret == &a, "return", w + " does not return its left side");
        c.check(how == 4 || exactly(b, b0), "operand", w + " changed its right side");
    }
    c.op(); c.state(digest(want)); c.out(digest(want));
}
template <class T, class S> static void scalarOp(mc::Case& c, const char* name, S s, int op, int how, int ka, int sa) {
    T a = value<T>(ka, sa, false), a0 = a, want{};
    T::zip(want, a0, a0, [&](auto& r, auto x, auto) { using R = std::decay_t<decltype(r)>; r = op == 3 ? (R)(x / s) : (R)(x * s); });
    std::ostringstream o; o << name << ": " << (op == 0 ? "a * s" : op == 1 ? "s * a" : op == 2 ? "a *= s" : "a / s") << " with s = " << s << (std::is_integral<S>::value ? " (integer)" : "") << (how ? " (temporary)" : "");
    c.note(o.str());
    const T& ca = a;
    T r{};
    switch (op) {
    case 0: r = how == 0 ? ca * s : how == 1 ? tmp(a) * s : a * s; break;
    case 1: r = how == 0 ? s * ca : how == 1 ? s * tmp(a) : s * a; break;
    case 2: { T* p = &(a *= s); r = a; c.check(p == &a, "return", o.str() + " does not return its left side"); a = a0; break; }
    default: r = how == 0 ? ca / s : how == 1 ? tmp(a) / s : a / s; break;
    }
    same(c, r, want, "scalar", o.str());
    c.check(exactly(a, a0), "operand", o.str() + " changed its operand");
    c.op(); c.state(digest(want)); c.out(digest(want));
}
template <class T> static void scalar(mc::Case& c, const char* name) {
    int op = c.choose(4), how = c.choose(3), sc = c.choose(9), ka = c.choose(9), sa = c.choose(3) + 1;
    c.go();
    if (op == 2 && how) c.skip();
    switch (sc) {
    case 0: scalarOp<T>(c, name, 2, op, how, ka, sa); break;
    case 1: scalarOp<T>(c, name, 7, op, how, ka, sa); break;
    case 2: scalarOp<T>(c, name, -3, op, how, ka, sa); break;
    case 3: scalarOp<T>(c, name, 49L, op, how, ka, sa); break;
    case 4: scalarOp<T>(c, name, 0.5, op, how, ka, sa); break;
    case 5: scalarOp<T>(c, name, 2.0, op, how, ka, sa); break;
    case 6: scalarOp<T>(c, name, -1.25f, op, how, ka, sa); break;
    case 7: scalarOp<T>(c, name, 1, op, how, ka, sa); break;
    default: if (op == 3) c.skip(); scalarOp<T>(c, name, 0, op, how, ka, sa); break;
    }
}
template <class T> static void functions(mc::Case& c, const char* name) {
    int op = c.choose(13), how = c.choose(3), ka = c.choose(7), sa = c.choose(3) + 1, p = op < 4 ? c.choose(4) : 0;
    c.go();
    bool small = op == 2 || op == 3, positive = op != 10 && op != 11;
    T a = value<T>(ka, sa, positive), want{};
    if (op <= 4) T::zip(a, a, a, [&](auto& r, auto x, auto) { r = (std::decay_t<decltype(r)>)(op <= 3 ? 1 + std::fabs((double)x) / 10 : (double)x / 25 + 1); });  // exponents and powers that stay in range
    T a0 = a;
    static const double es[] = {2, 3, 0, 0.5};
    double e = es[p]; int ie = (int)e;
    T::zip(want, a0, a0, [&](auto& r, auto x, auto) { using R = std::decay_t<decltype(r)>;
        switch (op) {
        case 0: r = (R)std::pow(x, e); break; case 1: r = (R)std::pow(x, ie); break; case 2: r = (R)std::pow(e, x); break; case 3: r = (R)std::pow(ie, x); break;
        case 4: r = (R)std::exp(x); break; case 5: r = (R)std::log(x); break; case 6: r = (R)std::log2(x); break; case 7: r = (R)std::log10(x); break; case 8: r = (R)std::sqrt(x); break; case 9: r = (R)std::cbrt(x); break;
        case 10: r = (R)-x; break; case 11: r = x < 0 ? (R)-x : x; break; default: r = (R)std::sqrt(std::cbrt((R)(x + x))); } });
    static const char* nm[] = {"pow(a, p)", "pow(a, integer)", "pow(p, a)", "pow(integer, a)", "exp(a)", "log(a)", "log2(a)", "log10(a)", "sqrt(a)", "cbrt(a)", "-a", "abs(a)", "sqrt(cbrt(a + a))"};
    std::string w = std::string(name) + ": " + nm[op] + (how == 1 ? " (temporary)" : "");
    c.note(w);
    const T& ca = a;
#define F3(E) { auto f = [&](auto&& x) -> T { return E; }; (void)f; }
#define THREE(CALL) (how == 0 ? T(CALL(ca)) : how == 1 ? T(CALL(tmp(a))) : T(CALL(a)))
    T r{};
    switch (op) {
    case 0: r = how == 0 ? T(pow(ca, e)) : how == 1 ? T(pow(tmp(a), e)) : T(pow(a, e)); break;
    case 1: r = how == 0 ? T(pow(ca, ie)) : how == 1 ? T(pow(tmp(a), ie)) : T(pow(a, ie)); break;
    case 2: r = how == 0 ? T(pow(e, ca)) : how == 1 ? T(pow(e, tmp(a))) : T(pow(e, a)); break;
    case 3: r = how == 0 ? T(pow(ie, ca)) : how == 1 ? T(pow(ie, tmp(a))) : T(pow(ie, a)); break;
    case 4: r = THREE(exp); break; case 5: r = THREE(log); break; case 6: r = THREE(log2); break; case 7: r = THREE(log10); break; case 8: r = THREE(sqrt); break; case 9: r = THREE(cbrt); break;
    case 10: r = THREE(-); break; case 11: r = THREE(abs); break;
    default: r = sqrt(cbrt(ca + a)); break;
    }
    // a nested class computes its leaves as the outer one does
    if (op != 12) same(c, r, want, "function", w);
    else if (std::is_same<T, Pair2>::value || std::is_same<T, Wide>::value || std::is_same<T, Nest>::value) same(c, r, want, "function", w);
    c.check(exactly(a, a0), "operand", w + " changed its operand");
    c.op(); c.state(digest(want)); c.out(digest(want));
}
template <class T> static void aggregate(mc::Case& c, const char* name) {
    int op = c.choose(3), how = c.choose(2), ka = c.choose(14), sa = c.choose(4);
    c.go();
    T a = value<T>(ka, sa, false), a0 = a, x = a;
    double want = 0, size = 1; bool first = true;
    T::zip(x, a0, a0, [&](auto&, auto v, auto) { double d = (double)v; size += std::fabs(d); want = first ? d : op == 0 ? std::max(want, d) : op == 1 ? std::min(want, d) : want + d; first = false; });
    double g = op == 0 ? (how ? max(tmp(a)) : max(a)) : op == 1 ? (how ? min(tmp(a)) : min(a)) : (how ? sum(tmp(a)) : sum(a));
    c.op(); c.state(digest(a) + op); c.out((uint64_t)(int64_t)want);
    c.note(std::string(name) + (op == 0 ? " max" : op == 1 ? " min" : " sum"));
    c.check(op < 2 ? g == want : std::fabs(g - want) <= 1e-14 * size, "aggregate", std::string(name) + (op == 0 ? ": max" : op == 1 ? ": min" : ": sum") + " is " + std::to_string(g) + ", want " + std::to_string(want));
    c.check(exactly(a, a0), "operand", "aggregation changed its operand");
}
#define CLASS(T, id, mult) \
    MC_GROUP(bin_##id, "binary-" #id) { binary<T, mult>(c, #id); } \
    MC_GROUP(sca_##id, "scalar-" #id) { scalar<T>(c, #id); } \
    MC_GROUP(agg_##id, "aggregate-" #id) { aggregate<T>(c, #id); }
#define CLASSF(T, id, mult) CLASS(T, id, mult) MC_GROUP(fun_##id, "functions-" #id) { functions<T>(c, #id); }

#if H_PART == 1
// the scalar is an attribute of the operand itself
MC_GROUP(g_self, "self-scaling") {
    int op = c.choose(4), which = c.choose(5), ka = c.choose(7), sa = c.choose(3) + 1;
    c.go();
    Nest a = value<Nest>(ka, sa, op == 3), a0 = a, want{};
    double* at[] = {&a.p.x, &a.p.y, &a.z, &a.q.x, &a.q.y};
    double s = *at[which];
    Nest::zip(want, a0, a0, [&](auto& r, auto x, auto) { r = op == 3 ? x / s : x * s; });
    Nest r{};
    switch (op) { case 0: a *= *at[which]; r = a; break; case 1: r = a * *at[which]; break; case 2: r = *at[which] * a; break; default: r = a / *at[which]; }
    c.op(); c.state(digest(want)); c.out(digest(want)); c.note("scaled by attribute " + std::to_string(which));
    same(c, r, want, "value", "scaled by its own attribute");
}
#endif
#if H_PART == 0
CLASSF(Pair2, Pair2, true) CLASSF(Mix, Mix, true) CLASSF(One, One, true)
#elif H_PART == 1
CLASSF(Nest, Nest, true) CLASSF(Deep, Deep, true)
#elif H_PART == 2
CLASSF(Wide, Wide, true) CLASSF(Acc, Acc, true) CLASS(Shorts, Shorts, true)
#elif H_PART == 3
using TmF = Tm<2, float>; using TmL = Tm<3, long double>;
CLASS(TmF, TmF, true) CLASSF(TmL, TmL, true) CLASS(WithVec, WithVec, false)
// attributes outside the arithmetic traits are left alone
MC_GROUP(g_part, "partial") {
    int op = c.choose(6), ka = c.choose(7), kb = c.choose(7), tag = c.choose(3) - 1;
    c.go();
    Part a = value<Part>(ka, 1, false), b = value<Part>(kb, 2, false); a.tag = tag * 1000; b.tag = 5;
    Part a0 = a, b0 = b, want = a;
    Part::zip(want, a0, b0, [&](auto& r, auto x, auto y) { r = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : op == 3 ? x * 3 : op == 4 ? x * 0.25 : x; });
    switch (op) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; case 3: a *= 3; break; case 4: a *= 0.25; break; default: { Part r = a + b; r = a - b; r = a * 2; r = -a; (void)r; } }
    same(c, a, want, "value", "partial");
    c.check(a.tag == tag * 1000 && b.tag == 5 && b.a == b0.a && b.b == b0.b, "untouched", "an attribute outside the arithmetic traits changed");
    c.op(); c.state(op * 1000 + ka * 100 + kb * 10 + tag); c.out(op);
}
// containers
template <class C, class E> static void container(mc::Case& c, const char* name, int minLen, int maxLen) {
    int op = c.choose(5), n = minLen + c.choose(maxLen - minLen + 1);
    C v(n); std::vector<double> m(n);
    int fine = c.choose(2);
    for (int i = 0; i < n; i++) { m[i] = menu[c.choose(5)]; v[i] = fine ? digits<E>(m[i]) : (E)m[i]; m[i] = (double)v[i]; }
    c.go();
    if (fine && op == 4 && sizeof(E) == 2) c.skip();        // the square is no short
    C keep = v;
    c.op(); c.state(mc::hashStr(name) + op + n * 100); c.note(name);
    if (op < 3) {
        double want = 0; for (int i = 0; i < n; i++) want = i == 0 ? m[i] : op == 0 ? std::max(want, m[i]) : op == 1 ? std::min(want, m[i]) : want + m[i];
        double g = op == 0 ? max(v) : op == 1 ? min(v) : sum(v);
        c.equal(g, want, "aggregate", std::string(name) + (op == 0 ? ": max" : op == 1 ? ": min" : ": sum"));
        c.out((uint64_t)(int64_t)want);
    } else {
        C r = op == 3 ? abs(v) : pow(v, 2);
        c.equal(r.size(), v.size(), "size", "size of the result");
        for (int i = 0; i < n; i++) c.equal((double)r[i], op == 3 ? std::fabs(m[i]) : (double)(E)(m[i] * m[i]), "element", std::string(name) + (op == 3 ? ": abs" : ": pow"));
    }
    c.check(v == keep, "operand", "the container changed");
}
// long containers, the extreme value at every place of interest
template <class E> static void longContainer(mc::Case& c, const char* name) {
    auto ns = sizes::upTo(c.run.thorough ? 5000 : 1100);
    int n = (int)ns[c.choose((int)ns.size())], op = c.choose(5), where = c.choose(8);
    c.go();
    if (n < 3) c.skip();
    const int at[] = {0, 1, n / 2, n - 2, n - 1, std::min(n - 1, 63), std::min(n - 1, 64), std::min(n - 1, 256)};
    std::vector<E> v(n); double want = 0;
    for (int i = 0; i < n; i++) v[i] = E((i * 7 + n) % 13 - 6);
    v[at[where]] = E(op == 0 ? 77 : op == 1 ? -77 : 50);
    for (int i = 0; i < n; i++) want = i == 0 ? v[i] : op == 0 ? std::max(want, (double)v[i]) : op == 1 ? std::min(want, (double)v[i]) : want + v[i];
    auto keep = v;
    c.op(); c.state(mc::mix(n, op * 8 + where)); c.out((uint64_t)(int64_t)want);
    if (op < 3) { double g = op == 0 ? max(v) : op == 1 ? min(v) : sum(v); c.equal(g, want, "aggregate", std::string(name) + " of " + std::to_string(n) + (op == 0 ? ": max" : op == 1 ? ": min" : ": sum")); }
    else {
        auto r = op == 3 ? abs(v) : pow(v, 2);
        c.equal(r.size(), v.size(), "size", "size of the result");
        for (int i = 0; i < n; i++) c.equal((double)r[i], op == 3 ? std::fabs((double)v[i]) : (double)v[i] * v[i], "element", std::string(name) + (op == 3 ? ": abs" : ": pow"));
    }
    c.check(v == keep, "operand", "the container changed");
}
MC_GROUP(c_longd, "long vector<double>") { longContainer<double>(c, "vector<double>"); }
MC_GROUP(c_longi, "long vector<int>") { longContainer<int>(c, "vector<int>"); }
// an array of the other kind: getSize, setSize, getElement
template <class E> struct TnlArr { std::vector<E> d; long getSize() const { return (long)d.size(); } void setSize(long n) { d.resize(n); } E& operator[](long i) { return d[i]; } const E& operator[](long i) const { return d[i]; } E getElement(long i) const { return d[i]; } void setElement(long i, E x) { d[i] = x; } };
template <class E> static void tnlArray(mc::Case& c, const char* name) {
    auto ns = sizes::upTo(c.run.thorough ? 5000 : 1100);
    int n = (int)ns[c.choose((int)ns.size())], shift = c.choose(13), p = c.choose(4);
    c.go();
    TnlArr<E> v; v.setSize(n); for (int i = 0; i < n; i++) v.d[i] = E((i * 7 + shift) % 13 - 6);
    auto keep = v.d; auto r = pow(v, p);
    c.op(); c.state(mc::mix(n, shift * 4 + p)); c.note(name);
    c.equal((long)r.getSize(), (long)n, "size", "size of the result");
    uint64_t h = 0;
    for (int i = 0; i < n; i++) { double w = p == 0 ? 1 : p == 1 ? keep[i] : p == 2 ? keep[i] * keep[i] : keep[i] * keep[i] * keep[i]; h = mc::mix(h, (uint64_t)(int64_t)w); c.equal((double)r[i], w, "element", std::string(name) + ": pow of element " + std::to_string(i)); }
    c.out(h); c.check(v.d == keep, "operand", "the array changed");
}
MC_GROUP(c_tnld, "TNL-like array of double") { tnlArray<double>(c, "TnlArr<double>"); }
MC_GROUP(c_tnli, "TNL-like array of int") { tnlArray<int>(c, "TnlArr<int>"); }
template <class E, size_t N> struct Arr : std::array<E, N> { Arr(int) {} };
MC_GROUP(c_vd, "vector<double>") { container<std::vector<double>, double>(c, "vector<double>", 0, 4); }
MC_GROUP(c_vi, "vector<int>") { container<std::vector<int>, int>(c, "vector<int>", 0, 4); }
MC_GROUP(c_vs, "vector<short>") { container<std::vector<short>, short>(c, "vector<short>", 0, 3); }
MC_GROUP(c_vl, "vector<long>") { container<std::vector<long long>, long long>(c, "vector<long long>", 0, 3); }
MC_GROUP(c_vf, "vector<float>") { container<std::vector<float>, float>(c, "vector<float>", 0, 3); }
template <class T> static T orderedResult(int op, int how, T& a, T& b) {
    if (op == 3) { if (how & 1) a += tmp(b); else a += b; return a; }
    if (op == 4) { if (how & 1) a -= tmp(b); else a -= b; return a; }
    if (op == 5) { if (how & 1) a *= tmp(b); else a *= b; return a; }
    return op == 0 ? FOUR(+) : op == 1 ? FOUR(-) : FOUR(*);
}
MC_GROUP(c_order, "operands in order") {
    int op = c.choose(6), how = c.choose(5), nested = c.choose(2), same = c.choose(2);
    c.go();
    if (op >= 3 && how > 1) c.skip();
    Ordered a{{"a"}, "t", {"b"}}, b{{same ? "a" : "c"}, "u", {"d"}};
    auto want = [&](const std::string& l, const std::string& r) { return "(" + l + "+-*"[op % 3] + r + ")"; };
    const Ordered B = how == 4 ? a : b, A = a; c.op(); c.state(op * 100 + how * 10 + nested);
    if (!nested) {
        Ordered r = orderedResult(op, how, a, b); c.out(mc::hashStr(r.x.s));
        c.equal(r.x.s, want(A.x.s, B.x.s), "order", "first attribute"); c.equal(r.y.s, want(A.y.s, B.y.s), "order", "second attribute");
    } else {
        OrdNest na{a, {"z"}}, nb{b, {"w"}};
        OrdNest r = orderedResult(op, how, na, nb); c.out(mc::hashStr(r.z.s));
        c.equal(r.n.x.s, want(A.x.s, B.x.s), "order", "nested attribute"); c.equal(r.n.y.s, want(A.y.s, B.y.s), "order", "nested attribute");
        c.equal(r.z.s, want("z", how == 4 ? "z" : "w"), "order", "attribute");
    }
}
MC_GROUP(c_a3, "array") { container<Arr<double, 3>, double>(c, "array<double, 3>", 3, 3); }
MC_GROUP(c_nested, "nested containers") {
    int op = c.choose(3), n = 1 + c.choose(2), kind = c.choose(2);
    std::vector<std::vector<double>> v; std::vector<Pair2> w; double want = 0; bool first = true;
    for (int i = 0; i < n; i++) { v.push_back({}); Pair2 p; for (int j = 0; j < 2; j++) { double d = menu[c.choose(5)]; v[i].push_back(d); (j ? p.y : p.x) = d; want = first ? d : op == 0 ? std::max(want, d) : op == 1 ? std::min(want, d) : want + d; first = false; } w.push_back(p); }
    c.go();
    double g = kind ? (op == 0 ? max(v) : op == 1 ? min(v) : sum(v)) : (op == 0 ? max(w) : op == 1 ? min(w) : sum(w));
    c.op(); c.state(op * 10 + n); c.out((uint64_t)(int64_t)want);
    c.equal(g, want, "aggregate", kind ? "vector of vectors" : "vector of traited classes");
    auto av = abs(v); auto aw = abs(w); auto pw = pow(w, 2);
    for (int i = 0; i < n; i++) { for (int j = 0; j < 2; j++) c.equal(av[i][j], std::fabs(v[i][j]), "abs", "abs of a vector of vectors"); c.equal(aw[i].x, std::fabs(w[i].x), "abs", "abs of a vector of classes"); c.equal(aw[i].y, std::fabs(w[i].y), "abs", "abs of a vector of classes"); c.equal(pw[i].y, w[i].y * w[i].y, "pow", "pow of a vector of classes"); }
}
#endif
MC_MAIN
