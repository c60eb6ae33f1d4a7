// D01 text exported to streams (-DH_PROP=1), D02 text exported to stdio (-DH_PROP=2).  -DH_PART=0..5
#include "printref.h"
#include "sizes.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

struct Stdout {                                    // what is printed to the standard output
    int saved, fd;
    Stdout() { fflush(stdout); saved = dup(1); fd = memfd_create("out", 0); dup2(fd, 1); }
    ~Stdout() { if (saved >= 0) end(); }
    std::string end() { fflush(stdout); dup2(saved, 1); close(saved); saved = -1; std::string r; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n); close(fd); return r; }
};
template <class T> static void show(mc::Case& c, const T& v, const std::string& want(const T&, const ref::Opt&));
static std::string state(const std::ostream& o) { return std::to_string((long)o.flags()) + "/" + std::to_string(o.precision()) + "/" + std::to_string((int)o.fill()) + "/" + std::to_string(o.width()) + "/" + std::to_string(o.rdstate()); }

// print: exports into a stream or, without one, to stdio
template <class Print> static void verify(mc::Case& c, const std::string& type, const std::function<std::string(const ref::Opt&)>& want, const Print& print, int how) {
    ref::Opt o;
#if H_PROP == 1
    std::string got; Stdout guard;
    auto run = [&](std::ostream& s) { std::string before = state(s); print(&s); std::string after = state(s); if (before != after) { guard.end(); c.fail(type + "/stream state", before + " became " + after); } };
    switch (how) {
    case 0: { std::ostringstream s; s << "pre"; print(s); s << "post"; got = s.str(); break; }
    case 1: { std::stringbuf b; std::ostream s(&b); s.precision(o.prec = 17); s << "pre"; run(s); s << "post"; got = b.str(); break; }
    case 2: { std::ofstream s("out.txt"); s.precision(o.prec = 3); s.fill('#'); s << "pre"; print(s); s << "post"; s.close(); std::ifstream f("out.txt"); std::stringstream t; t << f.rdbuf(); got = t.str(); break; }
    default: { std::stringstream s; std::ostream& r = s; s << "pre"; run(r); run(r); s << "post"; got = s.str(); break; }
    }
    std::string leaked = guard.end();
    c.equal(leaked, std::string(), type + "/stdout", "exporting into a stream printed to the standard output");
    std::string w = want(o); if (how == 3) w += w;
    c.equal(got, "pre" + w + "post", type, "exported text");
#else
    std::stringbuf errb; auto* old = std::cerr.rdbuf(&errb);
    std::string got; { Stdout guard; printf("pre"); print(nullptr); if (how) print(nullptr); printf("post"); got = guard.end(); }
    std::cerr.rdbuf(old);
    c.equal(errb.str(), std::string(), type + "/stderr", "printed to the error output");
    std::string w = want(o); if (how) w += w;
    c.equal(got, "pre" + w + "post", type, "text printed to the standard output");
#endif
}
#if H_PROP == 1
constexpr int HOW = 4;
#define EXPORTER(...) [&](auto&& s) { exportTo(s, __VA_ARGS__); }
template <class... A> static void exportTo(std::ostream* s, const A&... a) { VariableExport::exportVariable(*s, a...); }
template <class S, class... A> static void exportTo(S& s, const A&... a) { VariableExport::exportVariable(s, a...); }
#else
constexpr int HOW = 2;
#define EXPORTER(...) [&](std::nullptr_t) { VariableExport::exportVariable(__VA_ARGS__); }
#endif
template <class T> static void values(mc::Case& c, const char* type) {
    static const std::vector<T> all[2] = {gen::Gen<T>::all(false), gen::Gen<T>::all(true)};
    auto& vs = all[c.run.thorough ? 1 : 0];
    int i = c.choose((int)vs.size()), how = c.choose(HOW);
    c.go();
    const T v = vs[i];
    ref::Opt o; std::string t = ref::text(v, o);
    c.note(std::string(type) + ": " + t);
    verify(c, type, [&](const ref::Opt& o) { return ref::text(v, o); }, EXPORTER(v), how);
    c.op(); c.state(mc::hashStr(t, how)); c.out(t);
}
struct Type { const char* name; void (*f)(mc::Case&, const char*); };
#define TYPE(...) {#__VA_ARGS__, &values<__VA_ARGS__>}
template <class T> using V = std::vector<T>;
template <class T> using L = std::list<T>;
using S = std::string;
template <class A, class B> using M = std::map<A, B>;
template <class A, class B> using P = std::pair<A, B>;
#if H_PART < 5
MC_GROUP(g_types, "types") {
    static const std::vector<Type> types = {
#if H_PART == 0
        TYPE(bool), TYPE(char), TYPE(short), TYPE(unsigned short), TYPE(int), TYPE(unsigned), TYPE(long), TYPE(unsigned long), TYPE(long long), TYPE(unsigned long long), TYPE(float), TYPE(double), TYPE(long double),
        TYPE(S), TYPE(const char*), TYPE(char*), TYPE(Plain), TYPE(Custom),
#elif H_PART == 1
        TYPE(V<int>), TYPE(V<bool>), TYPE(V<double>), TYPE(V<S>), TYPE(V<char>), TYPE(L<size_t>), TYPE(std::deque<long double>), TYPE(std::forward_list<int>), TYPE(std::set<S>), TYPE(std::set<int>), TYPE(std::array<int, 3>),
        TYPE(std::array<bool, 2>), TYPE(std::array<S, 1>), TYPE(std::valarray<double>), TYPE(Vertex<2, double>), TYPE(Vertex<3, float>), TYPE(Vector<4, int>), TYPE(Vertex<1, double>), TYPE(DataContainer<int, 2>), TYPE(ByValue), TYPE(TnlLike), TYPE(V<Custom>), TYPE(V<Plain>), TYPE(V<const char*>),
        TYPE(V<unsigned>), TYPE(V<ByValue>),
#elif H_PART == 2
        TYPE(P<int, S>), TYPE(P<S, bool>), TYPE(P<char, double>), TYPE(P<P<int, int>, P<S, char>>), TYPE(M<int, int>), TYPE(M<S, V<int>>), TYPE(M<S, M<int, bool>>), TYPE(std::multimap<int, S>), TYPE(std::unordered_map<int, double>), TYPE(std::tuple<>), TYPE(std::tuple<int>), TYPE(std::tuple<S, bool>),
        TYPE(std::tuple<int, double, char>), TYPE(std::tuple<V<int>, std::tuple<int, S>>), TYPE(V<std::tuple<int, S>>), TYPE(V<P<int, V<S>>>), TYPE(P<V<int>, L<S>>), TYPE(M<P<int, int>, std::tuple<bool, S>>), TYPE(std::tuple<P<int, S>>),
#elif H_PART == 3
        TYPE(V<V<int>>), TYPE(V<V<V<bool>>>), TYPE(L<std::set<int>>), TYPE(V<std::array<V<S>, 2>>), TYPE(std::deque<L<V<double>>>), TYPE(std::array<Vertex<2, double>, 2>), TYPE(V<Vertex<3, double>>), TYPE(V<DataContainer<V<int>, 1>>), TYPE(V<P<bool, M<int, S>>>), TYPE(std::array<std::array<std::array<int, 1>, 2>, 2>),
#else
        TYPE(Leaf), TYPE(One), TYPE(Hidden), TYPE(Node), TYPE(V<Leaf>), TYPE(M<S, Leaf>), TYPE(P<Hidden, One>), TYPE(Box<int>), TYPE(Box<V<S>>), TYPE(Box<Leaf>), TYPE(Box<Box<Box<bool>>>), TYPE(std::tuple<Leaf, Hidden>), TYPE(L<Box<P<int, One>>>), TYPE(std::array<Node, 1>), TYPE(DataContainer<Leaf, 3>), TYPE(Box<unsigned>), TYPE(V<Box<long>>),
#endif
    };
    int i = c.choose((int)types.size());
    types[i].f(c, types[i].name);
}
#endif
#if H_PART == 0
// texts and containers of lengths around the powers of two
template <class T> static void longValue(mc::Case& c, const char* type, const T& v, int how) {
    verify(c, type, [&](const ref::Opt& o) { return ref::text(v, o); }, EXPORTER(v), how);
    c.op(); std::string t = ref::text(v, ref::Opt()); c.state(mc::hashStr(t, how)); c.out(t);
}
MC_GROUP(g_long, "long values") {
    int kind = c.choose(10), how = c.choose(HOW);
    auto ns = sizes::upTo((kind < 2 ? 66000 : 4100) * (c.run.thorough ? 10 : 1));
    size_t n = ns[c.choose((int)ns.size())];
    c.go();
    c.note(std::to_string(n));
    S text; for (size_t i = 0; i < n; i++) text += (char)(i % 37 == 5 ? '"' : i % 41 == 7 ? '\\' : i % 43 == 9 ? '%' : 'a' + i % 26);
    switch (kind) {
    case 0: longValue(c, "text", text, how); break;
    case 1: longValue(c, "const char*", text.c_str(), how); break;
    case 2: { V<int> v(n); for (size_t i = 0; i < n; i++) v[i] = (int)i * 7919 - 5; longValue(c, "list", v, how); break; }
    case 3: { V<bool> v(n); for (size_t i = 0; i < n; i++) v[i] = i % 3; longValue(c, "bits", v, how); break; }
    case 4: { M<int, S> m; for (size_t i = 0; i < n; i++) m[(int)i] = S(i % 4, 'm'); longValue(c, "map", m, how); break; }
    case 5: { L<P<int, double>> l; for (size_t i = 0; i < n; i++) l.push_back({(int)i, i * 0.5}); longValue(c, "pairs", l, how); break; }
    case 6: { V<V<int>> v{V<int>(n, 3), {}, V<int>(n / 2, -1)}; longValue(c, "nested", v, how); break; }
    case 7: { std::valarray<double> v(n); for (size_t i = 0; i < n; i++) v[i] = i * 0.25; longValue(c, "valarray", v, how); break; }
    case 8: { std::deque<S> v; for (size_t i = 0; i < n; i++) v.push_back(S(i % 5, 'd')); longValue(c, "deque", v, how); break; }
    default: { V<Leaf> v; for (size_t i = 0; i < n; i++) v.push_back(Leaf{(int)i, S(i % 3, 's'), i % 2 == 0}); longValue(c, "classes", v, how); }
    }
}
template <size_t N> static void literal(mc::Case& c, const char (&t)[N], int how) {
    c.go(); ref::Opt o;
    verify(c, "char array", [&](const ref::Opt& o) { return ref::quote(t, o); }, EXPORTER(t), how);
    c.op(); c.state(mc::hashStr(t, how)); c.out(t);
}
MC_GROUP(g_literals, "literals") {
    int i = c.choose(5), how = c.choose(HOW);
    char buf[32] = "part of a buffer"; const char part[] = {'a', 'b', 0, 'c', 0};
    switch (i) { case 0: literal(c, "", how); break; case 1: literal(c, "text", how); break; case 2: literal(c, "with \"quotes\" and %d %s", how); break; case 3: literal(c, buf, how); break; default: literal(c, part, how); }
}
#if H_PROP == 1
struct Opaque { unsigned char b[5]; }; enum class Scoped : short { a = 1, b = -2 };
MC_GROUP(g_other, "classes without printer") {     // the bytes of the object, in order; the stream is left as it was
    int kind = c.choose(3), base = c.choose(3), fill = c.choose(2), how = c.choose(2), v = c.choose(4);
    c.go();
    std::ostringstream s; s << (base == 0 ? std::dec : base == 1 ? std::hex : std::oct); if (fill) s.fill('*');
    std::string before = state(s), want;
    auto bytes = [&](const void* p, size_t n) { std::string r; char b[8]; for (size_t i = 0; i < n; i++) { snprintf(b, 8, "%s%02x", i ? " " : "", ((const unsigned char*)p)[i]); r += b; } return "(" + r + ")"; };
    static const unsigned char vals[] = {0, 1, 0x7f, 0xfe};
    std::ostream& r = s;
    if (kind == 0) { Opaque o{{vals[v], 2, vals[3 - v], 0, 255}}; VariableExport::exportVariable(s, o); want = typeid(Opaque).name() + bytes(&o, sizeof o); }
    else if (kind == 1) { Scoped o = v % 2 ? Scoped::a : Scoped::b; VariableExport::exportVariable(r, o); want = typeid(Scoped).name() + bytes(&o, sizeof o); }
    else { std::vector<Opaque> o(v); for (int k = 0; k < v; k++) o[k] = {{vals[k], vals[v], 9, 8, 7}}; VariableExport::exportVariable(r, o); std::vector<std::string> t; for (auto& x : o) t.push_back(typeid(Opaque).name() + bytes(&x, sizeof x)); want = ref::list(t); }
    c.op(); c.state(mc::hashStr(s.str(), base * 2 + fill)); c.out(s.str());
    c.equal(s.str(), want, "bytes", "text");
    c.equal(state(s), before, "state", "state of the stream");
    (void)how;
}
MC_GROUP(g_base, "number formats") {               // manipulators set by the user apply
    int base = c.choose(3), v = c.choose(6), kind = c.choose(3);
    c.go();
    std::ostringstream s, w; auto m = base == 0 ? std::dec : base == 1 ? std::hex : std::oct; s << m << std::fixed; w << m << std::fixed; s.precision(2); w.precision(2);
    static const int vals[] = {0, 1, -1, 255, 4096, -70000};
    if (kind == 0) { VariableExport::exportVariable(s, vals[v]); w << vals[v]; } else if (kind == 1) { VariableExport::exportVariable(s, vals[v] / 7.0); w << vals[v] / 7.0; } else { VariableExport::exportVariable(s, std::vector<int>{vals[v], 18}); w << "[ " << vals[v] << ", " << 18 << " ]"; }
    c.op(); c.state(mc::hashStr(s.str())); c.out(s.str());
    c.equal(s.str(), w.str(), "format", "text");
}
MC_GROUP(g_streamed, "operator<<") { values<Streamed>(c, "Streamed"); }
MC_GROUP(g_streamed2, "operator<< in a list") { values<V<Streamed>>(c, "V<Streamed>"); }
#endif
#endif
#if H_PART == 5
// ------------------------------------------------------------------ traits bound for the export
static auto leafShort() { static const auto t = makeTraits<Leaf>("S", &Leaf::s); return t; }
using LeafShort = decltype(leafShort());
using LeafRev = decltype(makeTraits<Leaf>("b", &Leaf::b, "a", &Leaf::a));
using BareT = decltype(makeTraits<Bare>("x", &Bare::x));
using NodeT = decltype(makeTraits<Node>("list", &Node::list, "leaf", &Node::leaf, "map", &Node::map, "pair", &Node::pair));
using OneT = decltype(makeTraits<One>("1", &One::only));
struct Outer { std::vector<Bare> v; std::pair<int, Bare> p; std::tuple<Bare, Leaf> t; std::array<Bare, 2> a; std::map<int, Bare> m; Bare b; Leaf leaf; int n; };
using OuterT = decltype(makeTraits<Outer>("v", &Outer::v, "p", &Outer::p, "t", &Outer::t, "a", &Outer::a, "m", &Outer::m, "b", &Outer::b, "leaf", &Outer::leaf, "n", &Outer::n));
struct Which { bool leaf, leafRev, one; };
static std::string leafText(const Leaf& l, int mode, const ref::Opt& o) { // 0 default, 1 short, 2 reversed
    return mode == 0 ? ref::text(l, o) : mode == 1 ? ref::attrs({{"S", ref::text(l.s, o)}}) : ref::attrs({{"b", ref::text(l.b, o)}, {"a", ref::text(l.a, o)}});
}
static std::string nodeText(const Node& n, bool bound, int leaf, bool one, const ref::Opt& o) {
    std::vector<std::string> l, m; for (auto& x : n.list) l.push_back(leafText(x, leaf, o));
    for (auto& x : n.map) m.push_back("{ " + ref::text(x.first, o) + ": " + (one ? ref::attrs({{"1", ref::text(x.second.only, o)}}) : ref::text(x.second, o)) + "}");
    std::string lf = leafText(n.leaf, leaf, o), pr = ref::text(n.pair, o);
    if (bound) return ref::attrs({{"list", ref::list(l)}, {"leaf", lf}, {"map", ref::list(m)}, {"pair", pr}});
    return ref::attrs({{"leaf", lf}, {"list", ref::list(l)}, {"map", ref::list(m)}, {"pair", pr}, {"h", ref::text(n.h, o)}});
}
static const LeafShort ls = makeTraits<Leaf>("S", &Leaf::s);
static const LeafRev lr = makeTraits<Leaf>("b", &Leaf::b, "a", &Leaf::a);
static const BareT bt = makeTraits<Bare>("x", &Bare::x);
static const NodeT nt = makeTraits<Node>("list", &Node::list, "leaf", &Node::leaf, "map", &Node::map, "pair", &Node::pair);
static const OneT ot = makeTraits<One>("1", &One::only);
static const OuterT outt = makeTraits<Outer>("v", &Outer::v, "p", &Outer::p, "t", &Outer::t, "a", &Outer::a, "m", &Outer::m, "b", &Outer::b, "leaf", &Outer::leaf, "n", &Outer::n);
MC_GROUP(g_bound, "bound traits of nested classes") {
    static const std::vector<Node> all[2] = {gen::Gen<Node>::all(false), gen::Gen<Node>::all(true)};
    auto& vs = all[c.run.thorough ? 1 : 0];
    int i = c.choose((int)vs.size()), bind = c.choose(9), how = c.choose(HOW);
    c.go();
    Node v = vs[i];
    const char* k = "bound";
    auto want = [&](bool b, int leaf, bool one) { return [&v, b, leaf, one](const ref::Opt& o) { return nodeText(v, b, leaf, one, o); }; };
    switch (bind) {
    case 0: verify(c, k, want(true, 0, false), EXPORTER(bindTraits(v, nt)), how); break;
    case 1: verify(c, k, want(true, 1, false), EXPORTER(bindTraits(v, nt, ls)), how); break;
    case 2: verify(c, k, want(true, 2, true), EXPORTER(bindTraits(v, nt, lr, ot)), how); break;
    case 3: verify(c, k, want(true, 2, true), EXPORTER(bindTraits(v, ot, lr, nt)), how); break;
    case 4: verify(c, k, want(false, 1, false), EXPORTER(bindTraits(v, ls)), how); break;
    case 5: verify(c, k, want(false, 0, true), EXPORTER(bindTraits(v, ot)), how); break;
    case 6: verify(c, k, want(true, 1, false), EXPORTER(bindTraits(v, nt, ls, lr)), how); break;   // the first of two for one class
    case 7: { const Node& cv = v; verify(c, k, want(false, 0, false), EXPORTER(bindTraits(cv, bt)), how); break; }
    default: { std::vector<Node> two{v, v}; verify(c, k, [&](const ref::Opt& o) { return ref::list({nodeText(v, true, 2, false, o), nodeText(v, true, 2, false, o)}); }, EXPORTER(bindTraits(two, nt, lr)), how); break; }
    }
    c.op(); c.state(i * 64 + bind * 4 + how); c.out(bind);
}
MC_GROUP(g_longBound, "long values with bound traits") {
    int kind = c.choose(5), two = c.choose(2), how = c.choose(HOW);
    auto ns = sizes::upTo(c.run.thorough ? 8200 : 1100);
    size_t n = ns[c.choose((int)ns.size())];
    c.go();
    c.note(std::to_string(n));
    auto leaf = [](size_t i) { return Leaf{(int)i * 31 - 7, S(i % 3, 's'), i % 2 == 0}; };
    auto run = [&](const auto& v, const std::function<std::string(const ref::Opt&)>& want) { if (two) verify(c, "long", want, EXPORTER(bindTraits(v, nt, lr)), how); else verify(c, "long", want, EXPORTER(bindTraits(v, lr)), how); };
    auto texts = [n, leaf](const ref::Opt& o) { std::vector<std::string> t; for (size_t i = 0; i < n; i++) t.push_back(leafText(leaf(i), 2, o)); return t; };
    switch (kind) {
    case 0: { V<Leaf> v; for (size_t i = 0; i < n; i++) v.push_back(leaf(i)); run(v, [&](const ref::Opt& o) { return ref::list(texts(o)); }); break; }
    case 1: { L<Leaf> v; for (size_t i = 0; i < n; i++) v.push_back(leaf(i)); run(v, [&](const ref::Opt& o) { return ref::list(texts(o)); }); break; }
    case 2: { M<int, Leaf> v; for (size_t i = 0; i < n; i++) v[(int)i] = leaf(i); run(v, [&](const ref::Opt& o) { auto t = texts(o); for (size_t i = 0; i < n; i++) t[i] = "{ " + std::to_string(i) + ": " + t[i] + "}"; return ref::list(t); }); break; }
    case 3: { std::pair<V<Leaf>, int> v; v.second = 4; for (size_t i = 0; i < n; i++) v.first.push_back(leaf(i)); run(v, [&](const ref::Opt& o) { return "{ " + ref::list(texts(o)) + ": 4}"; }); break; }
    default: { std::valarray<Leaf> v(n); for (size_t i = 0; i < n; i++) v[i] = leaf(i); run(v, [&](const ref::Opt& o) { return ref::list(texts(o)); }); break; }
    }
    c.op(); c.state(mc::hashStr(std::to_string(kind * 4 + how) + "/" + std::to_string(n), two)); c.out(kind * 100000 + n);
}
MC_GROUP(g_bare, "classes printable only with traits") {
    int n = c.choose(3), m = c.choose(3), x = c.choose(3), leaf = c.choose(3), how = c.choose(HOW);
    c.go();
    static const short xs[] = {0, -5, 32767};
    auto bare = [](short s) { return ref::attrs({{"x", std::to_string(s)}}); };
    Outer v; v.n = n * 10 + m; for (int i = 0; i < n; i++) v.v.push_back({xs[(x + i) % 3]}); v.p = {7, {xs[x]}}; v.t = std::make_tuple(Bare{xs[(x + 1) % 3]}, Leaf{1, "l", true}); v.a = {{{1}, {xs[x]}}}; for (int i = 0; i < m; i++) v.m[i] = {xs[i]}; v.b = {xs[x]}; v.leaf = {2, "m", false};
    auto want = [&](const ref::Opt& o) {
        std::vector<std::string> l, mm; for (auto& e : v.v) l.push_back(bare(e.x)); for (auto& e : v.m) mm.push_back("{ " + std::to_string(e.first) + ": " + bare(e.second.x) + "}");
        return ref::attrs({{"v", ref::list(l)}, {"p", "{ 7: " + bare(v.p.second.x) + "}"}, {"t", "[ " + bare(std::get<0>(v.t).x) + ", " + leafText(std::get<1>(v.t), leaf, o) + "]"}, {"a", ref::list({bare(1), bare(v.a[1].x)})}, {"m", ref::list(mm)}, {"b", bare(v.b.x)}, {"leaf", leafText(v.leaf, leaf, o)}, {"n", std::to_string(v.n)}});
    };
    if (leaf == 0) verify(c, "bare", want, EXPORTER(bindTraits(v, outt, bt)), how);
    else if (leaf == 1) verify(c, "bare", want, EXPORTER(bindTraits(v, bt, ls, outt)), how);
    else verify(c, "bare", want, EXPORTER(bindTraits(v, lr, outt, bt)), how);
    c.op(); c.state(n * 1000 + m * 100 + x * 10 + leaf * 3 + how); c.out(leaf);
}
#endif
MC_MAIN
