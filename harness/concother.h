// Operations on traits, serializer, printing, logs and vectors for conc.cpp.
#pragma once
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#include <GTMesh/Debug/JSONLogger.h>
#include <GTMesh/Debug/HTMLLogger.h>
#include <GTMesh/Debug/VariableExport.h>
#include <GTMesh/NumericStaticArray/GramSchmidt.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#include <GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h>
#include <GTMesh/Traits/TraitsBind/TraitsBind.h>
#include <GTMesh/Utils/ConstexprFor.h>
#include <map>
#include <unordered_map>

// a class whose accessors, printer and serializer are functions of the user
struct Inner { int a = 0; std::string s; };
MAKE_ATTRIBUTE_TRAIT(Inner, a, s);
struct Outer {
    Inner in; std::vector<Inner> list; double d = 0; std::string text;
    const double& get() const { userTick(); return d; }
    double& set() { userTick(); return d; }
};
MAKE_CUSTOM_TRAIT(Outer, "inner", &Outer::in, "list", &Outer::list, "real", std::make_pair(&Outer::get, &Outer::set), "text", &Outer::text);
namespace user {
struct Custom { std::string s; int n = 0; bool operator<(const Custom& o) const { return n < o.n; } };
inline void BinarySerialize(BinarySerializer::ByteContainer& c, const Custom& x) { BinarySerializer::addNext(c, x.n); userTick(); BinarySerializer::addNext(c, x.s); }
inline void BinaryDeserialize(BinarySerializer::ByteContainerIterator& it, Custom& x) { BinarySerializer::readNext(it, x.n); userTick(); BinarySerializer::readNext(it, x.s); }
inline void PrintTo(const Custom& x, std::ostream& o) { o << "<" << x.n; userTick(); o << "," << x.s << ">"; }
struct Streamed { int n = 0; };
inline std::ostream& operator<<(std::ostream& o, const Streamed& x) { o << "S" << x.n; userTick(); return o << ";"; }
}
struct Num {
    double x = 0; int n = 0; Vector<3, double> v{};
    const double& getX() const { userTick(); return x; }
    double& X() { userTick(); return x; }
};
MAKE_CUSTOM_TRAIT_ARITHMETIC(Num, "x", std::make_pair(&Num::getX, &Num::X), "n", &Num::n, "v", &Num::v);
struct Flat { double x = 0, y = 0; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Flat, x, y);
MAKE_ATTRIBUTE_TRAIT_IO(Flat, x, y);
struct Bound { int p = 0; std::string q; };

struct World {
    Outer o; std::vector<Outer> os; std::map<std::string, std::vector<int>> m; std::vector<user::Custom> cs; std::vector<user::Streamed> ss;
    std::tuple<int, std::string, Inner> t; std::vector<std::vector<double>> vv; Num a, b; Flat f, g;
    std::vector<Vector<3, double>> basis; Vector<3, double> p, q; Bound bd; std::set<int> st; std::list<std::string> ls;
    std::vector<uint8_t> bytes;
    decltype(DefaultTraits<Outer>::getTraits()) traits = DefaultTraits<Outer>::getTraits();
};
static World makeWorld(int k) {
    World w;
    auto inner = [&](int i) { Inner x; x.a = 100 * k + i; x.s = std::string(3 + 20 * (i % 2), char('a' + i + k)) + "\"\\\n"; return x; };
    w.o.in = inner(0); w.o.d = k + 1 / 3.0; w.o.text = "text " + std::to_string(k);
    for (int i = 0; i < 2 + k; i++) { w.o.list.push_back(inner(i)); Outer o = w.o; o.d += i; w.os.push_back(o); user::Custom c; c.n = i * k; c.s = std::string(i * 9, 'c'); w.cs.push_back(c); user::Streamed s; s.n = i + k; w.ss.push_back(s); }
    for (int i = 0; i < 3; i++) { w.m[std::string(1 + i * 10, char('k' + i))] = std::vector<int>(i + k, i * k); w.vv.push_back(std::vector<double>(i, k + 0.5 * i)); w.st.insert(i * k); w.ls.push_back(std::string(i * 8, 'l')); }
    w.t = std::make_tuple(k, "tuple", inner(5));
    w.a.x = k + 0.5; w.a.n = k; w.a.v = {1.0 * k, 2, 3}; w.b.x = -k - 0.25; w.b.n = 3; w.b.v = {0.5, 0.25, 4.0 * k};
    w.f.x = k + 0.5; w.f.y = 2; w.g.x = 3; w.g.y = k + 4;
    w.p = {1.0 * k, 2, 4}; w.q = {-1, 0.5, 8.0 * k}; w.basis = {{1, 2.0 * k, 3}, {0, 1, 1.0 * k}, {4, 0, 1}};
    w.bd.p = k; w.bd.q = "bound";
    BinarySerializer s;
    s << w.o << w.os << w.m << w.cs << w.t << w.vv << w.ls;
    w.bytes = s.getData();
    return w;
}
static std::vector<World>& worlds() {
    static std::vector<World> w;
    if (w.empty()) for (int k : {1, 3}) w.push_back(makeWorld(k));
    return w;
}
static auto boundTraits() { return makeTraits<Bound>("first", &Bound::p, "second", &Bound::q); }
static auto outerTraits() { return makeTraits<Outer>("only text", &Outer::text, "real", std::make_pair(&Outer::get, &Outer::set)); }

struct Text : std::ostringstream { Text() { precision(17); } };
static void show(std::ostream& o, const Inner& x) { o << x.a << "'" << x.s << "'"; }
static void show(std::ostream& o, const Outer& x) { show(o, x.in); for (auto& y : x.list) show(o, y); o << x.d << "'" << x.text << "'"; }
static void show(std::ostream& o, const Num& x) { o << x.x << "," << x.n << "," << x.v[0] << "," << x.v[1] << "," << x.v[2] << ";"; }
static void show(std::ostream& o, const Flat& x) { o << x.x << "," << x.y << ";"; }
static void show(std::ostream& o, const Vector<3, double>& x) { o << x[0] << "," << x[1] << "," << x[2] << ";"; }
static std::string hex(const std::vector<uint8_t>& b) { std::string r; for (auto c : b) { char x[3] = {"0123456789abcdef"[c >> 4], "0123456789abcdef"[c & 15], 0}; r += x; } return r; }

static std::string opWrite(const World& w, Env&) { BinarySerializer s; s << w.o << w.os << w.m << w.cs << w.t << w.vv << w.ls; s.write(w.st, w.p, w.o.text); return hex(s.getData()); }
static void readAll(std::ostream& o, Outer& a, std::vector<Outer>& b, std::map<std::string, std::vector<int>>& m, std::vector<user::Custom>& cs, std::tuple<int, std::string, Inner>& t, std::vector<std::vector<double>>& vv, std::list<std::string>& ls) {
    show(o, a); for (auto& x : b) show(o, x);
    for (auto& x : m) { o << x.first << ":"; for (int i : x.second) o << i << ","; }
    for (auto& x : cs) o << x.n << x.s;
    o << std::get<0>(t) << std::get<1>(t); show(o, std::get<2>(t));
    for (auto& x : vv) { for (double d : x) o << d << ","; o << "/"; }
    for (auto& x : ls) o << x << "/";
}
static std::string opRead(const World& w, Env&) {
    auto it = w.bytes.cbegin();
    Outer a; std::vector<Outer> b; std::map<std::string, std::vector<int>> m; std::vector<user::Custom> cs; std::tuple<int, std::string, Inner> t; std::vector<std::vector<double>> vv; std::list<std::string> ls;
    BinarySerializer::readNext(it, a); BinarySerializer::readNext(it, b); BinarySerializer::readNext(it, m); BinarySerializer::readNext(it, cs); BinarySerializer::readNext(it, t); BinarySerializer::readNext(it, vv); BinarySerializer::readNext(it, ls);
    Text o; readAll(o, a, b, m, cs, t, vv, ls); o << (it == w.bytes.cend());
    return o.str();
}
static std::string opSave(const World& w, Env& e) {
    std::string n = "conc" + std::to_string(e.tid) + ".bin";
    BinarySerializer s, r; s << w.o << w.os << w.m << w.cs << w.t << w.vv << w.ls;
    s.saveToFile(n); r.loadFromFile(n);
    std::remove(n.c_str());
    Outer a; std::vector<Outer> b; std::map<std::string, std::vector<int>> m; std::vector<user::Custom> cs; std::tuple<int, std::string, Inner> t; std::vector<std::vector<double>> vv; std::list<std::string> ls;
    r >> a >> b >> m >> cs >> t >> vv >> ls;
    Text o; readAll(o, a, b, m, cs, t, vv, ls); o << hex(r.getData());
    return o.str();
}
static std::string opPrint(const World& w, Env& e) {
    Out o(e);
    VariableExport::exportVariable(o, w.o); VariableExport::exportVariable(o, w.os); VariableExport::exportVariable(o, w.t); VariableExport::exportVariable(o, w.cs); VariableExport::exportVariable(o, w.ss);
    return o.str();
}
static std::string opPrintContainers(const World& w, Env& e) {
    Out o(e);
    VariableExport::exportVariable(o, w.m); VariableExport::exportVariable(o, w.vv); VariableExport::exportVariable(o, w.st); VariableExport::exportVariable(o, w.ls); VariableExport::exportVariable(o, w.p);
    VariableExport::exportVariable(o, w.a); VariableExport::exportVariable(o, w.o.text); VariableExport::exportVariable(o, w.basis); VariableExport::exportVariable(o, 1.5f); VariableExport::exportVariable(o, 'x'); VariableExport::exportVariable(o, true);
    return o.str();
}
static std::string opPrintBound(const World& w, Env& e) {
    Out o(e);
    auto b = boundTraits(); auto t = outerTraits(); auto pr = std::make_pair(w.bd, w.o);
    VariableExport::exportVariable(o, bindTraits(w.bd, b)); VariableExport::exportVariable(o, bindTraits(w.os, t)); VariableExport::exportVariable(o, bindTraits(pr, b, t));
    return o.str();
}
struct Names { std::ostream* o; template <class T, class R> void operator()(unsigned i, const R&, const std::string& n) const { userTick(); *o << i << n << ","; } };
static std::string opTraits(const World& w, Env& e) {
    Text o; Outer x = w.o;
    for (int k = 0; k < 2; k++) {
        auto t = k ? w.traits : DefaultTraits<Outer>::getTraits();
        o << t.getName<0>() << t.getName<3>() << t.size();
        t.setValue<2>(x, t.getValue<2>(w.o) + 1); t.setValue<3>(x, t.getValue<3>(w.o) + "+"); t.setValue<2>(&x, 7.5 + k); o << t.getValue<2>(&x);
        t.getAttr<1>(x).push_back(t.getValue<0>(w.o)); show(o, x);
        t.apply([&](unsigned i, const auto&, const std::string& n) { e.tick(); o << i << n << ","; });
    }
    auto h = outerTraits(); h.setValue<1>(x, 2.25); h.setValue<0>(x, "bound"); o << h.getName<0>(); show(o, x);
    return o.str();
}
static std::string opArithmetic(const World& w, Env&) {
    Text o; Num a = w.a;
    show(o, w.a + w.b); show(o, w.a - w.b); show(o, w.a * 2.5); show(o, 2.0 * w.b); show(o, w.a / 4.0);
    a += w.b; show(o, a); a -= w.a; show(o, a); a *= 3.0; show(o, a);
    show(o, w.f * w.g); show(o, w.f / w.g); show(o, exp(w.f)); show(o, sqrt(w.f)); show(o, pow(w.f, 2.0)); show(o, abs(w.f - w.g)); o << max(w.f) << min(w.g) << "," << max(abs(w.f)) << ";";
    show(o, log(w.f)); show(o, log2(w.g)); show(o, log10(w.f + w.g)); show(o, cbrt(w.g)); show(o, cbrt(w.f * w.g)); show(o, exp(w.f + w.g)); show(o, log(w.f + w.g)); show(o, sqrt(w.f + w.g)); show(o, pow(2.0, w.f)); show(o, pow(w.f + w.g, 0.5));
    show(o, -w.f); show(o, -(w.f - w.g)); show(o, (w.a + w.b) - (w.a - w.b)); show(o, w.a - (w.b + w.a)); show(o, (w.a + w.b) / 2.0); o << sum(w.g);
    return o.str();
}
static std::string opVectors(const World& w, Env&) {
    Text o;
    show(o, w.p + w.q); show(o, w.p - w.q); show(o, w.p * 2.0); show(o, w.p / 3.0); o << w.p * w.q << "," << (w.p == w.q) << ",";
    Vector<3, double> v = w.p; o << v.normEuclid() << "," << v.sumOfSquares() << ","; v += w.q; v *= 0.5; v -= w.p; show(o, v);
    show(o, vectorProduct(w.p, w.q)); show(o, vectorProduct(v, w.p)); v /= 3.0; show(o, v);
    return o.str();
}
static std::string opGramSchmidt(const World& w, Env&) {
    Text o;
    auto b = w.basis; std::vector<double> n(3); gramSchmidt<3, size_t, double>(b, n); for (auto& v : b) show(o, v); for (double d : n) o << d << ",";
    std::array<Vector<3, double>, 2> c{{w.basis[0], w.basis[1]}}; gramSchmidt<2, 3, size_t, double>(c); for (auto& v : c) show(o, v);
    b = w.basis; gramSchmidt<3, size_t, double>(b); for (auto& v : b) show(o, v);
    c = {{w.basis[1], w.basis[2]}}; std::array<double, 2> m{}; gramSchmidt<2, 3, size_t, double>(c, m); for (auto& v : c) show(o, v); o << m[0] << "," << m[1];
    return o.str();
}

struct Loop { template <unsigned i> static void exec(Text& o, Env& e) { e.tick(); o << i << ","; } };
static std::string opLoop(const World& w, Env& e) { Text o; constexprFor<Loop, 5>(o, e); constexprFor<Loop, 1, 8, 3>(o, e); o << w.st.size(); return o.str(); }
template <class L> static std::string logged(const World& w, Env& e, const char* ext) {
    std::string n = "conc" + std::to_string(e.tid) + ext;
    {
        L l(n.c_str());
        l.writeVar(12, "file.cpp", "outer", w.o, "list", w.os);
        l.writeVar(13, "dir/file.cpp", "m", w.m);
        l.writeVar(14, "file.cpp", "cs", w.cs, "t", w.t, "v", w.p);
    }
    std::string r = slurp(n); std::remove(n.c_str());
    return r;
}
static std::string opJson(const World& w, Env& e) { return logged<JSONLogger>(w, e, ".json"); }
static std::string opHtml(const World& w, Env& e) { return logged<HtmlLogger>(w, e, ".html"); }
static std::string opBoundBytes(const World& w, Env&) {
    auto b = boundTraits(); auto t = outerTraits(); auto pr = std::make_pair(w.bd, w.o);
    BinarySerializer s;
    s << bindTraits(w.bd, b) << bindTraits(w.os, t) << bindTraits(pr, b, t);
    Text o; o << hex(s.getData());
    auto bytes = s.getData(); auto it = bytes.cbegin();
    Bound x; std::vector<Outer> v; std::pair<Bound, Outer> p;
    auto bx = bindTraits(x, b); auto bv = bindTraits(v, t); auto bp = bindTraits(p, b, t);
    BinarySerializer::readNext(it, bx); BinarySerializer::readNext(it, bv); BinarySerializer::readNext(it, bp);
    o << x.p << x.q; for (auto& y : v) show(o, y); o << p.first.p << p.first.q; show(o, p.second); o << (it == bytes.cend());
    return o.str();
}
static std::string opShort(const World& w, Env&) {          // bytes that end too early
    Text o;
    for (size_t n = 0; n < w.bytes.size(); n += 1 + w.bytes.size() / 6) {
        std::vector<uint8_t> part(w.bytes.begin(), w.bytes.begin() + n); BinarySerializer s; s.write(w.o.text); s.clear();
        for (auto x : part) s.write(x);
        o << hex(s.getData()).size() << ",";
    }
    return o.str();
}
static const Op OPS[] = {
    {"serializing", opWrite}, {"deserializing", opRead}, {"saving and loading", opSave}, {"printing", opPrint}, {"printing containers", opPrintContainers}, {"printing with bound traits", opPrintBound},
    {"traits", opTraits}, {"arithmetic", opArithmetic}, {"vectors", opVectors}, {"gramSchmidt", opGramSchmidt}, {"constexprFor", opLoop}, {"bytes with bound traits", opBoundBytes}, {"clearing and writing bytes", opShort}, {"JSON log", opJson}, {"HTML log", opHtml},
};
