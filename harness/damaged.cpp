// M19: damaged mesh and data files.  -DH_DIM=2|3 -DH_IDX=... [-DH_RES=...]
// Every cut of a file and every damage of one of its tokens is read; a grammar kept here says whether the damaged text still
// describes a mesh.  If it does not, an exception is demanded.
#include "io.h"
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h>
using namespace mg;
#ifndef H_IDX
#define H_IDX size_t
#endif
#ifdef H_RES
using Mesh = UnstructuredMesh<H_DIM, H_IDX, double, H_RES>;
#else
using Mesh = UnstructuredMesh<H_DIM, H_IDX, double>;
#endif
constexpr unsigned D = H_DIM;
struct Scratch {                       // a directory of its own for every case
    std::string dir;
    Scratch() { char t[] = "/tmp/gtmesh-m19-XXXXXX"; dir = mkdtemp(t); }
    ~Scratch() { for (auto f : {"/d.vtk", "/d.fpma"}) ::remove((dir + f).c_str()); ::rmdir(dir.c_str()); }
};

// ---- tokens ----------------------------------------------------------------------------------------------------------------
struct Tok { size_t b, e; };
static std::vector<Tok> tokens(const std::string& s, size_t from) {
    std::vector<Tok> r;
    for (size_t i = from; i < s.size();) {
        while (i < s.size() && isspace((unsigned char)s[i])) i++;
        size_t b = i;
        while (i < s.size() && !isspace((unsigned char)s[i])) i++;
        if (i > b) r.push_back({b, i});
    }
    return r;
}
static bool isInt(const std::string& w, long long& v) {
    if (w.empty()) return false;
    char* e = nullptr;
    v = strtoll(w.c_str(), &e, 10);
    return *e == 0;
}
static bool isReal(const std::string& w) {
    if (w.empty() || w == "nan" || w == "inf") return false;
    char* e = nullptr;
    (void)strtod(w.c_str(), &e);
    return *e == 0;
}
// what a text describes: `same` collects everything that determines the mesh
struct Doc { bool ok = false; std::string same; };
struct Parser {
    const std::string& s; std::vector<Tok> t; size_t i = 0;
    Parser(const std::string& s, size_t from) : s(s), t(tokens(s, from)) {}
    bool word(std::string& w) { if (i >= t.size()) return false; w = s.substr(t[i].b, t[i].e - t[i].b); i++; return true; }
    bool integer(long long& v, long long lo, long long hi) { std::string w; return word(w) && isInt(w, v) && v >= lo && v < hi; }
    bool real(std::string& w) { return word(w) && isReal(w); }
    bool key(const char* k) { std::string w; return word(w) && w == k; }
};
static const std::set<int>& supported() { static const std::set<int> r = H_DIM == 2 ? std::set<int>{3, 5, 7, 8, 9} : std::set<int>{10, 11, 12, 13, 14}; return r; }
static const long long BIG = 1000000;
static Doc parseVtkDamaged(const std::string& s) {
    Doc d;
    size_t p = s.find('\n');
    if (p == std::string::npos) return d;
    p = s.find('\n', p + 1);
    if (p == std::string::npos) return d;
    Parser q(s, p + 1);
    long long n, tot, k, v; std::string w;
    if (!q.key("ASCII") || !q.key("DATASET") || !q.key("UNSTRUCTURED_GRID") || !q.key("POINTS") || !q.integer(n, 0, BIG) || !q.word(w)) return d;
    d.same += std::to_string(n) + ":";
    for (long long i = 0; i < 3 * n; i++) { if (!q.real(w)) return d; if (i % 3 < H_DIM) d.same += num(strtod(w.c_str(), nullptr)) + ","; }
    long long nv = n;
    if (!q.key("CELLS") || !q.integer(n, 0, BIG) || !q.integer(tot, -BIG * BIG, BIG * BIG)) return d;
    d.same += "c" + std::to_string(n) + ":";
    for (long long i = 0; i < n; i++) {
        if (!q.integer(k, 0, BIG)) return d;
        if (H_DIM == 3 && k != 4 && k != 5 && k != 6 && k != 8) return d;
        d.same += "|" + std::to_string(k) + ":";
        for (long long j = 0; j < k; j++) { if (!q.integer(v, 0, nv)) return d; d.same += std::to_string(v) + ","; }
    }
    long long m;
    if (!q.key("CELL_TYPES") || !q.integer(m, 0, BIG) || m != n) return d;
    for (long long i = 0; i < n; i++) { if (!q.integer(v, 0, 1000) || !supported().count((int)v)) return d; d.same += "t" + std::to_string(v == 8 ? 8 : v); }
    d.ok = true;
    return d;
}
static Doc parseFpmaDamaged(const std::string& s) {
    Doc d;
    Parser q(s, 0);
    long long n, k, v; std::string w;
    if (!q.integer(n, 0, BIG)) return d;
    d.same += std::to_string(n) + ":";
    for (long long i = 0; i < 3 * n; i++) { if (!q.real(w)) return d; d.same += num(strtod(w.c_str(), nullptr)) + ","; }
    long long lim = n;
    for (int part = 0; part < 2; part++) {
        if (!q.integer(n, 0, BIG)) return d;
        d.same += (part ? "c" : "f") + std::to_string(n) + ":";
        for (long long i = 0; i < n; i++) {
            if (!q.integer(k, 0, BIG)) return d;
            d.same += "|" + std::to_string(k) + ":";
            for (long long j = 0; j < k; j++) { if (!q.integer(v, 0, lim)) return d; d.same += std::to_string(v) + ","; }
        }
        lim = n;
    }
    d.ok = true;
    return d;
}

// ---- the meshes ------------------------------------------------------------------------------------------------------------
struct File { AbsMesh mesh; std::string text; bool keepFaces; };
static const std::vector<AbsMesh>& meshes() {
    static const std::vector<AbsMesh> r = [] {
        std::vector<AbsMesh> v;
#if H_DIM == 2
        for (int k = 1; k < 6; k++) v.push_back(grid2D(2, 1, {k, 1 + k % 5}));
        v.push_back(grid2D(1, 1, {1}));
        v.push_back(grid2D(2, 2, {1, 2, 4, 3}));
#else
        for (int k = 1; k < 11; k++) { AbsMesh a; if (grid3D(1, 1, 1, {k}, 0, false, a)) v.push_back(a); }
        for (int k = 1; k < 11; k += 2) { AbsMesh a; if (grid3D(2, 1, 1, {1, k}, 2, false, a)) v.push_back(a); }
#endif
        return v;
    }();
    return r;
}
// kind 0..5: VTK in its styles; 6..8: FPMA (3D)
static File fileOf(int m, int kind) {
    File f{meshes()[m], "", false};
    if (kind < 6) f.text = vtkText(f.mesh, kind);
    else {
        std::vector<std::vector<int>> loops;
        for (auto& e : f.mesh.sub[2]) loops.push_back(loopOf(f.mesh, e));
        f.text = fpmaText(f.mesh, loops, kind - 6);
        f.keepFaces = true;
    }
    return f;
}
static Doc parseAny(const std::string& s, bool fpma) { return fpma ? parseFpmaDamaged(s) : parseVtkDamaged(s); }

template <class Rd> void readWith(mc::Case& c, Rd& rd, Mesh& m, const std::string& text) {
    std::istringstream in(text);
    rd.loadFromStream(in, m);
}
// read the damaged text, demand what the grammar says, then read the good text with the same objects
template <class Rd> void tryDamaged(mc::Case& c, const File& f, const std::string& bad, bool fpma, const std::string& what) {
    const Doc want = parseAny(f.text, fpma), got = parseAny(bad, fpma);
    c.check(want.ok, "INTERNAL", "the grammar refuses the good file");
    Rd rd; Mesh m;
    bool threw = false; std::string msg;
    try { readWith(c, rd, m, bad); } catch (std::exception& e) { threw = true; msg = e.what(); }
    c.op();
    c.state(mc::hashStr(bad));
    c.out(threw ? 1 : 2);
    if (!got.ok) c.check(threw, "damaged-accepted", what + ": the damaged file is read without an error, the mesh has " + std::to_string(m.getVertices().size()) + " vertices, " + std::to_string(m.getCells().size()) + " cells | file: " + bad.substr(0, 3000));
    else if (!threw && got.same == want.same) compareComplex(c, m, f.mesh, what + " (the damage is meaningless)", f.keepFaces);
    readWith(c, rd, m, f.text);
    c.op();
    compareComplex(c, m, f.mesh, "the good file read after the damaged one (" + what + ")", f.keepFaces);
}
static void tryAny(mc::Case& c, const File& f, const std::string& bad, bool fpma, const std::string& what) {
#if H_DIM == 3
    if (fpma) { tryDamaged<FPMAMeshReader<3>>(c, f, bad, true, what); return; }
#endif
    tryDamaged<VTKMeshReader<H_DIM>>(c, f, bad, fpma, what);
}

MC_GROUP(g_cut, "cut") {          // the file ends after any byte
    bool t = c.run.thorough;
    int kinds = H_DIM == 3 ? 9 : 6;
    int m = c.choose((int)meshes().size()), kind = c.choose(kinds);
    if (!t && m > 3 && kind != 0 && kind != 6 && kind != 5) c.skip();
    File f = fileOf(m, kind);
    int part = c.choose(8);
    c.go();
    size_t n = f.text.size(), lo = n * part / 8, hi = n * (part + 1) / 8;
    size_t at = lo + (size_t)c.choose((int)(hi - lo));
    c.note("mesh " + std::to_string(m) + " kind " + std::to_string(kind) + " cut at " + std::to_string(at));
    tryAny(c, f, f.text.substr(0, at), kind >= 6, "cut after " + std::to_string(at) + " of " + std::to_string(n) + " bytes");
}
// the ways to damage one token
static std::string damage(const std::string& w, int how, long long nv, bool& ok) {
    long long v = 0;
    bool integer = isInt(w, v);
    ok = true;
    switch (how) {
    case 0: return "x";
    case 1: return "";
    case 2: return w + " " + w;
    case 3: ok = integer; return std::to_string(v + 1);
    case 4: ok = integer; return std::to_string(v - 1);
    case 5: return std::to_string(nv);
    case 6: return "-1";
    case 7: return std::to_string(nv + 100);
    case 8: return "nan";
    case 9: ok = !integer; return w.substr(0, w.size() / 2);
    case 10: return "x" + w;
    default: ok = integer; return w + w;
    }
}
MC_GROUP(g_token, "token") {      // every token damaged in every way
    bool t = c.run.thorough;
    int kinds = H_DIM == 3 ? 9 : 6;
    int m = c.choose((int)meshes().size()), kind = c.choose(kinds), how = c.choose(12);
    if (!t && m > 3 && kind != 0 && kind != 6 && kind != 3) c.skip();
    c.go();
    File f = fileOf(m, kind);
    bool fpma = kind >= 6;
    size_t from = 0;
    if (!fpma) from = f.text.find('\n', f.text.find('\n') + 1) + 1;
    auto tk = tokens(f.text, from);
    int k = c.choose((int)tk.size());
    std::string w = f.text.substr(tk[k].b, tk[k].e - tk[k].b);
    bool ok;
    std::string r = damage(w, how, f.mesh.n(0), ok);
    if (!ok || r == w) c.skip();
    std::string bad = f.text.substr(0, tk[k].b) + r + f.text.substr(tk[k].e);
    // a count so large that the memory would not do is not explored
    c.note("mesh " + std::to_string(m) + " kind " + std::to_string(kind) + " token " + std::to_string(k) + " '" + w + "' becomes '" + r + "'");
    tryAny(c, f, bad, fpma, "token " + std::to_string(k) + " '" + w + "' replaced by '" + r + "'");
}
MC_GROUP(g_load, "load") {        // through files and UnstructuredMesh::load
    int kinds = H_DIM == 3 ? 2 : 1;
    int m = c.choose(4), kind = c.choose(kinds) * 6, how = c.choose(4);
    c.go();
    File f = fileOf(m, kind);
    bool fpma = kind >= 6;
    size_t from = 0;
    if (!fpma) from = f.text.find('\n', f.text.find('\n') + 1) + 1;
    auto tk = tokens(f.text, from);
    int k = c.choose((int)tk.size());
    std::string w = f.text.substr(tk[k].b, tk[k].e - tk[k].b), bad;
    if (how == 0) bad = f.text.substr(0, tk[k].b);
    else { bool ok; std::string r = damage(w, how == 1 ? 0 : how == 2 ? 1 : 7, f.mesh.n(0), ok); bad = f.text.substr(0, tk[k].b) + r + f.text.substr(tk[k].e); }
    Scratch sc;
    std::string path = sc.dir + (fpma ? "/d.fpma" : "/d.vtk");
    { std::ofstream o(path, std::ios::binary); o << bad; }
    Mesh me;
    bool threw = false;
    try { auto r = me.load(path); } catch (std::exception&) { threw = true; }
    c.op();
    c.state(mc::hashStr(bad));
    c.note("token " + std::to_string(k) + " '" + w + "' way " + std::to_string(how));
    if (!parseAny(bad, fpma).ok) c.check(threw, "damaged-loaded", "load of a damaged file reports nothing | file: " + bad.substr(0, 3000));
    { std::ofstream o(path, std::ios::binary); o << f.text; }
    auto r = me.load(path);
    c.op();
    compareComplex(c, me, f.mesh, "load of the good file after the damaged one", f.keepFaces);
    c.check((bool)r, "reader", "load returns no reader");
    auto types = r->getCellTypes();
    c.equal(types.template getDataByPos<0>().size(), (size_t)f.mesh.n(H_DIM), "types", "types of the good file");
}

// a device that fails at byte `at`: once or for ever, with an exception of its own (as the file buffer of the standard library)
struct Failing : std::streambuf {
    std::string s; size_t at, step; bool once, failed = false;
    Failing(const std::string& t, size_t a, size_t st, bool o) : s(t), at(a), step(st), once(o) { setg(&s[0], &s[0], &s[0]); }
    int_type underflow() override {
        size_t pos = size_t(gptr() - &s[0]), end = std::min(s.size(), pos + step);
        if (!(once && failed)) {
            if (pos >= at) { failed = true; throw std::ios_base::failure("the device fails"); }
            end = std::min(end, at);
        }
        if (pos >= end) return traits_type::eof();
        setg(&s[0], gptr(), &s[0] + end);
        return traits_type::to_int_type(*gptr());
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override { return seekpos(pos_type(o + (d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? gptr() - &s[0] : (off_type)s.size())), std::ios_base::in); }
    pos_type seekpos(pos_type p, std::ios_base::openmode) override { off_type o = p; if (o < 0 || o > (off_type)s.size()) return pos_type(off_type(-1)); setg(&s[0], &s[0] + o, &s[0] + o); return p; }
};
template <class Rd> void tryFailing(mc::Case& c, const File& f, size_t at, size_t step, bool once, bool complete) {
    Rd rd; Mesh m; bool threw = false;
    Failing b(f.text, at, step, once); std::istream in(&b);
    try { rd.loadFromStream(in, m); } catch (std::exception&) { threw = true; }
    c.op(); c.out(threw ? 1 : 2);
    c.check(threw || once || complete, "failure-ignored", "a device that fails after " + std::to_string(at) + " of " + std::to_string(f.text.size()) + " bytes is not noticed");
    if (!threw) compareComplex(c, m, f.mesh, "a mesh from a device that fails after " + std::to_string(at) + " bytes", f.keepFaces);
    readWith(c, rd, m, f.text);
    c.op();
    compareComplex(c, m, f.mesh, "the good file read after a device failed", f.keepFaces);
}
MC_GROUP(g_fail, "reading fails") {
    bool t = c.run.thorough;
    static const size_t STEP[] = {1, 16, 100000};
    int kinds = H_DIM == 3 ? 9 : 6;
    int m = c.choose((int)meshes().size()), kind = c.choose(kinds), step = c.choose(3), once = c.choose(2);
    if (!t && (m > 3 || step == 1) && kind != 0 && kind != 6 && kind != 5) c.skip();
    File f = fileOf(m, kind);
    if (kind < 6 && c.choose(2, "axis-aligned")) {       // squares and cubes as VTK_PIXEL and VTK_VOXEL: the reader looks ahead for the types
        std::vector<int> ty; auto cv = f.mesh.cellVerts; bool any = false;
        for (size_t q = 0; q < cv.size(); q++) {
            ty.push_back(vtkType(f.mesh.type[q]));
            if (ty[q] == 9 || ty[q] == 12) { any = true; ty[q] -= 1; std::swap(cv[q][2], cv[q][3]); if (ty[q] == 11) std::swap(cv[q][6], cv[q][7]); }
        }
        if (!any) c.skip();
        f.text = vtkText(f.mesh, kind, ty, cv);
    }
    int part = c.choose(4);
    c.go();
    size_t n = f.text.size(), lo = n * part / 4, hi = n * (part + 1) / 4;
    size_t at = lo + (size_t)c.choose((int)(hi - lo));
    c.note("mesh " + std::to_string(m) + " kind " + std::to_string(kind) + " fails at " + std::to_string(at) + (once ? " once" : ""));
    c.state(mc::mix(mc::hashStr(f.text), at * 2 + once));
    size_t whole = at; while (whole > 0 && !isspace((unsigned char)f.text[whole])) whole--;      // the last complete word
    bool complete = parseAny(f.text.substr(0, whole), kind >= 6).same == parseAny(f.text, kind >= 6).same;
#if H_DIM == 3
    if (kind >= 6) { tryFailing<FPMAMeshReader<3>>(c, f, at, STEP[step], once, complete); return; }
#endif
    tryFailing<VTKMeshReader<H_DIM>>(c, f, at, STEP[step], once, complete);
}

// ---- data of cells ---------------------------------------------------------------------------------------------------------
struct DOne { double w; };
MAKE_ATTRIBUTE_TRAIT(DOne, w);
struct DAll { double d; Vector<D, double> v; int i; Vector<D * D, double> t; double last; };
MAKE_ATTRIBUTE_TRAIT(DAll, d, v, i, t, last);
struct DVec { Vector<D, double> v; };
MAKE_ATTRIBUTE_TRAIT(DVec, v);
struct DTen { double d; Vector<D * D, double> t; };
MAKE_ATTRIBUTE_TRAIT(DTen, d, t);

static std::vector<double> flat(const DOne& x) { return {x.w}; }
static std::vector<double> flat(const DAll& x) { std::vector<double> r{x.d, (double)x.i, x.last}; for (double y : x.v) r.push_back(y); for (double y : x.t) r.push_back(y); return r; }
static std::vector<double> flat(const DVec& x) { return std::vector<double>(x.v.begin(), x.v.end()); }
static std::vector<double> flat(const DTen& x) { std::vector<double> r{x.d}; for (double y : x.t) r.push_back(y); return r; }
static void fill(DOne& x, int q) { x.w = q * 10 + 17.5; }
static void fill(DAll& x, int q) { x.d = q + 11.5; x.i = 40 + q; x.last = -3.25 * (q + 4); for (unsigned k = 0; k < D; k++) x.v[k] = q * 10 + k + 10.25; for (unsigned k = 0; k < D * D; k++) x.t[k] = q * 100 + k + 100.5; }
static void fill(DVec& x, int q) { for (unsigned k = 0; k < D; k++) x.v[k] = q * 10 + k + 10.25; }
static void fill(DTen& x, int q) { x.d = q + 11.5; for (unsigned k = 0; k < D * D; k++) x.t[k] = q * 100 + k + 100.5; }

// the columns of the file, with the number of cells they belong to
struct Col { std::string kind, name, type; std::vector<std::vector<double>> v; bool integer; };
static std::vector<Col> cols(const std::vector<DOne>& d) { Col c{"SCALARS", "w", "double 1", {}, false}; for (auto& x : d) c.v.push_back({x.w}); return {c}; }
static std::vector<double> pad(const Vector<D, double>& v) { std::vector<double> r(v.begin(), v.end()); r.resize(3, 0); return r; }
static std::vector<double> pad9(const Vector<D * D, double>& v) { std::vector<double> r(9, 0); for (unsigned i = 0; i < D; i++) for (unsigned j = 0; j < D; j++) r[i * 3 + j] = v[i * D + j]; return r; }
static std::vector<Col> cols(const std::vector<DAll>& d) {
    Col a{"SCALARS", "d", "double 1", {}, false}, b{"VECTORS", "v", "double", {}, false}, e{"SCALARS", "i", "int 1", {}, true}, f{"TENSORS", "t", "double", {}, false}, g{"SCALARS", "last", "double 1", {}, false};
    for (auto& x : d) { a.v.push_back({x.d}); b.v.push_back(pad(x.v)); e.v.push_back({(double)x.i}); f.v.push_back(pad9(x.t)); g.v.push_back({x.last}); }
    return {a, b, e, f, g};
}
static std::vector<Col> cols(const std::vector<DVec>& d) { Col b{"VECTORS", "v", "double", {}, false}; for (auto& x : d) b.v.push_back(pad(x.v)); return {b}; }
static std::vector<Col> cols(const std::vector<DTen>& d) { Col a{"SCALARS", "d", "double 1", {}, false}, f{"TENSORS", "t", "double", {}, false}; for (auto& x : d) { a.v.push_back({x.d}); f.v.push_back(pad9(x.t)); } return {a, f}; }

// text of the data part; `order` permutes the columns, `drop` leaves one out
static std::string dataText(const std::vector<Col>& cs, int n, int rot, int drop, int tail) {
    std::ostringstream o;
    o << "CELL_DATA " << n << "\n";
    for (size_t k = 0; k < cs.size(); k++) {
        auto& c = cs[(k + rot) % cs.size()];
        if (drop == (int)((k + rot) % cs.size())) continue;
        o << c.kind << " " << c.name << " " << c.type << "\n";
        if (c.kind == "SCALARS") o << "LOOKUP_TABLE default\n";
        for (auto& row : c.v) { for (size_t j = 0; j < row.size(); j++) o << (j ? " " : "") << num(row[j]); o << (c.kind == "SCALARS" ? " " : "\n"); }
        if (c.kind == "SCALARS") o << "\n";
    }
    if (tail) o << "SCALARS other double 1\nLOOKUP_TABLE default\n1 2 3 4 5 6 7 8 9\n";
    return o.str();
}
template <class T> bool readData(const Mesh& m, const std::string& text, std::vector<T>& out, int bound, long fails = -1, bool once = false) {
    MeshDataContainer<T, D> data(m);
    Failing buf(text, fails < 0 ? text.size() : (size_t)fails, fails < 0 ? text.size() : 64, once || fails < 0);
    if (fails < 0) buf.failed = true;
    std::istream in(&buf);
    try {
        if (bound) VTKMeshDataReader<D, H_IDX>::readFromStream(in, bindTraits(data, DefaultIOTraits<T>::getTraits()));
        else VTKMeshDataReader<D, H_IDX>::readFromStream(in, data);
    } catch (std::exception&) { return false; }
    out.clear();
    for (auto& x : data.template getDataByPos<0>()) out.push_back(x);
    return true;
}
template <class T> void dataCase(mc::Case& c, int mi, int way) {
    bool t = c.run.thorough;
    int rot = 0, tail = 0, bound = c.choose(2), style = c.choose(2);
    AbsMesh a = meshes()[mi];
    int n = a.n(H_DIM);
    std::vector<T> want(n);
    for (int q = 0; q < n; q++) fill(want[q], q);
    auto cs = cols(want);
    rot = c.choose((int)cs.size());
    tail = c.choose(2);
    c.go();
    if (!t && bound && rot) c.skip();
    const std::string head = vtkText(a, style);
    Mesh m; VTKMeshReader<H_DIM> rd;
    { std::istringstream in(head); rd.loadFromStream(in, m); }
    std::string good = head + (head.back() == '\n' ? "" : "\n") + dataText(cs, n, rot, -1, tail);
    std::vector<T> got;
    auto same = [&](const std::vector<T>& g) { if (g.size() != want.size()) return false; for (size_t q = 0; q < g.size(); q++) if (flat(g[q]) != flat(want[q])) return false; return true; };
    if (!readData(m, good, got, bound) || !same(got)) c.fail("good-data", "the undamaged data are not read | " + good.substr(0, 3000));
    c.op();
    size_t from = head.size();
    if (way == 0) {              // cut
        size_t at = from + (size_t)c.choose((int)(good.size() - from));
        std::string bad = good.substr(0, at);
        c.note("data cut after " + std::to_string(at));
        c.state(mc::hashStr(bad));
        // the cut is meaningless if every needed value is still complete; a value cut in its middle can only be noticed if others follow
        size_t lastNeeded = good.size();
        if (tail) lastNeeded = good.find("SCALARS other");
        while (lastNeeded > 0 && isspace((unsigned char)good[lastNeeded - 1])) lastNeeded--;
        size_t b = lastNeeded; while (b > 0 && !isspace((unsigned char)good[b - 1])) b--;
        bool r = readData(m, bad, got, bound);
        c.op();
        if (at <= b) c.check(!r, "cut-data", "a file of data cut after " + std::to_string(at) + " bytes is read without an error | file: " + bad.substr(from));
        if (at >= lastNeeded) c.check(r && same(got), "needless", "all values are there but the reading fails or differs | file: " + bad.substr(from));
    } else if (way == 1) {       // a token damaged
        auto tk = tokens(good, from);
        int k = c.choose((int)tk.size()), how = c.choose(4);
        std::string w = good.substr(tk[k].b, tk[k].e - tk[k].b);
        std::string r = how == 0 ? "x" : how == 1 ? "" : how == 2 ? "nan" : "x" + w;
        if (r == w) c.skip();
        std::string bad = good.substr(0, tk[k].b) + r + good.substr(tk[k].e);
        c.note("data token " + std::to_string(k) + " '" + w + "' becomes '" + r + "'");
        c.state(mc::hashStr(bad));
        bool ok = readData(m, bad, got, bound);
        c.op();
        if (ok) c.check(same(got), "damaged-data", "token '" + w + "' replaced by '" + r + "': the data are read without an error and differ | file: " + bad.substr(from));
    } else if (way == 3) {       // the device fails at any byte of the data, once or for ever
        size_t at = from + (size_t)c.choose((int)(good.size() - from)); bool once = c.choose(2);
        c.note("reading data fails after " + std::to_string(at) + (once ? " once" : ""));
        c.state(mc::mix(mc::hashStr(good), at * 2 + once));
        bool ok = readData(m, good, got, bound, (long)at, once);
        c.op();
        if (ok) c.check(same(got), "failing-data", "the device fails after " + std::to_string(at) + " bytes: the data are read without an error and differ | file: " + good.substr(from));
    } else {                     // a column missing
        int drop = c.choose((int)cs.size());
        std::string bad = head + (head.back() == '\n' ? "" : "\n") + dataText(cs, n, rot, drop, tail);
        c.note("column " + cs[drop].name + " missing");
        c.state(mc::hashStr(bad));
        bool ok = readData(m, bad, got, bound);
        c.op();
        c.check(!ok, "missing-column", "the column " + cs[drop].name + " is missing and nothing is reported | file: " + bad.substr(from));
    }
    if (!readData(m, good, got, bound) || !same(got)) c.fail("good-data-after", "the undamaged data are not read after damaged ones");
}
MC_GROUP(g_data, "data") {
    int what = c.choose(4), mi = c.choose(c.run.thorough ? 5 : 2), way = c.choose(4);
    switch (what) {
    case 0: dataCase<DOne>(c, mi, way); break;
    case 1: dataCase<DAll>(c, mi, way); break;
    case 2: dataCase<DVec>(c, mi, way); break;
    default: dataCase<DTen>(c, mi, way);
    }
}
MC_MAIN
