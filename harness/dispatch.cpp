// M15: load and write choose the format by the extension.  -DH_DIM=2|3 -DH_IDX=... -DH_REAL=...
#include "io.h"
#include <ftw.h>
#include <csignal>
#include <sys/resource.h>
using namespace mg;
#ifndef H_IDX
#define H_IDX size_t
#endif
#ifndef H_REAL
#define H_REAL double
#endif
constexpr unsigned D = H_DIM;
using Mesh = UnstructuredMesh<H_DIM, H_IDX, H_REAL>;
using ET = typename MeshNativeType<H_DIM>::ElementType;
using VW = VTKMeshWriter<H_DIM, H_IDX, H_REAL>;
using Types = MeshDataContainer<ET, H_DIM>;
using WriterPtr = std::unique_ptr<MeshWriter<H_DIM>>;
using ReaderPtr = std::unique_ptr<MeshReader<H_DIM>>;
enum Kind { NONE, VTK, FPMA };

struct Scratch {                       // a directory of its own for every case
    std::string dir;
    Scratch() { char t[] = "/tmp/gtmesh-m15-XXXXXX"; dir = mkdtemp(t); for (auto d : {"/dir.vtk", "/dir.fpma", "/dir", "/di.r"}) mkdir((dir + d).c_str(), 0755); }
    ~Scratch() { nftw(dir.c_str(), [](const char* p, const struct stat*, int, struct FTW*) { return ::remove(p); }, 16, FTW_DEPTH | FTW_PHYS); }
};
struct Path { const char* p; Kind k; };
static const std::vector<Path> PATHS = {
    {"a.vtk", VTK}, {"a.fpma", FPMA}, {"dir.vtk/b.fpma", FPMA}, {"dir.fpma/b.vtk", VTK}, {"x.vtk.fpma", FPMA}, {"x.fpma.vtk", VTK}, {"dir/.vtk", VTK}, {"di.r/q.r.s.vtk", VTK}, {"a file.fpma", FPMA},
    {"noext", NONE}, {"a.txt", NONE}, {"dir.vtk/noext", NONE}, {"dir.fpma/a.txt", NONE}, {"vtk", NONE}, {"a.vtkx", NONE}, {"a.fpma.bak", NONE}, {"x.vtk.", NONE}, {"a", NONE}};
static Kind kindOf(const Path& p) { return p.k == FPMA && D == 2 ? NONE : p.k; }
static std::string slurp(const std::string& p, bool& ok) { std::ifstream f(p, std::ios::binary); ok = bool(f); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(const std::string& p, const std::string& t) { std::ofstream f(p, std::ios::binary); f << t; }

static std::vector<AbsMesh> meshes() {
    static const std::vector<AbsMesh> all = [] {
        std::vector<AbsMesh> r;
#if H_DIM == 2
        r = {grid2D(2, 1, {0, 1}, 0), grid2D(1, 1, {0}, 0), grid2D(2, 2, {1, 0, 2, 0}, 0)};
#else
        for (auto o : std::vector<std::vector<int>>{{1, 2}, {1, 1}, {8, 3}}) { AbsMesh a; if (grid3D(2, 1, 1, o, 0, true, a)) r.push_back(a); }
#endif
        return r;
    }();
    return all;
}
static void centers(Mesh& m) {
    for (auto& f : m.getFaces()) { Vertex<D, H_REAL> v; for (unsigned k = 0; k < D; k++) v[k] = H_REAL(0.25 * (k + 1) + 0.125 * (size_t)f.getIndex()); f.setCenter(v); }
    for (auto& f : m.getCells()) { Vertex<D, H_REAL> v; for (unsigned k = 0; k < D; k++) v[k] = H_REAL(0.5 * (k + 1) + 0.0625 * (size_t)f.getIndex()); f.setCenter(v); }
}
static void make(Mesh& m, const AbsMesh& a) { m.clear(); build(m, a); centers(m); m.updateSignature(); }
static Types typesOf(Mesh& m, const AbsMesh& a, int mode) {
    Types t(m);
    for (int q = 0; q < a.n(H_DIM); q++) t.template getDataByPos<0>()[q] = Native<H_DIM>::of(mode == 0 || (mode == 2 && q % 2) ? a.type[q] : H_DIM == 2 ? C_POLYGON : C_POLY);
    return t;
}
// what the writer of the format itself writes
static std::string direct(Kind k, Mesh& m, const Types& t, const std::string& header) {
    std::ostringstream o;
    if (k == VTK) { VW w; w.writeHeader(o, header); w.writeToStream(o, m, t); }
#if H_DIM == 3
    else if (k == FPMA) { FPMAMeshWriter<3, H_IDX, H_REAL> w; w.writeToStream(o, m); }
#endif
    return o.str();
}
template <class P> static Kind typeOfWriter(const P& w) {
    if (!w) return NONE;
    if (dynamic_cast<VW*>(w.get())) return VTK;
#if H_DIM == 3
    if (dynamic_cast<FPMAMeshWriter<3, H_IDX, H_REAL>*>(w.get())) return FPMA;
#endif
    return Kind(99);
}
static Kind typeOfReader(const ReaderPtr& r) {
    if (!r) return NONE;
    if (dynamic_cast<VTKMeshReader<H_DIM>*>(r.get())) return VTK;
#if H_DIM == 3
    if (dynamic_cast<FPMAMeshReader<3>*>(r.get())) return FPMA;
#endif
    return Kind(99);
}
static WriterPtr newWriter(Kind k) {
    WriterPtr p;
    if (k == VTK) p.reset(new VW());
#if H_DIM == 3
    if (k == FPMA) p.reset(new FPMAMeshWriter<3, H_IDX, H_REAL>());
#endif
    return p;
}
static std::string digest(const Mesh& m) {
    std::ostringstream o; o << std::setprecision(17);
    for (auto& v : m.getVertices()) { for (unsigned k = 0; k < D; k++) o << v[k] << ' '; o << (long long)v.getIndex() << ';'; }
    for (auto& e : m.getEdges()) o << (long long)e.getVertexAIndex() << '-' << (long long)e.getVertexBIndex() << ';';
    for (auto& f : m.getFaces()) o << (long long)f.getCellLeftIndex() << '|' << (long long)f.getCellRightIndex() << '|' << (long long)f.getNextBElemWRTCL() << '|' << (long long)f.getNextBElemWRTCR() << ';';
    for (auto& q : m.getCells()) o << (long long)q.getBoundaryElementIndex() << ';';
    return o.str();
}
static std::string typesStr(const Types& t) { std::string s; for (auto x : t.template getDataByPos<0>()) s += std::to_string((int)x) + ","; return s; }

// one write through an overload; the file must be the one of the direct writer
static void writeOnce(mc::Case& c, const std::string& dir, Mesh& m, const AbsMesh& a, const Path& p, WriterPtr* keep, int overload, int mode, const std::string& header) {
    std::string path = dir + "/" + p.p;
    Kind k = kindOf(p);
    Types t = typesOf(m, a, mode), poly = typesOf(m, a, 1);
    bool ok, before;
    std::string old = slurp(path, before);
    WriterPtr got;
    bool usesTypes = true, usesHeader = true, usesKeep = false;
    // a reader that knows types: the types of the mesh as it would read them
    struct R : MeshReader<H_DIM> { Types x; Types getCellTypes() const override { return x; } };
    R r; r.x = t;
    switch (overload) {
    case 0: got = m.write(path, t, header); break;
    case 1: got = m.write(path, header); usesTypes = false; break;
    case 2: got = m.write(path, r, header); break;
    case 3: got = m.write(path, t); usesHeader = false; break;
    case 4: m.write(path, *keep, t, header); usesKeep = true; break;
    case 5: m.write(path, *keep, r, header); usesKeep = true; break;
    case 6: m.write(path, *keep); usesKeep = true; usesTypes = usesHeader = false; break;
    case 7: got = m.write(path); usesTypes = usesHeader = false; break;
    }
    c.op(std::string("write ") + p.p + " overload " + std::to_string(overload));
    Kind gk = typeOfWriter(usesKeep ? *keep : got);
    c.equal((int)gk, (int)k, "writer-type", std::string("type of the writer after writing ") + p.p + " (0 none, 1 VTK, 2 FPMA)");
    std::string now = slurp(path, ok);
    if (k == NONE) {
        c.check(ok == before && now == old, "unknown-format", std::string("writing ") + p.p + " touched the file");
        return;
    }
    c.check(ok, "no-file", std::string("no file ") + p.p);
    std::string want = direct(k, m, usesTypes ? t : poly, usesHeader ? header : "");
    if (now != want) c.fail("file", std::string("the file ") + p.p + " is not what the writer of the format writes:\n" + now.substr(0, 1500) + "\n--- want\n" + want.substr(0, 1500));
    c.state(mc::hashStr(now + p.p)); c.out(mc::hashStr(now));
}
#if H_PROP == 15
MC_GROUP(g_write, "write") {
    const Path& p = c.pick(PATHS);
    int overload = c.choose(8), mesh = c.choose(3), mode = c.choose(overload == 1 || overload >= 6 ? 1 : 3), first = overload >= 4 && overload <= 6 ? c.choose(D == 2 ? 2 : 3) : 0, header = c.choose(2), exists = c.choose(2);
    c.go();
    Scratch s;
    Mesh m; AbsMesh a = meshes()[mesh]; make(m, a);
    if (exists) spit(s.dir + "/" + p.p, std::string(100000, 'x') + "\n");
    WriterPtr w = newWriter((Kind)first);
    writeOnce(c, s.dir, m, a, p, &w, overload, mode, header ? "a title" : "");
}
MC_GROUP(g_history, "history") {           // one writer over several files, formats and meshes
    int depth = c.run.thorough ? 4 : 3;
    struct Op { int path, mesh, mode, overload; };
    std::vector<Op> ops;
    for (int i = 0; i < depth; i++) ops.push_back({c.choose(4), c.choose(2), c.choose(2) * 2, 4 + (i + 1) % 3});
    c.go();
    static const int which[] = {0, 1, 2, 3};
    Scratch s;
    Mesh m; WriterPtr w;
    for (auto& o : ops) {
        const Path& p = PATHS[which[o.path]];
        if (kindOf(p) == NONE) c.skip();
        AbsMesh a = meshes()[o.mesh]; make(m, a);
        writeOnce(c, s.dir, m, a, p, &w, o.overload, o.mode, "h");
    }
}
MC_GROUP(g_load, "load") {
    const Path& p = c.pick(PATHS);
    int mesh = c.choose(3), prev = c.choose(3), content = c.choose(2);
    c.go();
    Scratch s;
    Mesh src; AbsMesh a = meshes()[mesh]; make(src, a);
    Kind k = kindOf(p);
    if (k != NONE && content) c.skip();
    std::string text = direct(k == NONE ? (content && D == 3 ? FPMA : VTK) : k, src, typesOf(src, a, 0), "t");
    spit(s.dir + "/" + p.p, text);
    Mesh m;
    if (prev) make(m, meshes()[prev]);
    std::string before = digest(m);
    ReaderPtr r = m.load(s.dir + "/" + p.p);
    c.op(std::string("load ") + p.p);
    c.equal((int)typeOfReader(r), (int)k, "reader-type", std::string("type of the reader of ") + p.p);
    if (k == NONE) { c.check(digest(m) == before, "unknown-format", std::string("loading ") + p.p + " changed the mesh"); return; }
    Mesh m2; std::istringstream in(text);
    Types wt;
    if (k == VTK) { VTKMeshReader<H_DIM> x; x.loadFromStream(in, m2); wt = x.getCellTypes(); }
#if H_DIM == 3
    else { FPMAMeshReader<3> x; x.loadFromStream(in, m2); wt = x.getCellTypes(); }
#endif
    c.check(digest(m) == digest(m2), "loaded", std::string("the mesh loaded from ") + p.p + " is not the one of the reader of the format");
    c.equal(typesStr(r->getCellTypes()), typesStr(wt), "loaded-types", "cell types of the returned reader");
    std::string after; bool ok; after = slurp(s.dir + "/" + p.p, ok);
    c.check(ok && after == text, "changed-file", "loading changed the file");
    c.state(mc::hashStr(text + p.p)); c.out(digest(m));
    // and writing by the reader, loading again: the same mesh
    if (k == VTK) {
        centers(m); m.updateSignature();
        for (int ov = 0; ov < 2; ov++) {
            WriterPtr w;
            if (ov) m.write(s.dir + "/second.vtk", w, *r, "x"); else w = m.write(s.dir + "/second.vtk", *r, "x");
            Mesh m3; auto r3 = m3.load(s.dir + "/second.vtk");
            c.op("write and load again");
            c.equal((size_t)m3.getCells().size(), (size_t)m.getCells().size(), "again", "cells after writing and loading");
            c.equal((size_t)m3.getFaces().size(), (size_t)m.getFaces().size(), "again", "faces after writing and loading");
            c.equal(typesStr(r3->getCellTypes()), typesStr(wt), "again-types", "cell types after writing and loading");
        }
    }
}
// the global locale of the program changes neither the files nor what is read from them
struct Punct : std::numpunct<char> {
    char point, sep; std::string group;
    Punct(char p, char s, const char* g) : point(p), sep(s), group(g) {}
    char do_decimal_point() const override { return point; }
    char do_thousands_sep() const override { return sep; }
    std::string do_grouping() const override { return group; }
};
struct Global { std::locale old; Global(int k) { static const std::locale l[] = {std::locale::classic(), std::locale(std::locale::classic(), new Punct('.', ',', "\3")), std::locale(std::locale::classic(), new Punct(',', ' ', "")), std::locale(std::locale::classic(), new Punct(',', '.', "\1\2"))}; old = std::locale::global(l[k]); } ~Global() { std::locale::global(old); } };
MC_GROUP(g_locale, "locales of the program") {
    int loc = c.choose(4), k = 1 + c.choose(D == 2 ? 1 : 2), overload = c.choose(8), mesh = c.choose(4), scale = c.choose(3), mode = c.choose(overload == 1 || overload >= 6 ? 1 : 3);
    c.go();
    Scratch s; WriterPtr w = newWriter((Kind)k);
    AbsMesh a;
    if (mesh < 3) a = meshes()[mesh];
    else {
#if H_DIM == 2
        a = grid2D(32, 32, std::vector<int>(32 * 32, 1), 0);
#else
        if (!grid3D(9, 9, 10, std::vector<int>(810, 1), 0, true, a)) c.skip();
#endif
    }
    const double f[] = {1, 0.375, 12345.5};
    for (auto& x : a.X) for (int d = 0; d < (int)D; d++) x[d] = x[d] * f[scale] + 0.5 * scale;
    Mesh m; make(m, a);
    Types t = typesOf(m, a, mode);
    std::string want = direct((Kind)k, m, overload == 1 || overload >= 6 ? typesOf(m, a, 1) : t, overload >= 6 || overload == 3 ? "" : "1234,5"), path = s.dir + (k == VTK ? "/a.vtk" : "/a.fpma");
    struct R : MeshReader<H_DIM> { Types x; Types getCellTypes() const override { return x; } } r; r.x = t;
    Mesh m2, m3; ReaderPtr rd, plain;
    bool thrown = false;
    {
        Global g(loc);
        switch (overload) {
        case 0: m.write(path, t, "1234,5"); break;
        case 1: m.write(path, "1234,5"); break;
        case 2: m.write(path, r, "1234,5"); break;
        case 3: m.write(path, t); break;
        case 4: m.write(path, w, t, "1234,5"); break;
        case 5: m.write(path, w, r, "1234,5"); break;
        case 6: m.write(path, w); break;
        default: m.write(path);
        }
    }
    bool ok; std::string now = slurp(path, ok);
    if (now != want) c.fail("file", "written with the locale number " + std::to_string(loc) + " of the program:\n" + now.substr(0, 700) + "\n--- want\n" + want.substr(0, 700));
    { Global g(loc); try { rd = m2.load(path); } catch (std::exception&) { thrown = true; } }
    c.check(!thrown, "load", "the file of the mesh cannot be loaded with the locale number " + std::to_string(loc) + " of the program");
    std::istringstream in(want);
    Types wt;
    if (k == VTK) { VTKMeshReader<H_DIM> x; x.loadFromStream(in, m3); wt = x.getCellTypes(); }
#if H_DIM == 3
    else { FPMAMeshReader<3> x; x.loadFromStream(in, m3); wt = x.getCellTypes(); }
#endif
    c.check(digest(m2) == digest(m3), "loaded", "the mesh loaded with the locale number " + std::to_string(loc) + " of the program differs");
    c.equal(typesStr(rd->getCellTypes()), typesStr(wt), "loaded-types", "cell types with the locale of the program");
    c.op("write and load"); c.state(mc::hashStr(want) * 4 + loc); c.out(mc::hashStr(now));
}
MC_GROUP(g_missing, "missing") {           // files that cannot be opened
    const Path& p = c.pick(PATHS);
    int what = c.choose(3), op = c.choose(4);
    c.go();
    Scratch s;
    Kind k = kindOf(p);
    std::string path = what == 0 ? s.dir + "/absent/" + p.p : what == 1 ? s.dir + "/file/" + p.p : s.dir + "/" + p.p;
    if (what == 1) spit(s.dir + "/file", "x");
    if (what == 2 && op) mkdir(path.c_str(), 0755);         // writing to a directory
    Mesh m; AbsMesh a = meshes()[0]; make(m, a);
    std::string before = digest(m);
    if (op == 0) {
        bool thrown = false;
        try { m.load(path); } catch (std::runtime_error&) { thrown = true; }
        c.op("load absent");
        c.check(thrown, "absent", "loading a file that does not exist does not throw runtime_error");
    } else {
        if (k == NONE) c.skip();
        bool thrown = false;
        WriterPtr w = op == 3 ? newWriter(k) : nullptr;
        try { if (op == 1) m.write(path, typesOf(m, a, 0)); else m.write(path, w, typesOf(m, a, 0)); } catch (std::runtime_error&) { thrown = true; }
        c.op("write to nowhere");
        c.check(thrown, "unwritable", "writing to a path that cannot be opened does not throw runtime_error");
    }
    c.check(digest(m) == before, "mesh", "a failed operation changed the mesh");
    c.state(mc::hashStr(path.substr(s.dir.size())) + what * 7 + op);
}
#else
// M20: the device takes only the first bytes of the file, for every number of them
static const std::vector<AbsMesh>& sizes() {      // some below, some above the buffer of a file stream; with the last ones every section of the files is
    static const std::vector<AbsMesh> all = [] {
        std::vector<AbsMesh> r = meshes();
#if H_DIM == 2
        r.push_back(grid2D(9, 9, std::vector<int>(81, 1), 0)); r.push_back(grid2D(20, 16, std::vector<int>(320, 1), 0)); r.push_back(grid2D(66, 64, std::vector<int>(66 * 64, 1), 0));
#else
        for (int n : {4, 6, 8, 14}) { AbsMesh a; if (grid3D(n, n, n, std::vector<int>(n * n * n, 1), 0, true, a)) r.push_back(a); }
#endif
        for (size_t i = meshes().size(); i < r.size(); i++) for (auto& x : r[i].X) for (int d = 0; d < (int)D; d++) x[d] = x[d] * 0.375 + 0.125;
        return r;
    }();
    return all;
}
MC_GROUP(g_full, "full") {
    int mesh = c.choose((int)sizes().size()), k = 1 + c.choose(D == 2 ? 1 : 2), mode = c.choose(2), overload = c.choose(6), part = c.choose(8);
    const bool big = mesh >= (int)meshes().size();
    const bool huge = mesh >= (int)meshes().size() + 2;
    if (big && mode && !c.run.thorough) c.skip();
    if (huge && (mode || (overload != 0 && overload != 4))) c.skip();
    c.go();
    const AbsMesh& a = sizes()[mesh];
    Mesh m; make(m, a);
    Types t = typesOf(m, a, mode ? 2 : 0), poly = typesOf(m, a, 1);
    static std::map<std::vector<int>, std::string> cache;
    auto& want = cache[{mesh, k, mode, overload}];
    const bool withTypes = overload != 1 && overload != 5;
    const std::string header = overload == 3 || overload == 5 ? "" : "a title";
    if (want.empty()) want = direct((Kind)k, m, withTypes ? t : poly, header);
    size_t n = want.size(), lo = n * part / 8, hi = n * (part + 1) / 8 + (part == 7 ? 3 : 0);
    // every limit of the small files; the large ones at every 61st (7th) byte and around the multiples of the buffers
    const size_t step = !big ? 1 : huge ? std::max<size_t>(1, n / (c.run.thorough ? 1000 : 120)) : c.run.thorough ? 7 : 61;
    std::vector<size_t> cuts;
    for (size_t i = lo; i < hi; i++) if (i % step == 0 || i + 3 > n || (!huge && (i % 4096 <= 1 || i % 4096 >= 4094 || i % 8191 <= 1))) cuts.push_back(i);
    size_t at = cuts[c.choose((int)cuts.size())];
    Scratch s;
    std::string path = s.dir + (k == VTK ? "/a.vtk" : "/a.fpma");
    struct R : MeshReader<H_DIM> { Types x; Types getCellTypes() const override { return x; } };
    R r; r.x = t;
    WriterPtr w;
    if (overload == 4) w = newWriter((Kind)k);
    const std::string before = digest(m);
    auto go = [&] {
        switch (overload) {
        case 0: w = m.write(path, t, header); break;
        case 1: w = m.write(path, header); break;
        case 2: w = m.write(path, r, header); break;
        case 3: m.write(path, w, t); break;
        case 4: m.write(path, w, r, header); break;
        default: m.write(path, w); break;
        }
    };
    struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = at;
    signal(SIGXFSZ, SIG_IGN);
    fflush(stdout); fflush(stderr);
    setrlimit(RLIMIT_FSIZE, &lim);
    bool threw = false;
    try { go(); } catch (const std::runtime_error&) { threw = true; }
    setrlimit(RLIMIT_FSIZE, &old);
    c.op("the device is full after " + std::to_string(at) + " of " + std::to_string(n) + " bytes, overload " + std::to_string(overload) + ", format " + std::to_string(k));
    c.out((uint64_t)threw); c.state(mc::mix(mc::mix(n, at), overload * 4 + k));
    bool ok;
    std::string got = slurp(path, ok);
    if (at < n) c.check(threw, "lost", "only " + std::to_string(got.size()) + " of " + std::to_string(n) + " bytes of the mesh were written and nothing is reported");
    else { c.check(!threw, "spurious", "an error is reported although everything fits"); c.check(got == want, "file", "the file is not complete although nothing is reported"); }
    c.check(digest(m) == before, "mesh", "writing changed the mesh");
    // the device has room again: the same objects write the whole file
    if (threw && overload == 4 && !w) w = newWriter((Kind)k);
    go();
    c.op("write again");
    got = slurp(path, ok);
    c.check(ok && got == want, "again", "the file written after a failed one differs from what the writer of the format writes");
}
MC_GROUP(g_devfull, "devices") {     // a path that leads to a device which takes nothing
    int k = c.choose(D == 2 ? 1 : 2), overload = c.choose(3), mesh = c.choose((int)sizes().size());
    c.go();
    AbsMesh a = sizes()[mesh];
    Mesh m; make(m, a);
    Scratch s;
    std::string path = s.dir + (k == 0 ? "/f.vtk" : "/f.fpma");
    if (symlink("/dev/full", path.c_str()) != 0) c.skip();
    bool threw = false;
    WriterPtr w = overload == 2 ? newWriter((Kind)(k + 1)) : nullptr;
    try { if (overload == 0) m.write(path, typesOf(m, a, 0)); else m.write(path, w, typesOf(m, a, 0)); } catch (std::runtime_error&) { threw = true; }
    c.op("write to a full device"); c.state(k * 100 + overload * 10 + mesh);
    c.check(threw, "full-device", "writing to a full device reports nothing");
}
#endif
MC_MAIN
