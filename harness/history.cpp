// M07: writers with a history.  M08: meshes and readers with a history.  M17: the mesh signature.
//   -DH_PROP=7|8|17 -DH_DIM=2|3 -DH_RES=... -DH_IDX=...
#include "io.h"
#include "sizes.h"
using namespace mg;
#ifndef H_IDX
#define H_IDX size_t
#endif
#ifdef H_RES
using Mesh = UnstructuredMesh<H_DIM, H_IDX, double, H_RES>;
#else
using Mesh = UnstructuredMesh<H_DIM, H_IDX, double>;
#endif
#if H_PROP != 7
// what the memory of new objects holds must not matter
static unsigned char g_fill = 0;
static const unsigned char fills[] = {0, 0xff, 0x5a};
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, g_fill, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
using ET = typename MeshNativeType<H_DIM>::ElementType;
constexpr unsigned D = H_DIM;

template <unsigned d> struct DumpDim { static void dump(std::ostringstream& o, const Mesh& m) {
    o << "S" << d << ":";
    for (auto& e : m.template getElements<d>()) { o << e.getIndex() << "["; for (auto& s : e.getSubelements()) o << (H_IDX)s << ","; o << "]"; }
    DumpDim<d - 1>::dump(o, m);
} };
template <> struct DumpDim<1> { static void dump(std::ostringstream&, const Mesh&) {} };
static std::string dump(const Mesh& m) {
    std::ostringstream o; o << std::setprecision(17) << "V:";
    for (auto& v : m.getVertices()) { o << v.getIndex() << "("; for (unsigned k = 0; k < D; k++) o << v[k] << ","; o << ")"; }
    o << " E:";
    for (auto& e : m.getEdges()) o << e.getIndex() << "(" << e.getVertexAIndex() << "," << e.getVertexBIndex() << ")";
    DumpDim<D - 1>::dump(o, m);
    o << " F:";
    for (auto& f : m.getFaces()) { o << f.getIndex() << "(" << f.getCellLeftIndex() << "," << f.getCellRightIndex() << "," << f.getNextBElemWRTCL() << "," << f.getNextBElemWRTCR() << ";"; for (unsigned k = 0; k < D; k++) o << f.getCenter()[k] << ","; o << ")"; }
    o << " C:";
    for (auto& q : m.getCells()) { o << q.getIndex() << "(" << q.getBoundaryElementIndex() << ";"; for (unsigned k = 0; k < D; k++) o << q.getCenter()[k] << ","; o << ")"; }
    o << " B:";
    for (auto& q : m.getBoundaryCells()) { o << q.getIndex() << "(" << q.getBoundaryElementIndex() << ";"; for (unsigned k = 0; k < D; k++) o << q.getCenter()[k] << ","; o << ")"; }
    return o.str();
}
// k >= 100: a strip of k - 99 squares or cubes, split in turns
static AbsMesh sample(int k) {
    AbsMesh a;
    if (k >= 100) {
        std::vector<int> o; for (int i = 0; i < k - 99; i++) o.push_back(H_DIM == 2 ? 1 + i % 5 : i % 4 || H_PROP == 8 ? 1 : 9);
#if H_DIM == 2
        return grid2D(k - 99, 1, o, 2);
#else
        grid3D(k - 99, 1, 1, o, 2, true, a);
        return a;
#endif
    }
#if H_DIM == 2
    static const std::vector<std::vector<int>> o{{1, 2}, {2, 1}, {5, 1}, {4, 3}};
    a = grid2D(2, 1, o[k], 2);
#else
    static const std::vector<std::vector<int>> o{{1, 1}, {11, 2}, {1, 8}, {2, 3}, {9, 10}};
    grid3D(2, 1, 1, o[k], 2, true, a);
#endif
    return a;
}

// ---------------------------------------------------------------------------------------------- M07
#if H_PROP == 7
struct Out { std::string text, map; };
#if H_FPMA
using Writer = FPMAMeshWriter<D, H_IDX, double>;
static Out write(Writer& w, Mesh& m, const MeshDataContainer<ET, D>&) { std::ostringstream o; o << std::setprecision(17); w.writeToStream(o, m); return {o.str(), ""}; }
#else
using Writer = VTKMeshWriter<D, H_IDX, double>;
static Out write(Writer& w, Mesh& m, const MeshDataContainer<ET, D>& t) {
    std::ostringstream o; o << std::setprecision(17); w.writeHeader(o, "t"); w.writeToStream(o, m, t);
    Out r{o.str(), std::to_string(w.getNumberOfCells())};
#if H_DIM == 3
    for (auto& kv : w.backwardCellIndexMapping) r.map += "," + std::to_string(kv.first) + ":" + std::to_string(kv.second);
#endif
    return r;
}
#endif
struct World {
    Mesh m; AbsMesh a; MeshDataContainer<ET, D> types;
    void set(int k, int ty) {
        Mesh n; a = sample(k); build(n, a); n.initializeCenters(); m = n; setTypes(ty);
    }
    void setTypes(int ty) {
        types = MeshDataContainer<ET, D>(m);
        for (int q = 0; q < a.n(D); q++) types.template getDataByPos<0>()[q] = ty == 1 || (ty == 2 && q % 2) ? Native<D>::of(H_DIM == 2 ? C_POLYGON : C_POLY) : Native<D>::of(a.type[q]);
    }
    // the modifications; last: at the last element instead of the first
    bool modify(int op, bool last, bool middle = false) {
        auto& F = m.getFaces(); auto& V = m.getVertices(); auto& E = m.getEdges(); auto& C = m.getCells();
        auto at = [&](size_t n) { return last ? n - 1 : middle ? n / 2 : 0; };
        size_t f = at(F.size()), v = at(V.size()), e = at(E.size()), q = at(C.size());
        switch (op) {
        case 0: V[v][last] += 0.0625; return true;
        case 1: { auto x = F[f].getCenter(); x[last] += 0.03125; F[f].setCenter(x); return true; }
        case 2: { auto x = C[q].getCenter(); x[last] += 0.03125; C[q].setCenter(x); return true; }
        case 3: { auto x = E[e].getVertexAIndex(); E[e].setVertexAIndex(E[e].getVertexBIndex()); E[e].setVertexBIndex(x); return true; }
        case 4: C[q].setBoundaryElementIndex(F[C[q].getBoundaryElementIndex()].getNextBElem((H_IDX)q)); return true;
        case 5: { auto l = F[f].getCellLeftIndex(), r = F[f].getCellRightIndex(), nl = F[f].getNextBElemWRTCL(), nr = F[f].getNextBElemWRTCR(); F[f].setCellLeftIndex(r); F[f].setCellRightIndex(l); F[f].setNextBElemWRTCL(nr); F[f].setNextBElemWRTCR(nl); return true; }
        case 6: setTypes(0); return true;
        case 7: setTypes(1); return true;
        case 8: setTypes(2); return true;
        case 9: set(last ? 1 : 0, 0); return true;
        case 10: set(last ? 3 : 2, 0); return true;
        case 11: { std::swap(V[v][0], V[v ? v - 1 : v + 1][0]); std::swap(V[v][1], V[v ? v - 1 : v + 1][1]); return true; }
#if H_DIM == 3
        case 12: { auto& s = F[f].getSubelements(); std::swap(s[0], s[1]); return true; }
        case 13: { auto& s = F[f].getSubelements(); std::rotate(s.begin(), s.begin() + 1, s.end()); return true; }
#endif
        }
        return false;
    }
};
static const int N_OPS = H_DIM == 3 ? 14 : 12;
static void session(mc::Case& c, int depth, bool large = false) {
    auto ns = sizes::upTo(c.run.thorough ? 600 : 130);
    int start = large ? c.choose((int)ns.size()) : c.choose(3), ty = H_FPMA ? 0 : c.choose(2);
    std::vector<int> ops;
    bool firstOnly = depth == 3 && !c.run.thorough;
    if (large) { if (ns[start] < 16) c.skip(); start = 99 + (int)ns[start]; }
    for (int i = 0; i < depth; i++) ops.push_back(firstOnly ? 2 * c.choose(N_OPS) : c.choose(2 * N_OPS + 1));
    for (int o : ops) if (H_FPMA && o / 2 >= 6 && o / 2 <= 8) c.skip();
    for (int i = 0; i + 1 < depth; i++) if (ops[i] == 2 * N_OPS && ops[i + 1] == 2 * N_OPS) c.skip();
    c.go();
    World w; w.set(start, ty);
    Writer wr;
    std::string hist = "mesh " + std::to_string(start) + " types " + std::to_string(ty);
    for (int i = 0; i <= depth; i++) {
        if (i) { int o = ops[i - 1]; hist += " op" + std::to_string(o / 2) + (o == 2 * N_OPS ? "(none)" : o % 2 ? "(last)" : "(first)"); if (o < 2 * N_OPS) w.modify(o / 2, o % 2, large); }
        Out got = write(wr, w.m, w.types);
        Writer fresh;
        Mesh copy = w.m;
        Out want = write(fresh, copy, w.types);
        c.op(); c.state(mc::hashStr(want.text + want.map)); c.out(got.text);
        if (i == 0) c.note(hist);
        c.check(got.text == want.text, "stale", "a writer that wrote before writes something else than a new one after: " + hist + "\ngot\n" + got.text.substr(0, 1500) + "\nwant\n" + want.text.substr(0, 1500));
        c.check(got.map == want.map, "stale-mapping", "cell count or mapping of a writer with a history differs after: " + hist + "; got " + got.map + " want " + want.map);
    }
    c.note(hist);
}
MC_GROUP(g_1, "one-change") { session(c, 1); }
MC_GROUP(g_2, "two-changes") { session(c, 2); }
MC_GROUP(g_3, "three-changes") { session(c, 3); }
MC_GROUP(g_L, "one change of a large mesh") { session(c, 1, true); }
// writers placed on memory with any previous content
MC_GROUP(g_raw, "raw-memory") {
    int fill = c.choose(4), k = c.choose(3), empty = c.choose(2);
    c.go();
    alignas(Writer) static unsigned char raw[sizeof(Writer)];
    World w; w.set(k, 0);
    if (empty) w.m.clear();
    if (empty) w.types = MeshDataContainer<ET, D>(w.m);
    memset(raw, fill == 0 ? 0 : fill == 1 ? 255 : 90, sizeof raw);
    if (fill == 3) { size_t s = w.m.updateSignature(); for (size_t i = 0; i + 8 <= sizeof raw; i += 8) memcpy(raw + i, &s, 8); }
    Writer* p = new (raw) Writer;
    Out got = write(*p, w.m, w.types);
    p->~Writer();
    Writer* q = new Writer();
    Out want = write(*q, w.m, w.types);
    delete q;
    c.op(); c.state(mc::hashStr(got.text)); c.note("fill " + std::to_string(fill));
    c.check(got.text == want.text, "uninitialised", "a new writer depends on what its memory held before: got " + got.text.substr(0, 600) + " want " + want.text.substr(0, 600));
}
#endif

// ---------------------------------------------------------------------------------------------- M08
#if H_PROP == 8
struct Readers { VTKMeshReader<D> v;
#if H_DIM == 3
    FPMAMeshReader<3> f;
#endif
};
static std::vector<std::vector<long long>> loopsOf(const AbsMesh& a) { std::vector<std::vector<long long>> r; if (H_DIM == 3) for (auto& f : a.sub[2]) { auto l = loopOf(a, f); r.push_back(std::vector<long long>(l.begin(), l.end())); } return r; }
static const std::vector<std::string>& files() {
    static std::vector<std::string> f;
    if (f.empty()) {
        for (int k : (H_DIM == 3 ? std::vector<int>{0, 3, 4} : std::vector<int>{0, 1, 3})) f.push_back(vtkText(sample(k)));
#if H_DIM == 3
        for (int k : {1, 2}) { AbsMesh a = sample(k); std::vector<std::vector<int>> l; for (auto& s : a.sub[2]) l.push_back(loopOf(a, s)); f.push_back(fpmaText(a, l)); }
#else
        for (int k : {2, 1}) f.push_back(vtkText(sample(k)));
#endif
        // a file with an unsupported cell type: refused with an exception
        std::string bad = f[0]; size_t p = bad.find("CELL_TYPES"); p = bad.find('\n', p); bad.insert(p + 1, "77 "); f.push_back(bad);
        f.push_back("# vtk DataFile Version 2.0\nt\nBINARY\n");
    }
    return f;
}
// ops 0..4 files, 5, 6 refused files, 7 setupBoundaryCells, 8 boundary centres, 9 initializeCenters, 10 clear, 11 updateSignature
static const int N_OPS8 = 12;
static bool apply(int op, Mesh& m, Readers& r) {
    if (op < 7) {
        std::istringstream in(files()[op]);
        try {
#if H_DIM == 3
            if (op == 3 || op == 4) r.f.loadFromStream(in, m); else
#endif
                r.v.loadFromStream(in, m);
        } catch (std::runtime_error&) { return false; }
        return true;
    }
    if (op == 7) m.setupBoundaryCells();
    if (op == 8) m.setupBoundaryCellsCenters();
    if (op == 9) m.initializeCenters();
    if (op == 10) m.clear();
    if (op == 11) m.updateSignature();
    return true;
}
static std::string typesOf(const Readers& r, int op) {
    std::string s;
#if H_DIM == 3
    if (op == 3 || op == 4) { auto ts = r.f.getCellTypes(); for (auto t : ts.template getDataByPos<0>()) s += std::to_string((int)t) + ","; return s; }
#endif
    auto tv = r.v.getCellTypes();
    for (auto t : tv.template getDataByPos<0>()) s += std::to_string((int)t) + ",";
    return s;
}
static void session8(mc::Case& c, int depth) {
    std::vector<int> ops;
    for (int i = 0; i < depth; i++) ops.push_back(c.choose(N_OPS8));
    for (int i = 0; i + 1 < depth; i++) if (ops[i] == ops[i + 1] && ops[i] >= 10) c.skip();
    if (ops.back() == 5 || ops.back() == 6 || ops.back() == 11) c.skip();
    c.go();
    static std::map<std::string, std::pair<std::string, std::string>> cache;
    static std::map<std::string, size_t> sig;
    Mesh m; Readers r;
    std::vector<int> since;            // operations since the mesh content was last replaced
    bool defined = true;
    std::string hist;
    for (int op : ops) {
        bool hasCells = !m.getCells().empty();
        if (!defined && op > 6 && op != 10) c.skip();                 // the mesh of a refused file is not specified
        hist += " " + std::to_string(op);
        bool ok = apply(op, m, r);
        c.op();
        if (op == 5 || op == 6) { c.check(!ok, "refused-accepted", "a file that must be refused was accepted after" + hist); if (op == 5) { defined = false; } continue; }
        c.check(ok, "load-failed", "loading a good file failed after" + hist);
        if (op < 5 || op == 10) { since.clear(); defined = true; }
        since.push_back(op);
        std::string key; for (int o : since) key += std::to_string(o) + ",";
        if (!cache.count(key)) g_fill = fills[depth % 3];
        if (!cache.count(key)) { Mesh f; Readers fr; for (int o : since) apply(o, f, fr); cache[key] = {dump(f), typesOf(fr, since[0])}; sig[key] = f.getSignature(); }
        std::string got = dump(m);
        if (op < 5) { c.equal(m.getSignature(), sig[key], "signature-of-file", "the signature after loading is not that of a new mesh loaded from the file, after" + hist); g_fill = fills[hist.size() / 2 % 3]; }
        c.state(mc::hashStr(got));
        c.out(got);
        if (got != cache[key].first) c.fail("differs", "after the operations" + hist + " the mesh is not what the operations " + key + " give on a new mesh:\ngot  " + got.substr(0, 2500) + "\nwant " + cache[key].first.substr(0, 2500));
        if (op < 5) {
            c.check(typesOf(r, op) == cache[key].second, "types-differ", "cell types of the reader after" + hist + ": " + typesOf(r, op) + " want " + cache[key].second);
            c.check(m.getSignature() == Mesh(m).updateSignature(), "signature-after-load", "the signature after loading is not the signature of the mesh, after" + hist);
        }
    }
    c.note(hist);
}
MC_GROUP(g_1, "histories-1") { session8(c, 1); }
MC_GROUP(g_2, "histories-2") { session8(c, 2); }
MC_GROUP(g_3, "histories-3") { session8(c, 3); }
MC_GROUP(g_4, "histories-4") { session8(c, 4); }
// a mesh and a reader that held one size load another
MC_GROUP(g_L, "loads of two sizes") {
    static const std::vector<int> ns = {1, 2, 3, 7, 16, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300};
    int n = c.pick(ns), k = c.pick(ns), what = c.choose(4);
    if (!c.run.thorough && H_DIM == 3 && (n > 130 || k > 130)) c.skip();
    c.go();
    static std::map<int, std::string> text; static std::map<int, std::pair<std::string, std::string>> want; static std::map<int, size_t> wantSig;
    for (int x : {n, k}) if (!text.count(x)) {
        AbsMesh a = sample(99 + x);
        text[x] = vtkText(a);
        Mesh m; Readers r; std::istringstream in(text[x]); r.v.loadFromStream(in, m);
        want[x] = {dump(m), typesOf(r, -1)}; wantSig[x] = m.getSignature();
    }
    Mesh m; Readers r;
    for (int x : {n, k}) {
        std::istringstream in(text[x]); r.v.loadFromStream(in, m); c.op();
        g_fill = fills[(what + x) % 3];
        c.equal(m.getSignature(), wantSig[x], "signature-of-file-large", "the signature after loading is not that of a new mesh");
        std::string w = "loading a mesh of " + std::to_string(k) + " cells after one of " + std::to_string(n) + ", between them " + std::to_string(what);
        c.check(dump(m) == want[x].first, "differs-large", "the mesh differs from that of a new one, " + w);
        c.check(typesOf(r, -1) == want[x].second, "types-differ-large", "the cell types differ from those of a new reader, " + w);
        if (what & 1) { m.initializeCenters(); m.setupBoundaryCells(); }
        if (what & 2) m.clear();
    }
    c.state(mc::mix(mc::mix(n, k), what)); c.out(k);
}
MC_GROUP(g_5, "histories-5") { if (!c.run.thorough) { c.go(); c.skip(); } session8(c, 5); }
#endif

// ---------------------------------------------------------------------------------------------- M17
#if H_PROP == 17
static bool g_large = false;
// the element to change: every one, or those around the lengths of interest
static int place(mc::Case& c, size_t n) {
    if (!g_large) return c.choose((int)n);
    std::vector<int> r;
    for (size_t x : sizes::upTo(n - 1)) if (x < 3 || x > 60) r.push_back((int)x);
    return r[c.choose((int)r.size())];
}
static int later(mc::Case& c, int i, size_t n) {
    if (!g_large) return c.choose((int)n);
    static const int step[] = {1, 64, 256};
    int j = i + step[c.choose(3)];
    if (j >= (int)n) c.skip();
    return j;
}
template <unsigned d> struct SubChange {      // swap two sub-elements of one element / exchange one between two elements
    static void run(mc::Case& c, Mesh& m, int kind) {
        auto& L = m.template getElements<d>();
        if (L.empty()) c.skip();
        int at = place(c, L.size()); auto& s = L[at].getSubelements();
        if (kind == 0) { int i = c.choose((int)s.size()), j = c.choose((int)s.size()); if (j <= i || s[i] == s[j]) c.skip(); std::swap(s[i], s[j]); }
        else {
            auto& t = L[later(c, at, L.size())].getSubelements();
            if (&t <= &s) c.skip();
            int i = c.choose((int)s.size()), j = c.choose((int)t.size());
            if (s[i] == t[j]) c.skip();
            std::swap(s[i], t[j]);
        }
    }
};
static void change(mc::Case& c, Mesh& m, int kind) {
    auto& F = m.getFaces(); auto& V = m.getVertices(); auto& E = m.getEdges(); auto& C = m.getCells();
    auto bump = [&](H_IDX v) { return v == std::numeric_limits<H_IDX>::max() ? H_IDX(0) : H_IDX(v + 1); };
    switch (kind) {
    case 0: { auto& v = V[place(c, V.size())]; int k = c.choose(D); int how = c.choose(4); v[k] = how == 0 ? std::nextafter(v[k], 1e9) : how == 1 ? v[k] + 1 : how == 2 ? v[k] * 2 + 5 : -v[k]; break; }
    case 1: { auto& e = E[place(c, E.size())]; auto x = e.getVertexAIndex(); e.setVertexAIndex(e.getVertexBIndex()); e.setVertexBIndex(x); break; }
    case 2: { auto& e = E[place(c, E.size())]; if (c.choose(2)) e.setVertexAIndex(bump(e.getVertexAIndex())); else e.setVertexBIndex(bump(e.getVertexBIndex())); break; }
    case 3: { auto& f = F[place(c, F.size())]; auto x = f.getCenter(); int k = c.choose(D); x[k] = c.choose(2) ? -x[k] : std::nextafter(x[k], 1e9); f.setCenter(x); break; }
    case 4: { auto& f = F[place(c, F.size())]; auto l = f.getCellLeftIndex(); if (l == f.getCellRightIndex()) c.skip(); f.setCellLeftIndex(f.getCellRightIndex()); f.setCellRightIndex(l); break; }
    case 5: { auto& f = F[place(c, F.size())]; switch (c.choose(4)) { case 0: f.setCellLeftIndex(bump(f.getCellLeftIndex())); break; case 1: f.setCellRightIndex(bump(f.getCellRightIndex())); break; case 2: f.setNextBElemWRTCL(bump(f.getNextBElemWRTCL())); break; default: f.setNextBElemWRTCR(bump(f.getNextBElemWRTCR())); } break; }
    case 6: { auto& q = C[place(c, C.size())]; q.setBoundaryElementIndex(bump(q.getBoundaryElementIndex())); break; }
    case 7: { auto& q = C[place(c, C.size())]; auto x = q.getCenter(); int k = c.choose(D); x[k] = c.choose(2) ? -x[k] : std::nextafter(x[k], 1e9); q.setCenter(x); break; }
    case 8: switch (c.choose(4)) { case 0: V.pop_back(); break; case 1: E.pop_back(); break; case 2: F.pop_back(); break; default: C.pop_back(); } break;
    case 9: { int i = place(c, V.size()), j = later(c, i, V.size()); if (j <= i) c.skip(); std::swap(V[i], V[j]); break; }
    case 10: { int i = place(c, F.size()), j = later(c, i, F.size()); if (j <= i) c.skip(); std::swap(F[i], F[j]); break; }
    case 11: { int i = place(c, C.size()), j = later(c, i, C.size()); if (j <= i) c.skip(); std::swap(C[i], C[j]); break; }
#if H_DIM >= 3
    case 12: SubChange<2>::run(c, m, 0); break;
    case 13: SubChange<2>::run(c, m, 1); break;
    case 14: { auto& L = m.template getElements<2>(); auto& s = L[place(c, L.size())].getSubelements(); int i = c.choose((int)s.size()); s[i] = bump(s[i]); break; }
    case 15: m.clear(); break;
#endif
    default: c.skip();
    }
}
static void singleChange(mc::Case& c, bool large) {
    static const std::vector<int> ns = H_DIM == 2 ? std::vector<int>{133, 266, 300} : std::vector<int>{67, 90};
    int k = large ? 99 + c.pick(ns) : c.choose(H_DIM == 2 ? 4 : 5), cen = large ? 1 : c.choose(2), kind = c.choose(16);
    if (large && !c.run.thorough && k != 99 + ns[0]) c.skip();
    g_large = large;
    c.go();
    static std::map<int, Mesh> made;
    if (!made.count(k * 2 + cen)) { Mesh n; build(n, sample(k)); if (cen) n.initializeCenters(); made[k * 2 + cen] = n; }
    Mesh m = made[k * 2 + cen];
    size_t s0 = m.updateSignature();
    std::string before = dump(m);
    c.equal(m.getSignature(), s0, "get", "getSignature after updateSignature");
    c.equal(m.updateSignature(), s0, "stable", "signature computed twice");
    change(c, m, kind);
    std::string after = dump(m);
    if (after == before) c.skip();
    c.op(); c.state(mc::hashStr(after));
    c.note("mesh " + std::to_string(k) + " change " + std::to_string(kind));
    c.equal(m.getSignature(), s0, "get-stale", "getSignature without updateSignature");
    size_t s1 = m.updateSignature();
    c.check(s1 != s0, "unchanged", "the signature does not change although the mesh did (change " + std::to_string(kind) + "):\n" + before.substr(0, 1500) + "\n" + after.substr(0, 1500));
    c.out(s1);
}
MC_GROUP(g_change, "single-change") { singleChange(c, false); }
MC_GROUP(g_changeL, "single change of a large mesh") { singleChange(c, true); }
// the signature is that of the mesh, whatever the memory of the elements held and however they got there
template <unsigned d> struct Again { static void copy(Mesh& to, const Mesh& from, int how) {
    auto& t = to.template getElements<d>(); auto& f = from.template getElements<d>();
    if (how == 0) for (auto& e : f) t.push_back(e);
    else if (how == 1) { t.resize(f.size()); for (size_t i = 0; i < f.size(); i++) t[i] = f[i]; }
    else if (how == 2) { t = f; t.reserve(t.capacity() * 2 + 3); }
    else { t = f; t.push_back(f.empty() ? typename std::decay<decltype(f[0])>::type() : f[0]); t.pop_back(); t.shrink_to_fit(); }
    Again<d - 1>::copy(to, from, how);
} };
template <> struct Again<0> { static void copy(Mesh& to, const Mesh& from, int how) { auto& t = to.getVertices(); auto& f = from.getVertices(); if (how % 2) { t.resize(f.size()); for (size_t i = 0; i < f.size(); i++) t[i] = f[i]; } else { for (auto& e : f) t.push_back(e); } } };
MC_GROUP(g_again, "the same mesh elsewhere") {
    static const std::vector<int> large = {99 + 16, 99 + 67, 99 + 133};
    int k = c.choose(H_DIM == 2 ? 7 : 8), cen = c.choose(2), f1 = c.choose(3), f2 = c.choose(3), how = c.choose(8);
    c.go();
    int n = H_DIM == 2 ? 4 : 5; k = k < n ? k : large[k - n];
    c.note("mesh " + std::to_string(k) + " memory " + std::to_string(f1) + "/" + std::to_string(f2) + " way " + std::to_string(how)); c.op();
    AbsMesh a = sample(k);
    auto make = [&](Mesh& m) { build(m, a); if (cen) { m.initializeCenters(); m.setupBoundaryCells(); } };
    g_fill = fills[f1];
    Mesh m; make(m);
    size_t s = m.updateSignature();
    g_fill = fills[f2];
    Mesh t;
    switch (how) {
    case 0: case 1: case 2: case 3: Again<D>::copy(t, m, how); break;
    case 4: t = m; break;
    case 5: { Mesh u(m); t = std::move(u); break; }
    case 6: make(t); break;
    default: make(t); t.clear(); make(t); break;
    }
    g_fill = 0;
    std::string x = dump(m);
    if (how < 4) { c.check(t.getBoundaryCells().empty(), "copies", "boundary cells"); t.getBoundaryCells() = m.getBoundaryCells(); }
    c.check(x == dump(t), "copies", "the copy of the mesh differs");
    c.equal(t.updateSignature(), s, "elsewhere", "the signature of an equal mesh");
    c.state(mc::hashStr(x)); c.out(s);
}
MC_GROUP(g_pairs, "meshes-differ") {
    int i = c.choose(H_DIM == 2 ? 4 : 5), j = c.choose(H_DIM == 2 ? 4 : 5), e = c.choose(N_ENC), f = c.choose(N_ENC);
    c.go();
    AbsMesh a = sample(i), b = sample(j); encode(a, e); encode(b, f);
    Mesh m, n; build(m, a); build(n, b);
    std::string x = dump(m), y = dump(n);
    c.op(); c.state(mc::hashStr(x));
    c.note(std::to_string(i) + "/" + std::to_string(j));
    if (x != y) c.check(m.updateSignature() != n.updateSignature(), "collision", "two different meshes have one signature:\n" + x + "\n" + y);
}
#endif
MC_MAIN
