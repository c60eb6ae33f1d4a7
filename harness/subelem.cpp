// M14: sub-element lists and mesh elements, against a model of plain sequences and records.
#include "mc.h"
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <algorithm>
#include <memory>
template <class T> struct mc_tag { using type = T; };

template <class S> std::vector<long long> listed(mc::Case& c, S& s, const std::string& w) {
    const S& q = s;
    std::vector<long long> a, b, d, e;
    for (auto x : s) a.push_back((long long)x);
    for (auto x : q) b.push_back((long long)x);
    for (auto it = q.cbegin(); it != q.cend(); ++it) d.push_back((long long)*it);
    for (size_t i = 0; i < (size_t)q.size(); i++) { e.push_back((long long)q[i]); c.check(s[i] == q[i] && s.at(i) == q[i], "access", w + ": accesses disagree"); }
    c.check(a == b && a == d && a == e, "iteration", w + ": the ways of iterating disagree");
    std::vector<long long> r1, r2, r3;
    for (auto it = s.rbegin(); it != s.rend() && r1.size() <= a.size(); ++it) r1.push_back((long long)*it);
    for (auto it = q.rbegin(); it != q.rend() && r2.size() <= a.size(); ++it) r2.push_back((long long)*it);
    for (auto it = q.crbegin(); it != q.crend() && r3.size() <= a.size(); ++it) r3.push_back((long long)*it);
    c.check(r1 == r2 && r1 == r3 && r1 == std::vector<long long>(a.rbegin(), a.rend()), "backwards", w + ": iterating backwards");
    c.check(q.empty() == a.empty(), "empty", w + ": empty");
    if (!a.empty()) c.check((long long)s.back() == a.back() && (long long)q.back() == a.back() && (long long)q.front() == a.front(), "ends", w + ": the first and the last");
    c.equal((size_t)q.getNumberOfSubElements(), (size_t)q.size(), "count", w + ": getNumberOfSubElements and size");
    return a;
}
static std::string show(const std::vector<long long>& v) { std::string s; for (auto x : v) s += std::to_string(x) + " "; return s; }

template <class Idx, unsigned R> void sequence(mc::Case& c, int depth) {
    using S = SubelementContainer<Idx, R>;
    S s, other;
    std::vector<long long> m, mo;
    long long next = 3;
    const size_t cap = R == 0 ? 1000 : R;
    for (int step = 0; step < depth; step++) {
        // operations: add in two ways, remove at any index (one beyond the end as well), copy, assign back
        int removals = R == 0 ? (int)m.size() : (int)m.size() + 2;
        int o = c.choose(5 + removals);
        if (step == 1) c.go();
        std::string w;
        if (o < 2) {
            Idx v = Idx(next++);
            bool thrown = false;
            try { if (o) s.push_back(v); else s.addSubelement(v); } catch (std::runtime_error&) { thrown = true; }
            c.equal(thrown, m.size() >= cap, "overflow", "adding to a list of " + std::to_string(m.size()) + " of " + std::to_string(cap) + " throws");
            if (!thrown) m.push_back((long long)v);
            w = "add";
        } else if (o == 2) { other = s; mo = m; w = "keep a copy"; }
        else if (o == 3) { S t(other); s = t; m = mo; w = "restore the copy"; }
        else if (o == 4) { if (step % 2) s.swap(other); else std::swap(s, other); std::swap(m, mo); w = "exchange with the copy"; }
        else {
            unsigned i = o - 5;
            if (R != 0 && i == m.size() + 1) i = m.size() + 256;                 // far beyond the end
            bool thrown = false;
            try { s.removeSubelement(i); } catch (std::runtime_error&) { thrown = true; }
            c.equal(thrown, i >= m.size(), "remove-range", "removing index " + std::to_string(i) + " of " + std::to_string(m.size()) + " throws");
            if (!thrown) m.erase(m.begin() + i);
            w = "remove " + std::to_string(i);
        }
        c.op(w);
        auto got = listed(c, s, w);
        c.check(got == m, "content", "after " + w + ": holds " + show(got) + "instead of " + show(m));
        c.check(listed(c, other, w) == mo, "independent", "after " + w + ": the copy changed");
        c.check((s == other) == (m == mo) && (s != other) == (m != mo), "equality", "after " + w + ": comparing with the copy");
        { S t; for (auto x : m) t.push_back((Idx)x); c.check(t == s && !(t != s), "equality", "after " + w + ": comparing with a list of the same indices"); }
        uint64_t h = 1;
        for (auto x : m) h = mc::mix(h, x);
        for (auto x : mo) h = mc::mix(h, x + 1000);
        c.state(h); c.out(h);
    }
}
// lists longer than a byte can index
template <class Idx, unsigned R> void longList(mc::Case& c) {
    static const std::vector<int> lengths = {1, 2, 127, 128, 129, 254, 255, 256, 257, 258, 299, 300};
    int n = c.pick(lengths);
    c.go();
    std::vector<long long> m;
    SubelementContainer<Idx, R> s;
    for (int i = 0; i < n; i++) { s.push_back(Idx(i * 2 + 1)); m.push_back(i * 2 + 1); }
    c.check(listed(c, s, "long") == m, "content", "long list");
    for (int i = 0; i < n; i++) {
        SubelementContainer<Idx, R> t(s);
        auto w = m;
        t.removeSubelement(i);
        w.erase(w.begin() + i);
        c.check(listed(c, t, "long") == w, "content", "after removing index " + std::to_string(i) + " of " + std::to_string(n) + ": " + show(listed(c, t, "")));
        c.op();
        c.state(i * 1000 + n); c.out(i * 1000 + n);
    }
}

// fresh elements, setters and copies
template <class Mesh, class Idx, class Real> void elements(mc::Case& c) {
    const Idx INV = std::numeric_limits<Idx>::max();
    const unsigned D = Mesh::meshDimension();
    // elements constructed in memory holding a pattern
    int pattern = c.choose(3);
    static const std::vector<long long> idx = {0, 1, 2, 77, 30000};
    Idx i = (Idx)c.pick(idx), j = (Idx)c.pick(idx), k = (Idx)c.pick(idx);
    c.go();
    auto fresh = [&](auto tag) {
        using E = typename decltype(tag)::type;
        struct Hold { alignas(E) unsigned char mem[sizeof(E)]; E* e; Hold(int p) { memset(mem, p == 0 ? 0 : p == 1 ? 255 : 0x5a, sizeof mem); e = new (mem) E(); } ~Hold() { e->~E(); } };
        return std::make_shared<Hold>(pattern);
    };
    {
        auto h = fresh(mc_tag<typename Mesh::Edge>());
        auto& e = *h->e;
        c.check(e.getIndex() == INV && e.getVertexAIndex() == INV && e.getVertexBIndex() == INV, "fresh", "a fresh edge has indices");
        e.setIndex(i); e.setVertexAIndex(j); e.setVertexBIndex(k);
        typename Mesh::Edge f(e), g(i, j, k), l; l = f;
        for (auto* p : {&e, &f, &g, &l}) c.check(p->getIndex() == i && p->getVertexAIndex() == j && p->getVertexBIndex() == k, "edge", "an edge does not hold what was set");
        f.setVertexAIndex(k); f.setVertexBIndex(i); f.setIndex(j);
        c.check(e.getIndex() == i && e.getVertexAIndex() == j && e.getVertexBIndex() == k, "edge", "changing a copy changed the edge");
        c.check(f.getIndex() == j && f.getVertexAIndex() == k && f.getVertexBIndex() == i, "edge", "an edge does not hold what was set again");
        c.op("edge");
    }
    {
        auto h = fresh(mc_tag<typename Mesh::Face>());
        auto& e = *h->e;
        c.check(e.getIndex() == INV && e.getCellLeftIndex() == INV && e.getCellRightIndex() == INV && e.getNextBElemWRTCL() == INV && e.getNextBElemWRTCR() == INV, "fresh", "a fresh face has indices");
        c.check(e.getFlag() == 0, "fresh", "a fresh face has a flag");
        for (unsigned d = 0; d < D; d++) c.check(e.getCenter()[d] == Real(0), "fresh", "a fresh face has a center");
        e.setIndex(i); e.setCellLeftIndex(j); e.setCellRightIndex(k); e.setNextBElem(k, j); e.getFlag() = 5;
        Vertex<Mesh::meshDimension(), Real> ctr{}; for (unsigned d = 0; d < D; d++) ctr[d] = Real(d + 1);
        e.setCenter(ctr);
        const auto& q = e;
        c.check(q.getIndex() == i && q.getCellLeftIndex() == j && q.getCellRightIndex() == k && q.getFlag() == 5 && q.getCenter() == ctr, "face", "a face does not hold what was set");
        c.op("face");
    }
    {
        auto h = fresh(mc_tag<typename Mesh::Cell>());
        auto& e = *h->e;
        c.check(e.getIndex() == INV && e.getBoundaryElementIndex() == INV, "fresh", "a fresh cell has indices");
        c.check(e.getFlag() == 0, "fresh", "a fresh cell has a flag");
        for (unsigned d = 0; d < D; d++) c.check(e.getCenter()[d] == Real(0), "fresh", "a fresh cell has a center");
        e.setIndex(i); e.setBoundaryElementIndex(j); e.getFlag() = -3;
        Vertex<Mesh::meshDimension(), Real> ctr{}; for (unsigned d = 0; d < D; d++) ctr[d] = Real(d) - Real(0.5);
        e.setCenter(ctr);
        typename Mesh::Cell f(e);
        e.setBoundaryElementIndex(k);
        c.check(f.getIndex() == i && f.getBoundaryElementIndex() == j && f.getFlag() == -3 && f.getCenter() == ctr && e.getBoundaryElementIndex() == k, "cell", "a cell does not hold what was set");
        c.op("cell");
    }
    {
        auto h = fresh(mc_tag<typename Mesh::Vertex>());
        auto& e = *h->e;
        c.check(e.getIndex() == INV, "fresh", "a fresh vertex has an index");
        for (unsigned d = 0; d < D; d++) c.check(e[d] == Real(0), "fresh", "a fresh vertex has coordinates");
        Vertex<Mesh::meshDimension(), Real> x{}; for (unsigned d = 0; d < D; d++) x[d] = Real(d * 3 + 0.5);
        typename Mesh::Vertex v(i, x);
        c.check(v.getIndex() == i && Vertex<Mesh::meshDimension(), Real>(v) == x, "vertex", "a vertex does not hold index and coordinates");
        e.setIndex(j);
        e = {Real(1), Real(2)};
        c.check(e.getIndex() == j && e[0] == Real(1) && e[1] == Real(2), "vertex", "a vertex does not hold the assigned coordinates");
        for (unsigned d = 0; d < D; d++) { e[d] = Real(d) + Real(0.25); v[d] = e[d]; }
        for (unsigned d = 0; d < D; d++) c.check(e[d] == Real(d) + Real(0.25) && v[d] == e[d], "vertex", "a vertex does not hold its coordinates");
        c.op("vertex");
    }
    {
        // by index
        Mesh m;
        m.getVertices().resize(3); m.getEdges().resize(3); m.getFaces().resize(3); m.getCells().resize(3);
        const Mesh& q = m;
        unsigned n = (unsigned)i % 3;
        ElementIndex<0, Idx> a(n); ElementIndex<1, Idx> b(n); ElementIndex<D, Idx> d(n); ElementIndex<D, Idx> d2;
        d2 = Idx(n);
        c.check(&m.getElement(a) == &m.getVertices()[n] && &m.getElement(b) == &m.getEdges()[n] && &m.getElement(d) == &m.getCells()[n], "by-index", "getElement is not the element of the index");
        c.check(&q.getElement(a) == &q.getVertices()[n] && &q.getElement(b) == &q.getEdges()[n] && &q.getElement(d) == &q.getCells()[n], "by-index", "constant getElement is not the element of the index");
        c.check(d == d2 && !(d == ElementIndex<D, Idx>(n + 1)) && (Idx)d == (Idx)n && d.getDimension() == D, "by-index", "comparison of indices");
        c.check((void*)&m.template getElements<0>() == &m.getVertices() && (void*)&m.template getElements<1>() == &m.getEdges() && (void*)&m.template getElements<D - 1>() == &m.getFaces() && (void*)&m.template getElements<D>() == &m.getCells(), "by-dimension", "elements of a dimension");
        // copies of meshes are independent, clear empties
        Mesh w(m);
        w.getVertices()[n].setIndex(9); w.getCells().resize(1);
        c.check(m.getVertices()[n].getIndex() == INV && m.getCells().size() == 3, "copy", "changing a copy of a mesh changed the mesh");
        w = m;
        w.appendBoundaryCell(1, 2);
        c.check(w.getBoundaryCells().size() == 1 && w.getBoundaryCells()[0].getIndex() == 1 && w.getBoundaryCells()[0].getBoundaryElementIndex() == 2 && m.getBoundaryCells().empty(), "append", "appendBoundaryCell");
        w.clear();
        c.check(w.getVertices().empty() && w.getEdges().empty() && w.getFaces().empty() && w.getCells().empty() && w.getBoundaryCells().empty() && m.getVertices().size() == 3, "clear", "clear of a copy");
        c.op("mesh");
    }
    c.state(mc::mix(pattern * 100000 + (long long)i, (long long)j * 100000 + (long long)k));
}

template <unsigned R> void seqAll(mc::Case& c, int depth) {
    switch (c.choose(3)) {
    case 0: sequence<size_t, R>(c, depth); break;
    case 1: sequence<int, R>(c, depth); break;
    default: sequence<unsigned short, R>(c, depth);
    }
}
#define SEQ(R, Q, T) MC_GROUP(seq##R, "sequences reserve " #R) { seqAll<R>(c, c.run.thorough ? T : Q); }
SEQ(0, 6, 7) SEQ(1, 6, 8) SEQ(2, 6, 7) SEQ(3, 6, 7) SEQ(4, 6, 7)
MC_GROUP(long300, "long static lists") { longList<size_t, 300>(c); }
MC_GROUP(long0, "long dynamic lists") { longList<unsigned, 0>(c); }
MC_GROUP(el2, "elements 2D") { elements<UnstructuredMesh<2, size_t, double>, size_t, double>(c); }
MC_GROUP(el3, "elements 3D") { elements<UnstructuredMesh<3, size_t, double>, size_t, double>(c); }
MC_GROUP(el3r, "elements 3D reserved") { elements<UnstructuredMesh<3, unsigned, float, 5>, unsigned, float>(c); }
MC_GROUP(el4, "elements 4D") { elements<UnstructuredMesh<4, int, double, 3, 4>, int, double>(c); }
MC_MAIN
