// M12: MeshDataContainer - sizes, values, addressing and independence, against a model of plain vectors.
#include "mc.h"
#include "sizes.h"
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h>
#include <utility>
#ifndef H_PART
#define H_PART 0
#endif

struct Rec { int a = 0; std::string s; Rec() {} Rec(int x) : a(x), s("r" + std::to_string(x)) {}
             bool operator==(const Rec& o) const { return a == o.a && s == o.s; } };
template <class T> struct Val { static T of(int k) { return T(k); } };
template <> struct Val<double> { static double of(int k) { return k + 0.5; } };
template <> struct Val<std::string> { static std::string of(int k) { return "a rather long value number " + std::to_string(k); } };
template <> struct Val<Vertex<3, double>> { static Vertex<3, double> of(int k) { return {k + 0.25, -k * 1.0, 7}; } };
template <> struct Val<std::vector<int>> { static std::vector<int> of(int k) { return std::vector<int>(k % 3 + 1, k); } };

template <class C, unsigned P> using EntryT = typename C::template DataContainerType<P>::type;

// a container described by one code per entry (-1: a value initialized entry)
template <class C> struct Model { std::vector<std::vector<int>> v{std::vector<std::vector<int>>(C::size())}; bool operator==(const Model& o) const { return v == o.v; } };

template <class C, unsigned... P> void checkImpl(mc::Case& c, const C& k, const Model<C>& m, const std::string& what, std::integer_sequence<unsigned, P...>) {
    auto one = [&](auto pos) {
        constexpr unsigned p = decltype(pos)::value;
        const auto& d = k.template getDataByPos<p>();
        c.equal(d.size(), m.v[p].size(), "size", what + ": size at position " + std::to_string(p));
        for (size_t i = 0; i < d.size(); i++) {
            bool ok = m.v[p][i] < 0 ? d[i] == EntryT<C, p>() : d[i] == Val<EntryT<C, p>>::of(m.v[p][i]);
            c.check(ok, "value", what + ": entry " + std::to_string(i) + " at position " + std::to_string(p) + " does not hold the expected value");
        }
    };
    int x[] = {(one(std::integral_constant<unsigned, P>()), 0)...}; (void)x;
}
template <class C> void checkAll(mc::Case& c, const C& k, const Model<C>& m, const std::string& what) {
    checkImpl(c, k, m, what, std::make_integer_sequence<unsigned, C::size()>());
}
template <class C, class F, unsigned... P> void eachPosImpl(F&& f, std::integer_sequence<unsigned, P...>) { int x[] = {(f(std::integral_constant<unsigned, P>()), 0)...}; (void)x; }
template <class C, class F> void eachPos(F&& f) { eachPosImpl<C>(f, std::make_integer_sequence<unsigned, C::size()>()); }
template <class C> unsigned dimOf(unsigned p) { unsigned r = 99; eachPos<C>([&](auto q) { if (q == p) r = C::template dimensionAt<decltype(q)::value>(); }); return r; }

template <class Mesh, unsigned... D> void sizeMeshImpl(Mesh& m, const std::vector<int>& n, std::integer_sequence<unsigned, D...>) {
    auto one = [&](auto d) {
        auto& e = m.template getElements<decltype(d)::value>();
        e.clear();
        e.resize(n[d]);
        for (int i = 0; i < n[d]; i++) e[i].setIndex(i);
    };
    int x[] = {(one(std::integral_constant<unsigned, D>()), 0)...}; (void)x;
}
template <class Mesh> void sizeMesh(Mesh& m, const std::vector<int>& n) { sizeMeshImpl(m, n, std::make_integer_sequence<unsigned, Mesh::meshDimension() + 1>()); }

template <class C> Model<C> filled(const std::vector<int>& n, int code) { Model<C> m; for (unsigned p = 0; p < C::size(); p++) m.v[p].assign(n[dimOf<C>(p)], code); return m; }
template <class C> void fillDistinct(C& k, Model<C>& m, int base) {
    eachPos<C>([&](auto pos) {
        constexpr unsigned p = decltype(pos)::value;
        auto& d = k.template getDataByPos<p>();
        m.v[p].resize(d.size());
        for (size_t i = 0; i < d.size(); i++) { m.v[p][i] = base++; d[i] = Val<EntryT<C, p>>::of(m.v[p][i]); }
    });
}

// construction with initial values differs between the plain and the tuple container
template <class C> struct Init;
template <class T, unsigned... D> struct Init<MeshDataContainer<T, D...>> {
    using C = MeshDataContainer<T, D...>;
    static const bool tuple = false;
    template <class M> static C make(const M& m, int code) { return C(m, Val<T>::of(code)); }
    template <class M> static void alloc(C& k, const M& m, int code) { k.allocateData(m, Val<T>::of(code)); }
    static int code(int base, unsigned) { return base; }
    template <class M> static void extra(mc::Case& c, const M& m, const std::vector<int>& n) {
        // deduced type and dimensions
        auto a = C(m, std::integer_sequence<unsigned, D...>(), T());
        checkAll(c, a, filled<C>(n, -1), "constructed with a sequence");
        auto b = C(m, Val<T>::of(4), std::integer_sequence<unsigned, D...>(), T());
        checkAll(c, b, filled<C>(n, 4), "constructed with a sequence and a value");
        MakeMeshDataContainer_t<T, std::integer_sequence<unsigned, D...>> d(m);
        static_assert(std::is_same<decltype(d), C>::value, "");
        // by another container of more dimensions and another type
        MeshDataContainer<char, 3, 0, 1, 2> o(m, 'x');
        C e; e.allocateData(o);
        checkAll(c, e, filled<C>(n, -1), "allocated by a container");
        C f; f.allocateData(o, Val<T>::of(9));
        checkAll(c, f, filled<C>(n, 9), "allocated by a container with a value");
        c.op("deduce, allocate by another container");
    }
};
template <class... T, unsigned... D> struct Init<MeshDataContainer<std::tuple<T...>, D...>> {
    using C = MeshDataContainer<std::tuple<T...>, D...>;
    static const bool tuple = true;
    template <class M, size_t... I> static C makeI(const M& m, int code, std::index_sequence<I...>) { return C(m, Val<T>::of(code + (int)I)...); }
    template <class M> static C make(const M& m, int code) { return makeI(m, code, std::index_sequence_for<T...>()); }
    template <class M, size_t... I> static void allocI(C& k, const M& m, int code, std::index_sequence<I...>) { k.allocateData(m, Val<T>::of(code + (int)I)...); }
    template <class M> static void alloc(C& k, const M& m, int code) { allocI(k, m, code, std::index_sequence_for<T...>()); }
    static int code(int base, unsigned p) { return base + p; }
    template <class M> static void extra(mc::Case& c, const M& m, const std::vector<int>& n) {
        C o(m);
        C e; e.allocateData(o);
        checkAll(c, e, filled<C>(n, -1), "allocated by a container");
        C f; alloc(f, o, 20);
        Model<C> w = filled<C>(n, 0);
        for (unsigned p = 0; p < C::size(); p++) for (int& x : w.v[p]) x = 20 + p;
        checkAll(c, f, w, "allocated by a container with values");
        c.op("allocate by another container");
    }
};

template <class C, class Mesh> void addressing(mc::Case& c, const Mesh& mesh, C& k, Model<C>& m) {
    const C& q = k;
    int next = 1000;
    eachPos<C>([&](auto pos) {
        constexpr unsigned p = decltype(pos)::value;
        constexpr unsigned d = C::template dimensionAt<p>();
        constexpr unsigned first = C::template dimensionIndex<d>();
        using T = EntryT<C, p>;
        using TF = EntryT<C, first>;
        static_assert(C::template dimensionAt<first>() == d && first <= p, "");
        c.check(&k.template getDataByDim<d>() == (void*)&k.template getDataByPos<first>(), "byDim", "getDataByDim is not the first container of the dimension");
        c.check(&q.template getDataByDim<d>() == (const void*)&q.template getDataByPos<first>(), "byDim", "constant getDataByDim is not the first container of the dimension");
        c.check((void*)&k[std::integer_sequence<unsigned, p>()] == (void*)&k.template getDataByPos<p>(), "bySequence", "operator[] of a sequence is not the container at the position");
        c.check((const void*)&q[std::integer_sequence<unsigned, p>()] == (const void*)&q.template getDataByPos<p>(), "bySequence", "constant operator[] of a sequence is not the container at the position");
        c.equal(k.template getDataByPos<p>().getMappedDimension(), d, "mapped", "mapped dimension");
        const auto& els = mesh.template getElements<d>();
        for (size_t i = 0; i < els.size(); i++) {
            const auto& e = els[i];
            ElementIndex<d, typename std::decay<decltype(e.getIndex())>::type> ei(e.getIndex());
            for (int way = 0; way < 3; way++) {
                TF* t = way == 0 ? &k[e] : way == 1 ? &k.at(e) : &k[ei];
                const TF* s = way == 0 ? &q[e] : way == 1 ? &q.at(e) : &q[ei];
                c.check(t == s, "const", "constant and non-constant access disagree");
                m.v[first][i] = next++;
                *t = Val<TF>::of(m.v[first][i]);
                checkAll(c, q, m, "after writing by access " + std::to_string(way) + " of element " + std::to_string(i) + " of dimension " + std::to_string(d));
                c.op();
            }
            // and by position
            m.v[p][i] = next++;
            k.template getDataByPos<p>()[i] = Val<T>::of(m.v[p][i]);
            checkAll(c, q, m, "after writing by position");
        }
        for (size_t bad : {els.size(), els.size() + 3}) {
            auto e = typename std::decay<decltype(els)>::type(1)[0];
            e.setIndex(bad);
            bool t1 = false, t2 = false;
            try { k.at(e); } catch (std::out_of_range&) { t1 = true; }
            try { q.at(e); } catch (std::out_of_range&) { t2 = true; }
            c.check(t1 && t2, "at", "at() of an element without data does not throw out_of_range");
        }
        checkAll(c, q, m, "after failed at()");
    });
}

template <class C, class Mesh> void whole(mc::Case& c, const std::vector<int>& n) {
    Mesh mesh;
    sizeMesh(mesh, n);
    using I = Init<C>;
    auto valued = [&](int base) { Model<C> w = filled<C>(n, 0); for (unsigned p = 0; p < C::size(); p++) for (int& x : w.v[p]) x = I::code(base, p); return w; };
    {
        C a(mesh);
        checkAll(c, a, filled<C>(n, -1), "constructed by the mesh");
        C b = I::make(mesh, 11);
        checkAll(c, b, valued(11), "constructed by the mesh and values");
        C d; checkAll(c, d, Model<C>(), "default constructed");
        d.allocateData(mesh);
        checkAll(c, d, filled<C>(n, -1), "allocated");
        C e; I::alloc(e, mesh, 30);
        checkAll(c, e, valued(30), "allocated with values");
        c.op("construct");
    }
    I::template extra<Mesh>(c, mesh, n);
    C k(mesh);
    Model<C> m;
    fillDistinct(k, m, 100);
    checkAll(c, k, m, "filled");
    addressing(c, mesh, k, m);
    // traits
    Traits<C> tr;
    c.equal(Traits<C>::size(), C::size(), "traits", "number of attributes");
    eachPos<C>([&](auto pos) {
        constexpr unsigned p = decltype(pos)::value;
        c.equal(std::string(tr.template getName<p>()), "dim " + std::to_string(C::template dimensionAt<p>()), "traits", "name of the attribute");
        c.check((void*)&tr.template getAttr<p>(k) == (void*)&k.template getDataByPos<p>() && (const void*)&tr.template getValue<p>(k) == (const void*)&k.template getDataByPos<p>(), "traits", "attribute is not the data of the position");
    });
    {
        C o(mesh); Model<C> om; fillDistinct(o, om, 5000);
        eachPos<C>([&](auto pos) {
            constexpr unsigned p = decltype(pos)::value;
            tr.template setValue<p>(k, o.template getDataByPos<p>());
            m.v[p] = om.v[p];
            checkAll(c, k, m, "after setting an attribute");
        });
    }
    c.state(mc::hashStr(std::to_string(n[0]) + "," + std::to_string(n[1]) + "," + std::to_string(n[2]) + "," + std::to_string(n.back())));
    c.out(mc::mix(n[0] * 1000 + n[1] * 100, n[2] * 10 + n.back()));
}

// every history of operations on three containers and a mesh
template <class C, class Mesh> void history(mc::Case& c, int depth) {
    Mesh mesh;
    std::vector<std::vector<int>> sizes = {{2, 1, 3, 1, 1}, {0, 2, 1, 2, 2}, {1, 0, 0, 4, 3}};
    std::vector<int> n = sizes[0];
    sizeMesh(mesh, n);
    C k[2];
    Model<C> m[2];
    int base = 1;
    for (int step = 0; step < depth; step++) {
        int o = c.choose(15);
        if (step == 1) c.go();
        if (depth == 1) c.go();
        int a = 0, b = 1;
        if (o < 12) { a = o % 2; b = 1 - a; o /= 2; } else o -= 6;
        switch (o) {
        case 0: k[a] = C(); m[a] = Model<C>(); k[a].allocateData(mesh); m[a] = filled<C>(n, -1); c.op("fresh" + std::to_string(a)); break;
        case 1: {                                          // over the previous contents: the sizes are those of the mesh
            k[a].allocateData(mesh);
            for (unsigned p = 0; p < C::size(); p++) c.check(true, "", "");
            eachPos<C>([&](auto pos) { constexpr unsigned p = decltype(pos)::value; c.equal(k[a].template getDataByPos<p>().size(), (size_t)n[C::template dimensionAt<p>()], "size", "size after allocation over previous contents"); });
            fillDistinct(k[a], m[a], base); base += 50;
            c.op("allocate" + std::to_string(a)); break; }
        case 2: k[a] = static_cast<const C&>(k[b]); m[a] = m[b]; c.op("copy" + std::to_string(a)); break;
        case 3: k[a] = std::move(k[b]); m[a] = m[b]; k[b] = C(); m[b] = Model<C>(); c.op("move" + std::to_string(a)); break;
        case 4: { C t(k[b]); C u(std::move(t)); fillDistinct(k[b], m[b], base); base += 50; Model<C> mu; (void)mu; k[b] = u; // through a constructed copy
                  // u was taken before the refill
                  c.op("through a copy" + std::to_string(a));
                  Model<C> old; eachPos<C>([&](auto pos) { constexpr unsigned p = decltype(pos)::value; old.v[p].resize(u.template getDataByPos<p>().size()); });
                  // refill the source again: u must not change
                  fillDistinct(k[b], m[b], base); base += 50; Model<C> keep = m[b]; C v(k[b]); fillDistinct(k[b], m[b], base); base += 50;
                  checkAll(c, v, keep, "copy after the source changed"); k[a] = v; m[a] = keep; break; }
        case 5: fillDistinct(k[a], m[a], base); base += 50; c.op("fill" + std::to_string(a)); break;
        default: n = sizes[o - 6]; sizeMesh(mesh, n); c.op("mesh" + std::to_string(o - 6)); break;
        }
        uint64_t h = 0;
        for (int i = 0; i < 2; i++) {
            checkAll(c, k[i], m[i], "container " + std::to_string(i) + " after step " + std::to_string(step));
            for (auto& x : m[i].v) { h = mc::mix(h, x.size()); if (!x.empty()) h = mc::mix(h, x[0] < 0); }
        }
        for (int x : n) h = mc::mix(h, x);
        c.state(h);
    }
}

// containers of many elements: every way to make, copy and address them
template <class C, class Mesh> void large(mc::Case& c) {
    auto ns = sizes::upTo(c.run.thorough ? 70000 : 5000);
    int x = (int)ns[c.choose((int)ns.size())], which = c.choose(5);
    c.go();
    if (x < 4) c.skip();
    std::vector<int> n(5, which == 4 ? x : 3);
    if (which < 4) n[which] = x;
    Mesh mesh;
    sizeMesh(mesh, n);
    using I = Init<C>;
    Model<C> w = filled<C>(n, 0);
    for (unsigned p = 0; p < C::size(); p++) for (int& v : w.v[p]) v = I::code(7, p);
    C a = I::make(mesh, 7);
    checkAll(c, a, w, "constructed by a large mesh and values");
    C b(mesh);
    checkAll(c, b, filled<C>(n, -1), "constructed by a large mesh");
    Model<C> m;
    fillDistinct(b, m, 3);
    checkAll(c, b, m, "filled");
    eachPos<C>([&](auto pos) {
        constexpr unsigned p = decltype(pos)::value;
        constexpr unsigned d = C::template dimensionAt<p>();
        constexpr unsigned first = C::template dimensionIndex<d>();
        using TF = EntryT<C, first>;
        const auto& els = mesh.template getElements<d>();
        for (size_t i = 0; i < els.size(); i++) {
            const C& q = b;
            c.check(&b[els[i]] == &q[els[i]] && &q.at(els[i]) == &b.at(els[i]) && &b.at(els[i]) == &b[els[i]], "const", "ways of access to element " + std::to_string(i) + " disagree");
            m.v[first][i] = 200000 + (int)i;
            b[els[i]] = Val<TF>::of(m.v[first][i]);
        }
        auto e = typename std::decay<decltype(els)>::type(1)[0];
        e.setIndex((int)els.size());
        bool t = false;
        try { b.at(e); } catch (std::out_of_range&) { t = true; }
        c.check(t, "at", "at() of an element without data does not throw out_of_range");
        c.op();
    });
    checkAll(c, b, m, "written by elements");
    C copy(b), assigned; assigned = b;
    checkAll(c, copy, m, "copied"); checkAll(c, assigned, m, "assigned");
    C moved(std::move(copy));
    checkAll(c, moved, m, "moved"); checkAll(c, b, m, "the source of copies");
    I::alloc(a, mesh, 9);
    eachPos<C>([&](auto pos) { constexpr unsigned p = decltype(pos)::value; c.equal(a.template getDataByPos<p>().size(), (size_t)n[C::template dimensionAt<p>()], "size", "size after a new allocation"); });
    c.state(mc::mix(x, which)); c.out(x);
}

using V3d = Vertex<3, double>;
using M2 = UnstructuredMesh<2, size_t, double>;
using M3 = UnstructuredMesh<3, size_t, double>;
using M3r = UnstructuredMesh<3, unsigned, float, 4>;
using M4 = UnstructuredMesh<4, int, double, 4, 5>;
using MI = UnstructuredMesh<3, int, double>;

static std::vector<int> sizesOf(mc::Case& c) {
    int top = c.run.thorough ? 4 : 3;
    std::vector<int> n;
    for (int i = 0; i < 4; i++) n.push_back(c.choose(top));
    c.go();
    n.push_back(3 - n[3]);
    return n;
}
#define WHOLE(name, MESH, ...) MC_GROUP(w_##name, "whole " #name) { auto n = sizesOf(c); whole<MeshDataContainer<__VA_ARGS__>, MESH>(c, n); } \
    MC_GROUP(h_##name, "history " #name) { history<MeshDataContainer<__VA_ARGS__>, MESH>(c, c.run.thorough ? 5 : 4); } \
    MC_GROUP(l_##name, "large " #name) { large<MeshDataContainer<__VA_ARGS__>, MESH>(c); }
#if H_PART == 0
WHOLE(int3, M3, int, 3)
WHOLE(int0, M3, int, 0)
WHOLE(double32, M3, double, 3, 2)
WHOLE(string0123, M3, std::string, 0, 1, 2, 3)
WHOLE(rec3210, M3r, Rec, 3, 2, 1, 0)
WHOLE(int22, M3, int, 2, 2)
WHOLE(vert131, MI, V3d, 1, 3, 1)
#elif H_PART == 1
WHOLE(t_int3, M3, std::tuple<int>, 3)
WHOLE(t_intdouble32, M3, std::tuple<int, double>, 3, 2)
WHOLE(t_mix, M3r, std::tuple<std::string, int, Rec>, 0, 3, 1)
WHOLE(t_same, M3, std::tuple<int, double>, 2, 2)
WHOLE(t_rep, MI, std::tuple<int, std::string, int, double>, 1, 3, 1, 3)
WHOLE(t_all, M4, std::tuple<int, std::vector<int>, Vertex<3, double>, double>, 3, 1, 2, 0)
#endif
MC_MAIN
