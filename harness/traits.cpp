// T01 traits access (-DH_PART=0: access, 1 and 2: macros, 3: rest), T02 selection of bound traits (-DH_CLS=0..2).   -DH_PROP=1|2
#include "mc.h"
#include <GTMesh/Traits/Traits.h>
#include <GTMesh/Traits/TraitsBind/TraitsBind.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#include <map>
#include <utility>

#if H_PROP == 1 && H_PART == 0
// ------------------------------------------------------------------------------------------- access
struct All {
    long p = 0, s[13] = {};
    long getB() const { return s[1] - 1; }
    void setB(const long& v) { s[1] = v + 1; }
    long getC() { return s[2] * 2; }
    void setC(long v) { s[2] = v / 2; }
    const long& getD() const { return s[3]; }
    long& D() { return s[3]; }
    All& setH(long v) { s[10] = v; return *this; }
    long getH() const { return s[10]; }
    long& I() { return s[11]; }
    bool operator==(const All& o) const { return p == o.p && !memcmp(s, o.s, sizeof s); }
};
static long gE(const All& a) { return a.s[4] + 7; }
static void sE(All& a, const long& v) { a.s[4] = v - 7; }
static long gF(All& a) { return -a.s[5]; }
static void sF(All& a, long v) { a.s[5] = -v; }
static const long& gG(const All& a) { return a.s[6]; }
static long& rG(All& a) { return a.s[6]; }
static auto makeAll() {
    return makeTraits<All>("p", &All::p, "b", std::make_pair(&All::getB, &All::setB), "c", std::make_pair(&All::getC, &All::setC),
                           "d", std::make_pair(&All::getD, &All::D), "e", std::make_pair(&gE, &sE), "f", std::make_pair(&gF, &sF), "g", std::make_pair(&gG, &rG),
                           "l", std::make_pair([](const All& a) { return a.s[7]; }, [](All& a, const long& v) { a.s[7] = v; }),
                           "m", std::make_pair(std::bind([](const All& a, long k) { return a.s[8] - k; }, std::placeholders::_1, 3L), std::bind([](All& a, const long& v, long k) { a.s[8] = v + k; }, std::placeholders::_1, std::placeholders::_2, 3L)),
                           "fn", std::make_pair(std::function<long(const All&)>([](const All& a) { return a.s[9]; }), std::function<void(All&, const long&)>([](All& a, const long& v) { a.s[9] = v; })),
                           "h", std::make_pair(&All::getH, &All::setH), "i", std::make_pair(&All::I, &All::I));
}
using AllT = decltype(makeAll());
constexpr unsigned NA = 12;
static const char* const allNames[NA] = {"p", "b", "c", "d", "e", "f", "g", "l", "m", "fn", "h", "i"};
// what a class holds after attribute i was set to v, directly
static void modelSet(All& a, int i, long v) {
    switch (i) { case 0: a.p = v; break; case 1: a.s[1] = v + 1; break; case 2: a.s[2] = v / 2; break; case 3: a.s[3] = v; break; case 4: a.s[4] = v - 7; break; case 5: a.s[5] = -v; break;
    case 6: a.s[6] = v; break; case 7: a.s[7] = v; break; case 8: a.s[8] = v + 3; break; case 9: a.s[9] = v; break; case 10: a.s[10] = v; break; case 11: a.s[11] = v; break; }
}
static long modelGet(const All& a, int i) {
    switch (i) { case 0: return a.p; case 1: return a.s[1] - 1; case 2: return a.s[2] * 2; case 3: return a.s[3]; case 4: return a.s[4] + 7; case 5: return -a.s[5];
    case 6: return a.s[6]; case 7: return a.s[7]; case 8: return a.s[8] - 3; case 9: return a.s[9]; case 10: return a.s[10]; default: return a.s[11]; }
}
template <class M, bool = IsDirectAccess<M>::value> struct Direct { template <class T, unsigned I> static bool set(const T& t, All& a, long v, int how) {
    if (how == 0) t.template getAttr<I>(a) = v; else if (how == 1) t.template getAttr<I>(&a) = v; else t.template getReference<I>().getAttr(a) = v; return true; } };
template <class M> struct Direct<M, false> { template <class T, unsigned I> static bool set(const T&, All&, long, int) { return false; } };
template <class M, bool = HasConstGetAccess<M>::value> struct CGet { template <class T, unsigned I> static void get(const T& t, const All& a, std::vector<long>& o) {
    o.push_back(t.template getValue<I>(a)); o.push_back(t.template getValue<I>(&a)); o.push_back(t.template getReference<I>().getValue(a)); } };
template <class M> struct CGet<M, false> { template <class T, unsigned I> static void get(const T&, const All&, std::vector<long>&) {} };
// bind expressions do not carry their argument types: a pointer to the object is handed to the bound function as it is
template <unsigned I> struct PtrSet { template <class T> static bool set(const T& t, All& a, long v) { t.template setValue<I>(&a, v); return true; } };
template <> struct PtrSet<8> { template <class T> static bool set(const T&, All&, long) { return false; } };
template <class T, unsigned I> static bool setOne(const T& t, All& a, long v, int via) {
    using M = typename T::template memRefType<I>;
    switch (via) {
    case 0: t.template setValue<I>(a, v); return true;
    case 1: return PtrSet<I>::set(t, a, v);
    case 2: t.template getReference<I>().setValue(a, v); return true;
    default: return Direct<M>::template set<T, I>(t, a, v, via - 3);
    }
}
template <class T, unsigned I> static std::vector<long> getOne(const T& t, All& a) {
    std::vector<long> o{t.template getValue<I>(a), t.template getValue<I>(&a), t.template getReference<I>().getValue(a)};
    CGet<typename T::template memRefType<I>>::template get<T, I>(t, a, o);
    return o;
}
template <class T, unsigned... I> static bool setAny(const T& t, All& a, int i, long v, int via, std::integer_sequence<unsigned, I...>) {
    using F = bool (*)(const T&, All&, long, int);
    static const F f[] = {&setOne<T, I>...};
    return f[i](t, a, v, via);
}
template <class T, unsigned... I> static std::vector<long> getAny(const T& t, All& a, int i, std::integer_sequence<unsigned, I...>) {
    using F = std::vector<long> (*)(const T&, All&);
    static const F f[] = {&getOne<T, I>...};
    return f[i](t, a);
}
template <class T, unsigned... I> static const char* nameAny(const T& t, int i, std::integer_sequence<unsigned, I...>) { const char* n[] = {t.template getName<I>()...}; return n[i]; }
struct SetByRef { All& a; long v; int at; template <class M> void operator()(unsigned i, const M& m, const std::string&) const { if ((int)i == at) m.setValue(a, v); } };

MC_GROUP(g_access, "access") {
    using Seq = std::make_integer_sequence<unsigned, NA>;
    int depth = c.run.thorough ? 3 : 2;
    std::vector<std::array<int, 3>> ops;
    for (int d = 0; d < depth; d++) { std::array<int, 3> o; o[0] = c.choose(NA); o[1] = c.choose(7); o[2] = c.choose(d == 0 ? 3 : 2); ops.push_back(o); }
    c.go();
    static const AllT t = makeAll();
    AllT copy = t;                          // traits are values: copies work alike
    All x, m, other; other.p = 77;
    static const long vals[] = {4, -6, 0};
    for (auto& o : ops) {
        const AllT& use = o[2] == 1 ? copy : t;
        bool done = true;
        if (o[1] == 6) use.apply(SetByRef{x, vals[o[2]], o[0]});
        else done = setAny(use, x, o[0], vals[o[2]], o[1], Seq());
        if (!done) c.skip();
        modelSet(m, o[0], vals[o[2]]);
        c.op("set " + std::string(allNames[o[0]]) + " = " + std::to_string(vals[o[2]]) + " via " + std::to_string(o[1]));
        c.state(mc::hashStr(std::string((const char*)&x, sizeof x)));
        c.check(x == m, "set", std::string("setting attribute ") + allNames[o[0]] + " does not leave the object in the expected state");
        for (int i = 0; i < (int)NA; i++) for (long g : getAny(use, x, i, Seq())) c.equal(g, modelGet(m, i), "get", std::string("value of ") + allNames[i]);
        c.check(x == m, "get-changes", "reading attributes changed the object");
    }
    c.equal(other.p, 77L, "other", "an other object");
    c.out(mc::hashStr(std::string((const char*)&x, sizeof x)));
}
// apply visits the attributes in order, once, with their names, through all the forms of functors
static std::vector<std::string>* seen3; static All* applyTo;
template <class C, class V> struct Visitor { void operator()(unsigned i, const typename std::conditional<true, C, V>::type&, const std::string&) const {} };
template <class Class, class Value> struct Tmpl {
    template <class M> void operator()(unsigned i, M& m, const std::string& n) const { seen3->push_back(std::to_string(i) + n + ":" + std::to_string(m.getValue(*applyTo)) + (std::is_same<Value, long>::value && std::is_same<Class, All>::value ? "" : "?")); }
};
MC_GROUP(g_apply, "apply") {
    int form = c.choose(4), vals = c.choose(3);
    c.go();
    static const AllT t = makeAll();
    All x; for (int i = 0; i < (int)NA; i++) modelSet(x, i, (vals + 1) * 2 * i - 8);
    All keep = x;
    std::vector<std::string> seen, want;
    for (int i = 0; i < (int)NA; i++) want.push_back((form == 1 ? std::string() : std::to_string(i)) + allNames[i] + ":" + std::to_string(modelGet(x, i)));
    if (form == 0) t.apply([&](unsigned i, auto& m, const std::string& n) { seen.push_back(std::to_string(i) + n + ":" + std::to_string(m.getValue(x))); });
    else if (form == 1) t.apply([&](auto& m, const std::string& n) { seen.push_back(n + ":" + std::to_string(m.getValue(x))); });
    else if (form == 2) t.apply([&](unsigned i, const auto& m, std::string n) { seen.push_back(std::to_string(i) + n + ":" + std::to_string(m.getValue(&x))); });
    else { seen3 = &seen; applyTo = &x; t.apply<Tmpl>(); }
    c.op(); c.state(form * 3 + vals); c.out(form);
    std::string g, w; for (auto& s : seen) g += s + " "; for (auto& s : want) w += s + " ";
    c.equal(g, w, "apply", "visited attributes");
    c.check(x == keep, "apply-changes", "apply changed the object");
    c.equal(AllT::size(), NA, "size", "number of attributes");
    for (int i = 0; i < (int)NA; i++) c.equal(std::string(nameAny(t, i, std::make_integer_sequence<unsigned, NA>())), std::string(allNames[i]), "name", "name");
}
#endif
#if H_PROP == 1 && H_PART == 3
// attributes of any type: references to the member itself, no slicing, no conversion
struct Inner { std::vector<std::string> list; std::map<int, double> map; bool operator==(const Inner& o) const { return list == o.list && map == o.map; } };
struct Rich { Inner in; std::unique_ptr<int> ptr; Vector<3, float> vec; bool flag; const char* txt; };
MAKE_NAMED_ATTRIBUTE_TRAIT(Rich, "inner part", in, "pointer \"quoted\"", ptr, "", vec, "flag", flag, "txt", txt);
MC_GROUP(g_rich, "rich") {
    int k = c.choose(5);
    c.go();
    Rich r; r.flag = k & 1; r.txt = "abc"; r.ptr.reset(new int(k)); r.vec = {1, 2, 3}; r.in.list = {"x", "y"}; r.in.map[k] = 2.5;
    auto t = DefaultTraits<Rich>::getTraits();
    c.op(); c.state(k);
    c.check(&t.getAttr<0>(r) == &r.in && &t.getAttr<1>(r) == &r.ptr && &t.getAttr<2>(&r) == &r.vec && &t.getAttr<3>(r) == &r.flag && &t.getAttr<4>(r) == &r.txt, "reference", "getAttr does not refer to the member");
    c.check(t.getValue<0>(r) == r.in && t.getValue<2>(r) == r.vec && t.getValue<3>(r) == r.flag && t.getValue<4>(r) == r.txt, "value", "getValue of a member");
    c.check(std::string(t.getName<0>()) == "inner part" && std::string(t.getName<1>()) == "pointer \"quoted\"" && std::string(t.getName<2>()).empty(), "names", "names of the attributes");
    Inner n; n.list = {std::to_string(k)};
    t.setValue<0>(r, n); t.setValue<2>(&r, Vector<3, float>{4, 5, (float)k});
    c.check(r.in == n && r.vec == Vector<3, float>({4, 5, (float)k}) && *r.ptr == k && r.flag == (k & 1), "set", "setValue of a member");
    t.getAttr<1>(r).reset(new int(9));
    c.equal(*r.ptr, 9, "set-ref", "member set through its reference");
}

#endif
#if H_PROP == 1 && (H_PART == 1 || H_PART == 2)
// ------------------------------------------------------------------------------------------- macros
#include "traitgen.h"      // classes At1..At20, Nm1..Nm20 (names n0..), Cu1..Cu20 (getters), with the default traits made by the macros
template <class C, template <class> class Def, unsigned... I>
static void macroCase(mc::Case& c, const std::string& pre, std::integer_sequence<unsigned, I...>) {
    constexpr unsigned n = sizeof...(I);
    auto t = Def<C>::getTraits();
    c.check(HasDefaultTraitsOfType<C, Def>::value, "has", "the class has no default traits");
    c.equal((unsigned)Def<C>::size(), n, "macro-size", "size");
    c.equal((unsigned)Def<C>::traitsType::size(), n, "macro-size", "size of the type");
    std::vector<std::string> names{std::string(t.template getName<I>())...};
    for (unsigned i = 0; i < n; i++) c.equal(names[i], pre + std::to_string(i), "macro-name", "name of attribute " + std::to_string(i) + " of " + std::to_string(n));
    using F = void (*)(const decltype(t)&, C&, double);
    static const F set[] = {[](const decltype(t)& t, C& x, double v) { t.template setValue<I>(x, v); }...};
    for (unsigned i = 0; i < n; i++) {
        C x; set[i](t, x, 3.5);
        std::vector<double> vals{(double)t.template getValue<I>(x)...};
        const double* raw = (const double*)&x;
        for (unsigned j = 0; j < n; j++) { c.equal(vals[j], i == j ? 3.5 : 0.0, "macro-value", "attribute " + std::to_string(j) + " after setting " + std::to_string(i)); c.equal(raw[j], i == j ? 3.5 : 0.0, "macro-member", "member " + std::to_string(j) + " after setting " + std::to_string(i)); }
        c.op();
    }
    unsigned k = 0; bool ok = true;
    t.apply([&](unsigned i, auto&, const std::string& s) { ok = ok && i == k && s == names[i]; k++; });
    c.check(ok && k == n, "macro-apply", "apply does not visit the attributes in order");
    c.state(mc::hashStr(pre) + n);
    c.out(n);
}
MC_GROUP(g_macro, "macros") {
    int n = 1 + c.choose(20), kind = (H_PART == 1 ? 0 : 3) + c.choose(H_PART == 1 ? 3 : 4);
    c.go();
    c.note(std::to_string(n) + " attributes, kind " + std::to_string(kind));
#if H_PART == 1
#define ONE(N) case N: switch (kind) { \
    case 0: macroCase<At##N, DefaultTraits>(c, "m", std::make_integer_sequence<unsigned, N>()); break; \
    case 1: macroCase<At##N, DefaultIOTraits>(c, "m", std::make_integer_sequence<unsigned, N>()); break; \
    default: macroCase<At##N, DefaultArithmeticTraits>(c, "m", std::make_integer_sequence<unsigned, N>()); } break;
#else
#define ONE(N) case N: switch (kind) { \
    case 3: macroCase<Nm##N, DefaultIOTraits>(c, "name ", std::make_integer_sequence<unsigned, N>()); break; \
    case 4: macroCase<Cu##N, DefaultArithmeticTraits>(c, "c-", std::make_integer_sequence<unsigned, N>()); break; \
    case 5: macroCase<Te##N<double, 3>, DefaultTraits>(c, "m", std::make_integer_sequence<unsigned, N>()); break; \
    default: macroCase<Tn##N<double, 3>, DefaultIOTraits>(c, "name ", std::make_integer_sequence<unsigned, N>()); } break;
#endif
    switch (n) { ONE(1) ONE(2) ONE(3) ONE(4) ONE(5) ONE(6) ONE(7) ONE(8) ONE(9) ONE(10) ONE(11) ONE(12) ONE(13) ONE(14) ONE(15) ONE(16) ONE(17) ONE(18) ONE(19) ONE(20) }
}
#endif
#if H_PROP == 1 && H_PART == 3
// the default traits of a purpose override the general ones; every combination of specializations
#define COMBO(K) struct Co##K { int a, b; };
COMBO(0) COMBO(1) COMBO(2) COMBO(3) COMBO(4) COMBO(5) COMBO(6) COMBO(7)
MAKE_NAMED_ATTRIBUTE_TRAIT(Co1, "general", a); MAKE_NAMED_ATTRIBUTE_TRAIT(Co3, "general", a); MAKE_NAMED_ATTRIBUTE_TRAIT(Co5, "general", a); MAKE_NAMED_ATTRIBUTE_TRAIT(Co7, "general", a);
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Co2, "io", b); MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Co3, "io", b); MAKE_CUSTOM_TRAIT_IO(Co6, "io", &Co6::b); MAKE_CUSTOM_TRAIT_IO(Co7, "io", &Co7::b);
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(Co4, "arith", b, "second", a); MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(Co5, "arith", b, "second", a); MAKE_CUSTOM_TRAIT_ARITHMETIC(Co6, "arith", &Co6::b, "second", &Co6::a); MAKE_CUSTOM_TRAIT_ARITHMETIC(Co7, "arith", &Co7::b, "second", &Co7::a);
template <class C, template <class> class Def, bool has> struct FirstName { static std::string get() { return std::string(Def<C>::getTraits().template getName<0>()) + std::to_string(Def<C>::size()); } };
template <class C, template <class> class Def> struct FirstName<C, Def, false> { static std::string get() { return "none"; } };
template <class C> static void combo(mc::Case& c, int k) {
    std::string g = FirstName<C, DefaultTraits, HasDefaultTraits<C>::value>::get(), i = FirstName<C, DefaultIOTraits, HasDefaultIOTraits<C>::value>::get(), a = FirstName<C, DefaultArithmeticTraits, HasDefaultArithmeticTraits<C>::value>::get();
    std::string wg = k & 1 ? "general1" : "none";
    c.op(); c.state(k); c.out(g + i + a);
    c.equal(g, wg, "general", "general traits of combination " + std::to_string(k));
    c.equal(i, k & 2 ? std::string("io1") : wg, "io", "IO traits of combination " + std::to_string(k));
    c.equal(a, k & 4 ? std::string("arith2") : wg, "arithmetic", "arithmetic traits of combination " + std::to_string(k));
}
MC_GROUP(g_combo, "default") {
    int k = c.choose(8);
    c.go();
    switch (k) { case 0: combo<Co0>(c, 0); break; case 1: combo<Co1>(c, 1); break; case 2: combo<Co2>(c, 2); break; case 3: combo<Co3>(c, 3); break; case 4: combo<Co4>(c, 4); break; case 5: combo<Co5>(c, 5); break; case 6: combo<Co6>(c, 6); break; default: combo<Co7>(c, 7); }
}
// attributes of attributes
struct Deep0 { double x, y; }; MAKE_ATTRIBUTE_TRAIT(Deep0, x, y);
struct Deep1 { Deep0 p, q; int n; }; MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Deep1, p, q, n);
struct Deep2 { int k; Deep1 r; }; MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Deep2, k, r);
MC_GROUP(g_get, "get") {
    int k = c.choose(6), ptr = c.choose(2);
    c.go();
    Deep2 d{}; auto* p = &d;
    const void* got; const void* want;
    switch (k) {
    case 0: got = ptr ? &get<0>(p) : &get<0>(d); want = &d.k; break;
    case 1: got = ptr ? &get<1>(p) : &get<1>(d); want = &d.r; break;
    case 2: got = ptr ? &get<1, 0>(p) : &get<1, 0>(d); want = &d.r.p; break;
    case 3: got = ptr ? &get<1, 1, 1>(p) : &get<1, 1, 1>(d); want = &d.r.q.y; break;
    case 4: got = ptr ? &get<1, 0, 1>(p) : &get<1, 0, 1>(d); want = &d.r.p.y; break;
    default: got = ptr ? (const void*)&get<1, 2>(p) : (const void*)&get<1, 2>(d); want = &d.r.n; break;
    }
    c.op(); c.state(k * 2 + ptr); c.out(k);
    c.check(got == want, "get", "get with several indices does not refer to the attribute of the attribute");
}
#endif

#if H_PROP == 2
// ------------------------------------------------------------------------------------------- binding
struct CX { int a, b; };           // no default traits
struct CY { int a, b; };           // general default traits
struct CZ { int a, b; };           // both IO and arithmetic default traits
MAKE_NAMED_ATTRIBUTE_TRAIT(CY, "Y default", a);
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(CZ, "Z io", a);
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(CZ, "Z arith", b);
static const auto tX = makeTraits<CX>("X bound", &CX::a);
static const auto tX2 = makeTraits<CX>("X second", &CX::b, "more", &CX::a);
static const auto tY = makeTraits<CY>("Y bound", &CY::b);
static const auto tZ = makeTraits<CZ>("Z bound", &CZ::b);
static const auto tY2 = makeTraits<CY>("Y second", &CY::b, "more", &CY::a);
template <int> struct TT; // the traits by number
template <> struct TT<0> { using type = decltype(tX); static const type& get() { return tX; } static constexpr int cls = 0; static const char* name() { return "X bound"; } };
template <> struct TT<1> { using type = decltype(tX2); static const type& get() { return tX2; } static constexpr int cls = 0; static const char* name() { return "X second"; } };
template <> struct TT<2> { using type = decltype(tY); static const type& get() { return tY; } static constexpr int cls = 1; static const char* name() { return "Y bound"; } };
template <> struct TT<3> { using type = decltype(tZ); static const type& get() { return tZ; } static constexpr int cls = 2; static const char* name() { return "Z bound"; } };
template <> struct TT<4> { using type = decltype(tY2); static const type& get() { return tY2; } static constexpr int cls = 1; static const char* name() { return "Y second"; } };
template <int> struct CC; template <> struct CC<0> { using type = CX; }; template <> struct CC<1> { using type = CY; }; template <> struct CC<2> { using type = CZ; };
template <class Sel, bool ok> struct NameOf { template <class T> static std::string get(const T& t) { return Sel::getTraitsInstance(t).template getName<0>(); }
    template <class T> static const void* addr(const T& t) { return &Sel::getTraitsInstance(t); } };
template <class Sel> struct NameOf<Sel, false> { template <class T> static std::string get(const T&) { return "none"; } };
template <int Cls, int... L> static void sel(mc::Case& c) {
    using C = typename CC<Cls>::type;
    std::vector<int> cls{TT<L>::cls...}; std::vector<std::string> names{TT<L>::name()...};
    C obj{1, 2};
    auto b = bindTraits(obj, TT<L>::get()...);
    std::string wantIO = Cls == 0 ? "none" : Cls == 1 ? "Y default" : "Z io", wantAr = Cls == 0 ? "none" : Cls == 1 ? "Y default" : "Z arith";
    for (size_t i = 0; i < cls.size(); i++) if (cls[i] == Cls) { wantIO = wantAr = names[i]; break; }
    // as the serializer and the printers name them (tuple of references), and by value
    using IO = SelectTraitsWithIODefault<C, const std::decay_t<typename TT<L>::type>&...>;
    using AR = SelectTraitsWithArithmeticDefault<C, const std::decay_t<typename TT<L>::type>&...>;
    using IOV = SelectTraitsWithIODefault<C, std::decay_t<typename TT<L>::type>...>;
    c.equal(NameOf<IO, IO::valid>::get(b.tupTraits), wantIO, "io", "traits selected for IO");
    c.equal(NameOf<AR, AR::valid>::get(b.tupTraits), wantAr, "arithmetic", "traits selected for arithmetics");
    c.equal(NameOf<IOV, IOV::valid>::get(b.tupTraits), wantIO, "io-value", "traits selected by the decayed types");
    c.equal((bool)IO::valid, wantIO != "none", "valid", "validity");
    c.check((std::is_same<typename IO::TypeTraits, void>::value) == (wantIO == "none"), "type", "type of the selected traits");
    c.check((const void*)&b.object == (const void*)&obj, "object", "the binder does not refer to the object");
    c.op(); c.state(mc::hashStr(wantIO + wantAr) + sizeof...(L)); c.out(wantIO + std::to_string(sizeof...(L)));
    c.note("class " + std::to_string(Cls));
}
template <int Cls, int A, int B> static void third(mc::Case& c, int k) {
    switch (k) { case 0: sel<Cls, A, B, 0>(c); break; case 1: sel<Cls, A, B, 1>(c); break; case 2: sel<Cls, A, B, 2>(c); break; case 3: sel<Cls, A, B, 3>(c); break; case 4: sel<Cls, A, B, 4>(c); break; default: sel<Cls, A, B>(c); }
}
template <int Cls, int A> static void second(mc::Case& c, int j, int k) {
    switch (j) { case 0: third<Cls, A, 0>(c, k); break; case 1: third<Cls, A, 1>(c, k); break; case 2: third<Cls, A, 2>(c, k); break; case 3: third<Cls, A, 3>(c, k); break; case 4: third<Cls, A, 4>(c, k); break; default: sel<Cls, A>(c); }
}
template <int Cls> static void first(mc::Case& c, int i, int j, int k) {
    switch (i) { case 0: second<Cls, 0>(c, j, k); break; case 1: second<Cls, 1>(c, j, k); break; case 2: second<Cls, 2>(c, j, k); break; case 3: second<Cls, 3>(c, j, k); break; default: second<Cls, 4>(c, j, k); }
}
MC_GROUP(g_select, "select") {
    int i = c.choose(5), j = c.choose(6), k = j == 5 ? 0 : c.choose(6);
    c.go();
    first<H_CLS>(c, i, j, k);
}
#endif
MC_MAIN
