// D03 JSON log (-DH_PROP=3), D04 HTML log (-DH_PROP=4), D05 console logger and macros (-DH_PROP=5), switched off by UNDEBUG (-DH_PROP=6 -DUNDEBUG)
#if H_PROP == 6
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>      // before any other header: what they need they include themselves
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h>
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#endif
#include "printref.h"
#include "sizes.h"
#include "jsonparse.h"
#include <GTMesh/Debug/Debug.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static std::set<std::string> files() { std::set<std::string> r; DIR* d = opendir("."); while (auto* e = readdir(d)) if (e->d_name[0] != '.') r.insert(e->d_name); closedir(d); return r; }
static void cleanDir() { for (auto& f : files()) unlink(f.c_str()); }
struct Quiet { std::stringbuf b; std::streambuf* old; Quiet() { old = std::cerr.rdbuf(&b); } ~Quiet() { std::cerr.rdbuf(old); } };
static ref::Opt jsonOpt() { ref::Opt o; o.escape = true; return o; }
struct Entry { bool located; int line; std::string file, expr; std::string data; int call; };
// what was printed to the standard output
struct Stdout {
    int saved, fd;
    Stdout() { fflush(stdout); saved = dup(1); fd = memfd_create("out", 0); dup2(fd, 1); }
    ~Stdout() { if (saved >= 0) end(); }
    std::string end() { fflush(stdout); dup2(saved, 1); close(saved); saved = -1; std::string r; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n); close(fd); return r; }
};
// runs body in a process of its own that ends with exit: -> exit code, the text of its error output and what it counted
struct Child { int code = -1; std::string err, out; int count[8] = {}; };
static int* shared() { static int* p = (int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return p; }
template <class F> static Child inChild(const F& body) {
    Child r; memset(shared(), 0, 4096);
    int e = memfd_create("err", 0), o = memfd_create("out", 0); fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) { dup2(e, 2); dup2(o, 1); body(); exit(42); }
    int st; waitpid(p, &st, 0); r.code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    auto rd = [](int fd, std::string& s) { char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); };
    rd(e, r.err); rd(o, r.out); memcpy(r.count, shared(), sizeof r.count);
    return r;
}
static int counted(int k, int v) { shared()[k]++; return v; }

#if H_PROP == 3 || H_PROP == 4
#if H_PROP == 3
using Logger = JSONLogger;
static const char* const NAMES[] = {"a.json", "b.json"};
#else
using Logger = HtmlLogger;
static const char* const NAMES[] = {"a.html", "b.html"};
#endif
static void verifyFile(mc::Case& c, const std::string& file, const std::vector<Entry>& want) {
    std::string t = slurp(file); Json j;
    std::vector<Entry> w = want;
    int lastCall = -1, lastInd = -1;
    try {
#if H_PROP == 3
        j = JsonParser::parse(t).at("logs");
        c.check(j.kind == Json::ARR, "shape", "logs is not a list");
#else
        size_t b = t.find("\ndata = ["); c.check(b != t.npos, "no data", "the page does not define its data"); b += 8;
        size_t e = t.find("];\ncopyData();\nshowData();\n</script>\n</body>\n</html>", b); c.check(e != t.npos, "unfinished", "the page does not end: ..." + t.substr(t.size() > 100 ? t.size() - 100 : 0));
        j = JsonParser::parse(t.substr(b, e + 1 - b), true);
        for (size_t i = b; i < e; i++) if (t[i] == '<') for (const char* w : {"<!--", "<script", "</script"}) { size_t n = strlen(w), k = 0; while (k < n && i + k < e && tolower((unsigned char)t[i + k]) == w[k]) k++; c.check(k < n, "script end", std::string("the data contain ") + w + ", which ends or changes the script of the page"); }
        c.check(t.find("];\ncopyData()") == e && t.compare(0, 6, "<html>") == 0, "shape", "more than one page");
#endif
        c.equal(j.a.size(), want.size(), "entries", file + ": number of entries");
        for (size_t i = 0; i < w.size(); i++) {
            const Json& e = j.a[i]; std::string at = file + " entry " + std::to_string(i) + ": ";
            Json d = JsonParser::parse(w[i].data);
#if H_PROP == 3
            c.equal(e.o.size(), size_t(w[i].located ? 5 : 2), "members", at + "members");
            c.check(e.at("expr").kind == Json::STR && e.at("expr").s == w[i].expr, "expr", at + e.at("expr").s + " instead of " + w[i].expr);
            c.check(e.at("data") == d, "data", at + "data differ from " + w[i].data);
            if (!w[i].located) continue;
            const Json &line = e.at("line"), &f = e.at("file"), &g = e.at("gInd");
#else
            c.check(e.kind == Json::ARR && e.a.size() == 5, "members", at + "members");
            const Json &g = e.a[0], &line = e.a[1], &f = e.a[2];
            c.check(e.a[3].kind == Json::STR && e.a[3].s == w[i].expr, "expr", at + e.a[3].s + " instead of " + w[i].expr);
            c.check(e.a[4] == d, "data", at + "data differ from " + w[i].data);
#endif
            c.check(line.kind == Json::NUM && line.s == std::to_string(w[i].line), "line", at + "line " + line.s);
            c.check(f.kind == Json::STR && f.s == w[i].file, "file", at + "file " + f.s + " instead of " + w[i].file);
            c.check(g.kind == Json::NUM, "group", at + "group is not a number");
            int gi = std::stoi(g.s);
            if (w[i].call == lastCall) c.equal(gi, lastInd, "group", at + "group within one call");
            else { if (lastCall >= 0) c.equal(gi, lastInd + 1, "group", at + "group of the next call"); lastCall = w[i].call; lastInd = gi; }
        }
    } catch (const std::runtime_error& e) { c.fail("parse", file + ": " + e.what()); }
}
// ---- every value
template <class T> static void values(mc::Case& c, const char* type) {
    static const std::vector<T> all[2] = {gen::Gen<T>::all(false), gen::Gen<T>::all(true)};
    auto& vs = all[c.run.thorough ? 1 : 0];
    int i = c.choose((int)vs.size());
    c.go();
    const T v = vs[i];
    std::string t = ref::text(v, jsonOpt());
    c.note(std::string(type) + ": " + t);
    cleanDir(); Quiet q; Stdout o;
    { Logger l(NAMES[0]); l.writeVar(7, "dir/f.cpp", "v", v, "w", v); l.writeVar(8, "dir/f.cpp", "x[\"v\"]", v); }
    c.equal(o.end(), std::string(), "stdout", "printed to the standard output");
    c.op(); c.state(mc::hashStr(t, mc::hashStr(type))); c.out(t);
    verifyFile(c, NAMES[0], {{true, 7, "dir/f.cpp", "v", t, 0}, {true, 7, "dir/f.cpp", "w", t, 0}, {true, 8, "dir/f.cpp", "x[\"v\"]", t, 1}});
}
struct Type { const char* name; void (*f)(mc::Case&, const char*); };
#define TYPE(...) {#__VA_ARGS__, &values<__VA_ARGS__>}
template <class T> using V = std::vector<T>;
using S = std::string;
template <class A, class B> using M = std::map<A, B>;
template <class A, class B> using P = std::pair<A, B>;
MC_GROUP(g_types, "values") {
    static const std::vector<Type> types = {
        TYPE(bool), TYPE(char), TYPE(unsigned char), TYPE(short), TYPE(int), TYPE(unsigned), TYPE(long), TYPE(unsigned long), TYPE(float), TYPE(double), TYPE(S), TYPE(const char*), TYPE(Plain), TYPE(Streamed),
        TYPE(V<int>), TYPE(V<S>), TYPE(V<bool>), TYPE(V<V<double>>), TYPE(std::set<S>), TYPE(std::array<char, 2>), TYPE(Vertex<3, double>), TYPE(ByValue), TYPE(DataContainer<int, 1>),
        TYPE(P<S, int>), TYPE(P<int, S>), TYPE(P<bool, double>), TYPE(P<P<S, int>, int>), TYPE(P<V<S>, char>), TYPE(M<S, int>), TYPE(M<int, V<S>>), TYPE(M<char, S>), TYPE(M<double, M<S, int>>), TYPE(std::tuple<>), TYPE(std::tuple<int>), TYPE(std::tuple<S, double, V<int>>), TYPE(V<std::tuple<int, S>>),
        TYPE(Leaf), TYPE(One), TYPE(Hidden), TYPE(Node), TYPE(V<Leaf>), TYPE(Box<S>), TYPE(Box<M<int, Leaf>>), TYPE(P<Leaf, int>),
    };
    int i = c.choose((int)types.size());
    types[i].f(c, types[i].name);
}
struct Opaque { unsigned char b[3]; };
MC_GROUP(g_opaque, "bytes and literals") {
    int k = c.choose(4);
    c.go();
    cleanDir(); Quiet q; Opaque o{{1, 0, 255}}; std::string bytes = std::string("\"") + typeid(Opaque).name() + "(01 00 ff)\"";
    Entry e{true, 1, "f", "e", "", 0};
    {
        Logger l(NAMES[0]);
        switch (k) {
        case 0: l.writeVar(1, "f", "e", o); e.data = bytes; break;
        case 1: l.writeVar(1, "f", "e", std::vector<Opaque>{o, o}); e.data = "[" + bytes + "," + bytes + "]"; break;
        case 2: l.writeVar(1, "f", "e", "a \"literal\"\n"); e.data = "\"a \\\"literal\\\"\\n\""; break;
        default: l.writeVar(1, "f", "e", std::make_pair(o, 1)); e.data = "{" + bytes + ": 1}";
        }
    }
    c.op(); c.state(k); c.out(k);
    verifyFile(c, NAMES[0], {e});
}
// ---- every text as an expression, a file, a value and in values
MC_GROUP(g_names, "texts") {
    static const std::vector<std::string> texts = [] {
        std::vector<std::string> r{"</script>", "a</SCRIPT >b", "<script>", "<!--", "-->", "]];", "\\u003c", "\x01\x1f\t\r\n", "&lt;", "'+x+'", "${x}", "*/"}; static const char alpha[] = {'a', '"', '\\', '\'', ' ', '/', (char)0xc3, '<', '\n'};
        std::vector<std::string> last{""}; for (int l = 0; l < 4; l++) { std::vector<std::string> n; for (auto& s : last) for (char ch : alpha) n.push_back(s + ch); r.insert(r.end(), n.begin(), n.end()); last = n; } return r; }();
    int i = c.choose(c.run.thorough ? (int)texts.size() : 12 + 9 + 81 + 729), what = c.choose(4);
    c.go();
    const std::string& t = texts[i];
    cleanDir(); Quiet q;
    std::string file = what == 1 || what == 2 ? t : "f.cpp", expr = what == 0 ? t : "e";
    std::vector<Entry> want;
    {
        Logger l(NAMES[0]);
        if (what == 0 || what == 1) { l.writeVar(12, file.c_str(), expr.c_str(), 5, "second", 6, expr.c_str(), 7); l.writeVar(13, file.c_str(), expr.c_str(), 8); }
        else if (what == 2) { l.writeVar(12, file, expr.c_str(), 5, "second", 6, expr.c_str(), 7); l.writeVar(13, file, expr.c_str(), 8); }
        else {
            std::map<std::string, S> m{{t, t}}; std::string v = ref::quote(t, jsonOpt());
            l.writeVar(12, file.c_str(), "v", t, "c", t.c_str(), "m", m); l.writeVar(13, file.c_str(), "l", std::vector<Leaf>{Leaf{1, t, true}});
            want = {{true, 12, file, "v", v, 0}, {true, 12, file, "c", v, 0}, {true, 12, file, "m", "[{" + v + ":" + v + "}]", 0}, {true, 13, file, "l", "[{\"a\":1,\"s\":" + v + ",\"b\":true}]", 1}};
        }
    }
    if (what < 3) want = {{true, 12, file, expr, "5", 0}, {true, 12, file, "second", "6", 0}, {true, 12, file, expr, "7", 0}, {true, 13, file, expr, "8", 1}};
    c.note(t); c.op(); c.state(mc::hashStr(t, what)); c.out(t);
    verifyFile(c, NAMES[0], want);
}
// ---- attributes with every kind of name
struct Odd { int a; std::string b; Leaf c; double d; };
MAKE_NAMED_ATTRIBUTE_TRAIT(Odd, "say \"hi\"", a, "back\\slash", b, "</script><!--", c, "two\nlines\t'", d);
MC_GROUP(g_attributes, "attribute names") {
    int k = c.choose(3), twice = c.choose(2);
    c.go();
    cleanDir(); Quiet q; Odd o{5, "x\"", Leaf{1, "s", false}, 1.5}; auto text = [](const char* t) { return ref::quote(t, jsonOpt()); };
    std::string t = "{" + text("say \"hi\"") + ":5," + text("back\\slash") + ":\"x\\\"\"," + text("</script><!--") + ":{\"a\":1,\"s\":\"s\",\"b\":false}," + text("two\nlines\t'") + ":1.5}";
    std::vector<Entry> want;
    {
        Logger l(NAMES[0]);
        for (int i = 0; i <= twice; i++) {
            switch (k) {
            case 0: l.writeVar(1, "f", "e", o); want.push_back({true, 1, "f", "e", t, i}); break;
            case 1: l.writeVar(1, "f", "e", std::vector<Odd>{o, o}); want.push_back({true, 1, "f", "e", "[" + t + "," + t + "]", i}); break;
            default: l.writeVar(1, "f", "e", bindTraits(o, DefaultTraits<Odd>::getTraits()), "n", 1); want.push_back({true, 1, "f", "e", t, i}); want.push_back({true, 1, "f", "n", "1", i});
            }
        }
    }
    c.op(); c.state(k * 2 + twice); c.out(k);
    verifyFile(c, NAMES[0], want);
}
// ---- the global locale of the program does not change the log
struct Punct : std::numpunct<char> {
    char point, sep; std::string group;
    Punct(char p, char s, const char* g) : point(p), sep(s), group(g) {}
    char do_decimal_point() const override { return point; }
    char do_thousands_sep() const override { return sep; }
    std::string do_grouping() const override { return group; }
    std::string do_truename() const override { return "ano"; }
    std::string do_falsename() const override { return "ne"; }
};
struct Global { std::locale old; Global(int k) { static const std::locale l[] = {std::locale::classic(), std::locale(std::locale::classic(), new Punct('.', ',', "\3")), std::locale(std::locale::classic(), new Punct(',', ' ', "")), std::locale(std::locale::classic(), new Punct(',', '.', "\1\2"))}; old = std::locale::global(l[k]); } ~Global() { std::locale::global(old); } };
MC_GROUP(g_locale, "locales of the program") {
    int before = c.choose(4), during = c.choose(4), k = c.choose(7), line = c.pick(std::vector<int>{7, 1234, 1234567}), calls = 1 + c.choose(2);
    c.go();
    cleanDir(); Quiet q; std::vector<Entry> want;
    auto add = [&](const std::string& data, int call) { want.push_back({true, line, "f", "e", data, call}); };
    {
        Global out(before);
        Logger l(NAMES[0]);
        if (during & 1) l.writeVar(line, "f", "e", 1);
        Global in(during);
        for (int i = 0; i < calls; i++)
            switch (k) {
            case 0: l.writeVar(line, "f", "e", 1234567890); break;
            case 1: l.writeVar(line, "f", "e", -12345.5); break;
            case 2: l.writeVar(line, "f", "e", 1e-7f); break;
            case 3: l.writeVar(line, "f", "e", true); break;
            case 4: l.writeVar(line, "f", "e", std::vector<double>{1.5, 1000, -0.25}); break;
            case 5: l.writeVar(line, "f", "e", std::map<int, double>{{1000, 2.5}, {-2000000, 1e6}}); break;
            default: l.writeVar(line, "f", "e", Leaf{123456, "1,5", false});
            }
    }
    const std::string data[] = {"1234567890", "-12345.5", "1e-07", "true", "[1.5,1000,-0.25]", ref::text(std::map<int, double>{{1000, 2.5}, {-2000000, 1e6}}, jsonOpt()), "{\"a\":123456,\"s\":\"1,5\",\"b\":false}"};
    int call = 0; if (during & 1) add("1", call++);
    for (int i = 0; i < calls; i++) add(data[k], call++);
    c.op(); c.state(((before * 4 + during) * 7 + k) * 2 + calls); c.out(k);
    verifyFile(c, NAMES[0], want);
}
// ---- long texts and long logs
MC_GROUP(g_long, "long texts, many records") {
    int kind = c.choose(7);
    auto ns = sizes::upTo((kind < 5 ? 66000 : 3000) * (c.run.thorough ? 10 : 1));
    size_t n = ns[c.choose((int)ns.size())];
    c.go();
    if (!n && kind > 4) c.skip();                 // nothing written: no file
    c.note("kind " + std::to_string(kind) + ", " + std::to_string(n));
    cleanDir(); Quiet q; std::vector<Entry> want;
    std::string t; for (size_t i = 0; i < n; i++) t += i % 37 == 5 ? '"' : i % 41 == 7 ? '\\' : i % 43 == 9 ? '\'' : i % 47 == 11 ? '<' : (char)('a' + i % 26);
    auto num = [](size_t i) { return std::to_string(i); };
    {
        Logger l(NAMES[0]);
        switch (kind) {
        case 0: l.writeVar(3, "f.cpp", "v", t, "w", 1); want = {{true, 3, "f.cpp", "v", ref::quote(t, jsonOpt()), 0}, {true, 3, "f.cpp", "w", "1", 0}}; break;
        case 1: l.writeVar(3, t.c_str(), "v", 5, "w", 1); l.writeVar(4, t.c_str(), "u", 2); want = {{true, 3, t, "v", "5", 0}, {true, 3, t, "w", "1", 0}, {true, 4, t, "u", "2", 1}}; break;
        case 2: l.writeVar(3, "f.cpp", t.c_str(), 5, "w", 1, t.c_str(), 6); want = {{true, 3, "f.cpp", t, "5", 0}, {true, 3, "f.cpp", "w", "1", 0}, {true, 3, "f.cpp", t, "6", 0}}; break;
        case 3: { std::vector<int> v(n / 8); std::string w = "["; for (size_t i = 0; i < v.size(); i++) { v[i] = (int)i * 7919; w += (i ? "," : "") + std::to_string(v[i]); } l.writeVar(3, "f.cpp", "v", v); want = {{true, 3, "f.cpp", "v", w + "]", 0}}; break; }
        case 4: l.writeVar((int)(n * 32500 % 2147483648u), "f.cpp", "v", t.size()); want = {{true, (int)(n * 32500 % 2147483648u), "f.cpp", "v", num(n), 0}}; break;
        case 5: for (size_t i = 0; i < n; i++) { l.writeVar((int)i, "f.cpp", "v", i); want.push_back({true, (int)i, "f.cpp", "v", num(i), (int)i}); } break;
        default: for (size_t i = 0; i < n; i++) { l.writeVar(1, i % 2 ? "f.cpp" : "dir/g.cpp", "v", i, "w", t.substr(0, i % 50)); for (int k = 0; k < 2; k++) want.push_back({true, 1, i % 2 ? "f.cpp" : "dir/g.cpp", k ? "w" : "v", k ? ref::quote(t.substr(0, i % 50), jsonOpt()) : num(i), (int)i}); }
        }
    }
    c.op(); c.state(mc::mix(n, kind)); c.out(mc::mix(n, kind));
    verifyFile(c, NAMES[0], want);
}
// ---- every history of a logger
MC_GROUP(g_history, "histories") {
    int len = 1 + c.choose(c.run.thorough ? 6 : 5), named = c.choose(2);
    std::vector<int> ops;
    constexpr int K = H_PROP == 3 ? 8 : 6;
    for (int i = 0; i < len; i++) ops.push_back(c.choose(K));
    int ctor = c.choose(2);
    c.go();
    cleanDir(); Quiet q; Stdout so;
    std::map<std::string, std::vector<Entry>> model; std::string open; int call = 0;
    auto target = [&]() -> std::vector<Entry>& { if (open.empty()) { open = NAMES[0]; model[open].clear(); } return model[open]; };
    {
        Logger l = ctor ? Logger(NAMES[0]) : Logger();
        if (!ctor) { l.create(NAMES[0]); open = NAMES[0]; model[open]; }
        std::vector<std::string> text{"q\"\\", "r"};
        for (int o : ops) {
            if (!ctor && open.empty() && o != 4 && o != 5) o = 4;            // there is no name to open again
            switch (o) {
            case 0: l.writeVar(3, "x.cpp", "v", 1.5); target().push_back({true, 3, "x.cpp", "v", "1.5", call++}); break;
            case 1: l.writeVar(4, "y.cpp", "text", text, "n", -4); target(); target().push_back({true, 4, "y.cpp", "text", "[\"q\\\"\\\\\",\"r\"]", call}); target().push_back({true, 4, "y.cpp", "n", "-4", call++}); break;
            case 2: l.writeVar(5, "x.cpp", "a", true, "b", 'c', "d", Leaf{1, "s", false}); for (auto& e : std::vector<Entry>{{true, 5, "x.cpp", "a", "true", call}, {true, 5, "x.cpp", "b", "\"c\"", call}, {true, 5, "x.cpp", "d", "{\"a\":1,\"s\":\"s\",\"b\":false}", call}}) target().push_back(e); call++; break;
            case 3: l.destroy(); open.clear(); break;
            case 4: l.create(NAMES[1]); open = NAMES[1]; model[open].clear(); break;
            case 5: l.create(NAMES[0]); open = NAMES[0]; model[open].clear(); break;
#if H_PROP == 3
            case 6: l.writeVar("plain", 9); target().push_back({false, 0, "", "plain", "9", -1}); break;
            default: l.writeVar("p1", std::string("x"), "p2", text); target().push_back({false, 0, "", "p1", "\"x\"", -1}); target().push_back({false, 0, "", "p2", "[\"q\\\"\\\\\",\"r\"]", -1}); break;
#endif
            }
            c.op();
        }
        if (named) { l.destroy(); }
    }
    c.equal(so.end(), std::string(), "stdout", "printed to the standard output");
    std::set<std::string> want; for (auto& m : model) want.insert(m.first);
    c.check(files() == want, "files", "the set of files written");
    uint64_t h = 0; for (auto& m : model) { for (auto& e : m.second) h = mc::mix(h, mc::hashStr(e.expr)); h = mc::mix(h, m.second.size()); }
    c.state(h); c.out(h);
    for (auto& m : model) verifyFile(c, m.first, m.second);
}
// ---- a log handed over to another logger goes on, and is finished once
MC_GROUP(g_moved, "moved loggers") {
    int depth = c.run.thorough ? 6 : 5; std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back(c.choose(10));
    c.go();
    struct State { std::string open, name; };
    State s[3] = {{"", NAMES[0]}, {"", NAMES[1]}, {"", ""}};
    std::map<std::string, std::vector<Entry>> model; int call = 0;
    auto other = [&](int k, const std::string& name) { for (int i = 0; i < 3; i++) if (i != k && s[i].open == name) return true; return false; };
    auto target = [&](int k) { if (s[k].open.empty()) { if (s[k].name.empty() || other(k, s[k].name)) c.skip(); s[k].open = s[k].name; model[s[k].open].clear(); } };
    int n = 0;
    auto move = [&](int to, int from) { s[to] = s[from]; s[from] = State(); };
    auto step = [&](int o) {
        switch (o) {
        case 0: case 1: target(o); model[s[o].open].push_back({true, 3 + n, "f.cpp", "e", std::to_string(n), call++}); break;
        case 2: case 3: if (other(o - 2, NAMES[o - 2])) c.skip(); s[o - 2].open = NAMES[o - 2]; model[NAMES[o - 2]].clear(); break;
        case 4: case 5: move(o - 4, 5 - o); break;
        case 6: case 7: target(o - 6); move(2, o - 6); model[s[2].open].push_back({true, 3 + n, "f.cpp", "c", "true", call++}); s[2] = State(); break;
        case 8: s[0].open.clear(); break;
        default: target(0); model[s[0].open].push_back({true, 3 + n, "f.cpp", "v", "1.5", call++}); model[s[0].open].push_back({true, 3 + n, "f.cpp", "w", "\"x\"", call - 1});
        }
        n++;
    };
    for (int o : ops) step(o);
    cleanDir(); Quiet q; Stdout so;
    {
        Logger a(NAMES[0]), b(NAMES[1]); Logger* l[2] = {&a, &b}; n = 0;
        for (int o : ops) {
            switch (o) {
            case 0: case 1: l[o]->writeVar(3 + n, "f.cpp", "e", n); break;
            case 2: case 3: l[o - 2]->create(NAMES[o - 2]); break;
            case 4: case 5: *l[o - 4] = std::move(*l[5 - o]); break;
            case 6: case 7: { Logger d(std::move(*l[o - 6])); d.writeVar(3 + n, "f.cpp", "c", true); break; }
            case 8: a.destroy(); break;
            default: { std::vector<Logger> v; v.push_back(std::move(a)); v[0].writeVar(3 + n, "f.cpp", "v", 1.5, "w", std::string("x")); a = std::move(v[0]); }
            }
            n++; c.op();
        }
    }
    c.equal(so.end(), std::string(), "stdout", "printed to the standard output");
    std::set<std::string> want; for (auto& m : model) want.insert(m.first);
    c.check(files() == want, "files", "the set of files written");
    uint64_t h = 0; for (auto& m : model) for (auto& e : m.second) h = mc::mix(h, mc::hashStr(m.first + e.expr + std::to_string(e.line)));
    c.state(h); c.out(h);
    for (auto& m : model) verifyFile(c, m.first, m.second);
}
// ---- the macros, in a process that ends normally
#if H_PROP == 3
#define LOGVAR DBGVAR_JSON
#define LOGCOND DBGVARCOND_JSON
static const char* const OUT = "DBG.json";
#else
#define LOGVAR DBGVAR_HTML
#define LOGCOND DBGVARCOND_HTML
static const char* const OUT = "DBG.html";
#endif
MC_GROUP(g_macros, "macros") {
    int n = 1 + c.choose(3); std::vector<int> ops; for (int i = 0; i < n; i++) ops.push_back(c.choose(5));
    c.go();
    cleanDir();
    std::map<std::string, int> m{{"k", 3}};
    int line[5];
    auto run = [&](int o, bool dry) {
        switch (o) {
        case 0: line[0] = __LINE__; if (!dry) { LOGVAR(counted(0, 5)); } break;
        case 1: line[1] = __LINE__; if (!dry) { LOGVAR(m, m["k"], counted(1, 6) + counted(2, 1)); } break;
        case 2: line[2] = __LINE__; if (!dry) { LOGCOND(counted(3, 1), counted(4, 7), 'x'); } break;
        case 3: line[3] = __LINE__; if (!dry) { LOGCOND(counted(3, 0), counted(5, 7), 'x'); } break;
        default: line[4] = __LINE__; if (!dry) { LOGVAR("text", 1.25); }
        }
    };
    Child ch = inChild([&] { for (int o : ops) run(o, false); });
    std::vector<Entry> want; int count[8] = {}, call = 0;
    for (int o : ops) {
        run(o, true); std::string f = __FILE__;
        switch (o) {
        case 0: count[0]++; want.push_back({true, line[0], f, "counted(0, 5)", "5", call++}); break;
        case 1: count[1]++; count[2]++; want.push_back({true, line[1], f, "m", "[{\"k\":3}]", call}); want.push_back({true, line[1], f, "m[\"k\"]", "3", call}); want.push_back({true, line[1], f, "counted(1, 6) + counted(2, 1)", "7", call++}); break;
        case 2: count[3]++; count[4]++; want.push_back({true, line[2], f, "counted(4, 7)", "7", call}); want.push_back({true, line[2], f, "'x'", "\"x\"", call++}); break;
        case 3: count[3]++; break;
        default: want.push_back({true, line[4], f, "\"text\"", "\"text\"", call}); want.push_back({true, line[4], f, "1.25", "1.25", call++});
        }
    }
    c.op(); uint64_t h = 0; for (int o : ops) h = h * 7 + o + 1; c.state(h); c.out(h);
    c.equal(ch.code, 42, "exit", "exit code (" + ch.err.substr(0, 300) + ")");
    c.equal(ch.out, std::string(), "stdout", "printed to the standard output");
    c.check(!memcmp(ch.count, count, sizeof count), "evaluated", "expressions were not evaluated exactly once, or with a false condition");
    c.equal(files().size(), size_t(want.empty() ? 0 : 1), "files", "files written");
    if (!want.empty()) verifyFile(c, OUT, want);
}
#endif

#if H_PROP == 5
// ------------------------------------------------------------------------------- console
struct Model { bool color = true, only = false, func = true, aggr = true; std::string ind = "||     "; };
static std::string strip(mc::Case& c, const std::string& t, bool color) { // removes colours; every coloured part ends with a reset before the end of the line
    std::string r; bool on = false; int parts = 0;
    for (size_t i = 0; i < t.size(); i++) {
        if (t[i] != 27) { if (t[i] == '\n') c.check(!on, "color", "colour not reset at the end of a line"); r += t[i]; continue; }
        size_t e = t.find('m', i); c.check(e != t.npos && t[i + 1] == '[', "color", "bad escape sequence");
        std::string code = t.substr(i + 2, e - i - 2); bool reset = code == "0" || code.empty();
        c.check(reset == on, "color", "colours set or reset twice"); on = !reset; parts += on; i = e;
    }
    c.check(!on, "color", "colour not reset"); c.check(color == (parts > 0), "color", color ? "no colours" : "colours although switched off");
    return r;
}
static std::string fileOf(const Model& m, const std::string& f) { size_t p = f.find_last_of('/'); return m.only && p != f.npos ? f.substr(p + 1) : f; }
static std::string header(const Model& m, const std::string& prefix, const std::string& f, int line, const std::string& fn) { return prefix + fileOf(m, f) + ":" + std::to_string(line) + (m.func ? " <" + fn + "> " : ""); }
using Vars = std::vector<std::pair<std::string, std::string>>;
static std::string varText(const Model& m, const std::string& f, int line, const std::string& fn, const Vars& v) {
    std::string h = header(m, "== ", f, line, fn), r = m.aggr ? h + "\n" : "";
    for (auto& x : v) r += (m.aggr ? m.ind : h + " ") + "[[ " + x.first + " ]] ==> " + x.second + "\n";
    return r;
}
static std::string msgText(const Model& m, const std::string& prefix, const std::string& f, int line, const std::string& fn, const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += header(m, prefix, f, line, fn) + "==> " + x + " <==\n"; return r; }

MC_GROUP(g_options, "options and output") {
    int len = 1 + c.choose(c.run.thorough ? 5 : 4); std::vector<int> ops; for (int i = 0; i < len; i++) ops.push_back(c.choose(15));
    c.go();
    ConsoleLogger l; Model m; Stdout so;
    static const char* const F[] = {"/a/b.c/d.cpp", "e.cpp"};
    uint64_t h = 0;
    for (int o : ops) {
        Quiet q; std::string want;
        switch (o) {
        case 0: l.setColoredOutput(m.color = !m.color); break;
        case 1: l.setOnlyFliename(m.only = !m.only); break;
        case 2: l.setPrintFunction(m.func = !m.func); break;
        case 3: l.setPrintAggregated(m.aggr = !m.aggr); break;
        case 4: l.setIdentation(m.ind = m.ind == "  " ? "" : "  "); break;
        case 5: l.reset(); m = Model(); break;
        case 6: l.writeVariable(10, "f", F[0], "x", 5); want = varText(m, F[0], 10, "f", {{"x", "5"}}); break;
        case 7: l.writeVariable(11, "g", F[1], "x", std::vector<int>{1, 2}, "y[\"a\"]", "text"); want = varText(m, F[1], 11, "g", {{"x", "[ 1, 2 ]"}, {"y[\"a\"]", "\"text\""}}); break;
        case 8: l.writeVariable(12, "h", F[0], "a", true, "b", std::make_tuple(1, 'c'), "c", Leaf{1, "s", false}); want = varText(m, F[0], 12, "h", {{"a", "true"}, {"b", "[ 1, \"c\"]"}, {"c", ref::text(Leaf{1, "s", false}, ref::Opt())}}); break;
        case 9: l.writeMessage("!!", 13, "f", F[0], "message"); want = msgText(m, "!!", F[0], 13, "f", {"\"message\""}); break;
        case 10: l.writeMessage("++", 14, "f", F[1], std::string("a"), 5, 2.5); want = msgText(m, "++", F[1], 14, "f", {"\"a\"", "5", "2.5"}); break;
        case 11: { ConsoleLogger d; Model dm; d.writeVariable(15, "k", F[0], "z", 1); want = varText(dm, F[0], 15, "k", {{"z", "1"}}); c.equal(strip(c, q.b.str(), true), want, "independent", "output of another logger"); q.b.str(""); want.clear(); break; }
        case 12: { ConsoleLogger d = l; d.setPrintFunction(!m.func); Model dm = m; dm.func = !m.func; d.writeVariable(16, "k", F[0], "z", 1); want = varText(dm, F[0], 16, "k", {{"z", "1"}}); c.equal(strip(c, q.b.str(), m.color), want, "copy", "output of a copied logger"); q.b.str(""); want.clear(); break; }
        case 13: { Stdout s; ConsoleLogger::writeVarC(17, "f", F[0], "x", 5, "y", std::string("t"), "z", 6ul); c.equal(s.end(), std::string("== ") + F[0] + ": 17 <f> [[ x ]] ==> 5\n== " + F[0] + ": 17 <f> [[ y ]] ==> \"t\"\n== " + F[0] + ": 17 <f> [[ z ]] ==> 6\n", "stdio", "variables"); break; }
        default: { Stdout s; ConsoleLogger::writeMessageC("--", 18, "f", F[1], "msg", 1, 'c'); c.equal(s.end(), std::string("-- ") + F[1] + ": 18 <f> ==> \"msg\" <==\n-- " + F[1] + ": 18 <f> ==> 1 <==\n-- " + F[1] + ": 18 <f> ==> \"c\" <==\n", "stdio", "messages"); }
        }
        std::string got = q.b.str();
        if (want.empty()) c.equal(got, std::string(), "silent", "unexpected output");
        else c.equal(strip(c, got, m.color), want, "text", "output");
        c.check(l.getColoredOutput() == m.color && l.getOnlyFilename() == m.only && l.getPrintFunction() == m.func && l.getPrintAggregated() == m.aggr && l.getIdentation() == m.ind, "options", "options differ from those set");
        c.op(); h = mc::mix(h, o); c.state(m.color + 2 * m.only + 4 * m.func + 8 * m.aggr + 16 * m.ind.size() + 1000 * o);
    }
    c.equal(so.end(), std::string(), "stdout", "printed to the standard output");
    c.out(h);
}
static void fun(int o, int& line) {
    std::map<std::string, int> m{{"k", 3}};
    switch (o) {
    case 0: line = __LINE__; DBGVAR(counted(0, 5)); break;
    case 1: line = __LINE__; DBGVAR(m, m["k"], counted(1, 6) + counted(2, 1)); break;
    case 2: line = __LINE__; DBGVARCOND(counted(3, 1), counted(4, 7)); break;
    case 3: line = __LINE__; DBGVARCOND(counted(3, 0), counted(5, 7)); break;
    case 4: line = __LINE__; DBGMSG("text", counted(6, 1)); break;
    case 5: line = __LINE__; DBGCHECK; break;
    case 6: line = __LINE__; DBGTRY(counted(7, 1)); break;
    case 7: line = __LINE__; DBGVAR_STDIO(m, counted(0, 5)); break;
    case 8: line = __LINE__; DBGVARCOND_STDIO(counted(3, 1), counted(4, 7)); break;
    case 9: line = __LINE__; DBGVARCOND_STDIO(counted(3, 0), counted(5, 7)); break;
    case 10: line = __LINE__; DBGCHECK_STDIO; break;
    default: line = __LINE__; DBGTRY(counted(7, 1); std::vector<int>({1, 2, 3}).at(4); counted(6, 1));
    }
}
MC_GROUP(g_macros, "macros") {
    int n = 1 + c.choose(2); std::vector<int> ops; for (int i = 0; i < n; i++) ops.push_back(c.choose(12));
    c.go();
    int* lines = shared() + 64;
    Child ch = inChild([&] { for (size_t i = 0; i < ops.size(); i++) { int l = 0; try { fun(ops[i], lines[i] = l); } catch (...) { } } });
    std::string err, out, f = __FILE__; int count[8] = {}, code = 42; Model m;
    // the lines of the calls
    static std::map<int, int> at; if (at.empty()) { for (int o = 0; o < 11; o++) { Quiet q; Stdout s; fun(o, at[o]); } at[11] = at[10] + 1; }
    for (int o : ops) {
        int l = at[o]; std::string hd = f + ": " + std::to_string(l) + " <fun> ";
        switch (o) {
        case 0: count[0]++; err += varText(m, f, l, "fun", {{"counted(0, 5)", "5"}}); break;
        case 1: count[1]++; count[2]++; err += varText(m, f, l, "fun", {{"m", "[ { \"k\": 3} ]"}, {"m[\"k\"]", "3"}, {"counted(1, 6) + counted(2, 1)", "7"}}); break;
        case 2: count[3]++; count[4]++; err += varText(m, f, l, "fun", {{"counted(4, 7)", "7"}}); break;
        case 3: case 9: count[3]++; break;
        case 4: count[6]++; err += msgText(m, "++", f, l, "fun", {"\"text\"", "1"}); break;
        case 5: err += msgText(m, "--", f, l, "fun", {"\"check line\""}); break;
        case 6: count[7]++; break;
        case 7: count[0]++; out += "== " + hd + "[[ m ]] ==> [ { \"k\": 3} ]\n== " + hd + "[[ counted(0, 5) ]] ==> 5\n"; break;
        case 8: count[3]++; count[4]++; out += "== " + hd + "[[ counted(4, 7) ]] ==> 7\n"; break;
        case 10: out += "-- " + hd + "==> \"check line\" <==\n"; break;
        default: count[7]++; code = 1; err += "!!" + f + ":" + std::to_string(l) + " <fun> ==> \"something went wrong in try block: ";
        }
        if (code == 1) break;
    }
    std::string got = strip(c, ch.err, !err.empty());
    if (code == 1) { size_t p = got.rfind("vector"); c.check(p != got.npos && got.find("\" <==\n", p) == got.size() - 6, "try", "the message of the exception is missing: " + got); got = got.substr(0, p); }
    c.op(); uint64_t h = 0; for (int o : ops) h = h * 13 + o + 1; c.state(h); c.out(h);
    c.equal(ch.code, code, "exit", "exit code"); c.equal(got, err, "text", "error output"); c.equal(ch.out, out, "stdout", "standard output");
    c.check(!memcmp(ch.count, count, sizeof count), "evaluated", "expressions were not evaluated exactly once, or with a false condition");
    for (auto& w : files()) c.check(w.compare(0, 3, "DBG") != 0, "files", "a file was written: " + w);
}
// every number of variables
#define SEQ(N, ...) case N: line = __LINE__; DBGVAR(__VA_ARGS__); break;
#define SEQ2(N, ...) case N: line = __LINE__; DBGVAR_STDIO(__VA_ARGS__); break;
#define SEQ3(N, ...) case N: line = __LINE__; DBGMSG(__VA_ARGS__); break;
#include "debuggen.h"
MC_GROUP(g_count, "number of variables") {
    int form = c.choose(3), n = 1 + c.choose(40);
    if (form && n % 2) c.skip();
    c.go();
    Quiet q; Stdout s; int line = 0;
    (form == 0 ? many1 : form == 1 ? many2 : many3)(n, line);
    std::string out = s.end(), err = strip(c, q.b.str(), form != 1), want, f = mg_file; Model m; Vars v; std::vector<std::string> msg;
    std::string fn = form == 0 ? "many1" : form == 1 ? "many2" : "many3";
    for (int i = 1; i <= n; i++) { v.push_back({std::to_string(i), std::to_string(i)}); msg.push_back(std::to_string(i)); }
    c.op(); c.state(form * 100 + n); c.out(n);
    if (form == 0) c.equal(err, varText(m, f, line, fn, v), "text", "output of " + std::to_string(n));
    else if (form == 2) c.equal(err, msgText(m, "++", f, line, fn, msg), "text", "output of " + std::to_string(n));
    else { for (auto& x : v) want += "== " + f + ": " + std::to_string(line) + " <" + fn + "> [[ " + x.first + " ]] ==> " + x.second + "\n"; c.equal(out, want, "text", "output of " + std::to_string(n)); c.equal(err, std::string(), "stderr", "error output"); }
}
#endif
#if H_PROP == 6
static int block(int o, int& past) {
    int a = 1;
    switch (o) {
    case 0: DBGVAR(counted(0, 5), nonexistent); break;
    case 1: DBGVARCOND(counted(0, 1), counted(1, 5)); break;
    case 2: DBGMSG(counted(0, 5), "x"); break;
    case 3: DBGCHECK; break;
    case 4: DBGVAR_STDIO(counted(0, 5)); break;
    case 5: DBGVARCOND_STDIO(counted(0, 1), counted(1, 5)); break;
    case 6: DBGCHECK_STDIO; break;
    case 7: DBGVAR_HTML(counted(0, 5)); break;
    case 8: DBGVARCOND_HTML(counted(0, 1), counted(1, 5)); break;
    case 9: DBGVAR_JSON(counted(0, 5)); break;
    case 10: DBGVARCOND_JSON(counted(0, 1), counted(1, 5)); break;
    case 11: DBGTRY(counted(7, 1); a = 2); break;
    case 12: DBGVAR_CSV(counted(0, 5)); break;
    case 13: DBGVARCOND_CSV(counted(0, 1), counted(1, 5)); break;
    }
    past++;
    return a;
}
MC_GROUP(g_off, "switched off") {
    int n = 1 + c.choose(2); std::vector<int> ops; for (int i = 0; i < n; i++) ops.push_back(c.choose(14));
    c.go();
    cleanDir(); int past = 0, want = 0, a = 0, wa = 0;
    Child ch = inChild([&] { int p = 0; for (int o : ops) a += block(o, p); shared()[6] = p; shared()[5] = a; });
    for (int o : ops) { want += o == 11; wa += o == 11 ? 2 : 1; }
    c.op(); uint64_t h = 0; for (int o : ops) h = h * 15 + o + 1; c.state(h); c.out(h);
    c.equal(ch.code, 42, "exit", "exit code"); c.equal(ch.err + ch.out, std::string(), "output", "output");
    c.equal(ch.count[0] + ch.count[1] + ch.count[2] + ch.count[3] + ch.count[4], 0, "evaluated", "expressions evaluated");
    c.equal(ch.count[7], want, "code", "guarded code executed"); c.equal(ch.count[6], n, "continued", "statements passed"); c.equal(ch.count[5], wa, "code", "result of the guarded code");
    for (auto& w : files()) c.check(w.compare(0, 3, "DBG") != 0, "files", "a file was written: " + w);
}
// nothing in the library prints when the macros are off: meshes loaded, written, refused
struct OffData { double x; Vector<3, double> v; };
MAKE_ATTRIBUTE_TRAIT(OffData, x, v);
static const char* const TETRA = "# vtk DataFile Version 2.0\nt\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS 5 double\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n1 1 1\nCELLS 2 10\n4 0 1 2 3\n4 1 2 3 4\nCELL_TYPES 2\n10\n10\n";
MC_GROUP(g_lib, "the library with the macros switched off") {
    int n = 1 + c.choose(c.run.thorough ? 4 : 3); std::vector<int> ops; for (int i = 0; i < n; i++) ops.push_back(c.choose(7));
    c.go();
    cleanDir();
    { std::ofstream f("in.vtk"); f << TETRA; } { std::ofstream f("bad.vtk"); f << std::string(TETRA).substr(0, 150); }
    Child ch = inChild([&] {
        using M = UnstructuredMesh<3, size_t, double>; M m; MeshDataContainer<MeshNativeType<3>::ElementType, 3> ty; std::unique_ptr<MeshReader<3>> r; std::unique_ptr<MeshWriter<3>> wr;
        auto again = [&] { r = m.load("in.vtk"); ty = r->getCellTypes(); };
        again();
        for (int o : ops) {
            again();
            switch (o) {
            case 0: m.write("out.vtk", *r, "header"); counted(1, 1); break;
            case 1: m.write("out.fpma", ty, "header"); counted(2, 1); break;
            case 2: m.write("out.vtk", wr, ty, "header"); counted(1, 1); break;
            case 3: try { m.load("bad.vtk"); } catch (std::exception&) { counted(3, 1); } break;
            case 4: try { m.load("none.vtk"); } catch (std::exception&) { counted(3, 1); } break;
            case 5: m.initializeCenters(); m.setupBoundaryCells(); m.setupBoundaryCellsCenters(); m.computeFaceNormals<METHOD_TESSELLATED>(); m.connections<0, 3>(); m.coloring<3, 2>(); counted(4, 1); break;
            case 6: {
                VTKMeshWriter<3, size_t, double> w; std::stringstream s; w.writeHeader(s, "h"); w.writeToStream(s, m, ty);
                MeshDataContainer<OffData, 3> d(m); for (auto& x : d.getDataByPos<0>()) { x.x = 1.5; x.v = {1, 2, 3}; }
                VTKMeshDataWriter<3>::writeToStream(s, d, w);
                MeshDataContainer<OffData, 3> e(m); VTKMeshDataReader<3, size_t>::readFromStream(s, e);
                if (e.getDataByPos<0>()[1].v[2] == 3) counted(5, 1);
            }
            }
            if (m.getCells().size() == (o == 3 ? m.getCells().size() : 2)) counted(6, 1);
        }
    });
    int cnt[8] = {}; for (int o : ops) { cnt[o == 0 || o == 2 ? 1 : o == 1 ? 2 : o == 5 ? 4 : o == 6 ? 5 : 3]++; cnt[6]++; }
    c.op(); uint64_t h = 0; for (int o : ops) h = h * 8 + o + 1; c.state(h); c.out(h);
    c.equal(ch.code, 42, "lib-exit", "exit code"); c.equal(ch.err + ch.out, std::string(), "lib-output", "output of mesh functions with the macros switched off");
    for (int k = 1; k < 7; k++) c.equal(ch.count[k], cnt[k], "lib-result", "operations of kind " + std::to_string(k) + " with their result");
    std::set<std::string> want{"in.vtk", "bad.vtk"}; if (cnt[1]) want.insert("out.vtk"); if (cnt[2]) want.insert("out.fpma");
    c.check(files() == want, "lib-files", "files written");
}
#endif
MC_MAIN
