// C01 (-DH_DIM=2|3|4): functions of meshes run at the same time or inside each other.
// C02 (-DH_DIM=0): the same for traits, serializer, printing, logs and vectors.
#include "race.h"
#include "mc.h"
#include <memory>
#include <array>
#include <list>
#include <set>

// What the streams of the standard library store into variables is written where it is compiled without
// instrumentation; these do the same here, so that the runtime sees the writes.
struct SeenNumGet : std::num_get<char> {
    typedef std::num_get<char> B;
    template <class T> iter_type seen(iter_type b, iter_type e, std::ios_base& io, std::ios_base::iostate& err, T& v) const { T t = T(); b = B::do_get(b, e, io, err, t); v = t; return b; }
    iter_type do_get(iter_type b, iter_type e, std::ios_base& io, std::ios_base::iostate& err, bool& v) const override { return seen(b, e, io, err, v); }
    iter_type do_get(iter_type b, iter_type e, std::ios_base& io, std::ios_base::iostate& err, long& v) const override { return seen(b, e, io, err, v); }
    iter_type do_get(iter_type b, iter_type e, std::ios_base& io, std::ios_base::iostate& err, long long& v) const override { return seen(b, e, io, err, v); }
    iter_type do_get(iter_type b, iter_type e, std::ios_base& io, std::ios_base::iostate& err, unsigned short& v) const override { return seen(b, e, io, err, v); }
    iter_type do_get(iter_type b, iter_type e, std::ios_base& io, std::ios_base::iostate& err, unsigned& v) const override { return seen(b, e, io, err, v); }
    iter_type do_get(iter_type b, iter_type e, std::ios_base& io, std::ios_base::iostate& err, unsigned long& v) const override { return seen(b, e, io, err, v); }
    iter_type do_get(iter_type b, iter_type e, std::ios_base& io, std::ios_base::iostate& err, unsigned long long& v) const override { return seen(b, e, io, err, v); }
    iter_type do_get(iter_type b, iter_type e, std::ios_base& io, std::ios_base::iostate& err, float& v) const override { return seen(b, e, io, err, v); }
    iter_type do_get(iter_type b, iter_type e, std::ios_base& io, std::ios_base::iostate& err, double& v) const override { return seen(b, e, io, err, v); }
    iter_type do_get(iter_type b, iter_type e, std::ios_base& io, std::ios_base::iostate& err, long double& v) const override { return seen(b, e, io, err, v); }
};
static const std::locale& seenLocale = *new std::locale(std::locale::classic(), new SeenNumGet);
static const bool seenEverywhere = (std::locale::global(seenLocale), true);
namespace std {
template <> istream& operator>>(istream& in, string& s) {
    istream::sentry ok(in);
    if (!ok) return in;
    s.clear();
    ios_base::iostate err = ios_base::goodbit;
    size_t n = in.width() > 0 ? size_t(in.width()) : s.max_size(), k = 0;
    const ctype<char>& ct = use_facet<ctype<char>>(in.getloc());
    int ch = in.rdbuf()->sgetc();
    while (k < n && ch != EOF && !ct.is(ctype_base::space, char(ch))) { s += char(ch); k++; ch = in.rdbuf()->snextc(); }
    if (k < n && ch == EOF) err |= ios_base::eofbit;
    in.width(0);
    if (!k) err |= ios_base::failbit;
    if (err) in.setstate(err);
    return in;
}
template <> istream& getline(istream& in, string& s, char end) {
    istream::sentry ok(in, true);
    if (!ok) return in;
    s.clear();
    ios_base::iostate err = ios_base::goodbit;
    size_t k = 0;
    int ch = in.rdbuf()->sgetc();
    while (ch != EOF && char(ch) != end) { s += char(ch); k++; ch = in.rdbuf()->snextc(); }
    if (ch == EOF) { err |= ios_base::eofbit; if (!k) err |= ios_base::failbit; }
    else in.rdbuf()->sbumpc();
    if (err) in.setstate(err);
    return in;
}
}

// What an operation runs in: who runs it, and what happens whenever it calls back into code of the user.
struct Env {
    int tid = 0;                            // gives every thread files of its own
    long ticks = 0, at = -1;
    std::function<void()> inner;            // run at callback number `at`
    void tick() { if (ticks++ == at && inner) { auto f = inner; inner = nullptr; f(); } }
};
// streams that call back
struct OutBuf : std::stringbuf {
    Env& e;
    explicit OutBuf(Env& x) : std::stringbuf(std::ios::out), e(x) {}
    std::streamsize xsputn(const char* s, std::streamsize n) override { e.tick(); return std::stringbuf::xsputn(s, n); }
    int_type overflow(int_type c) override { e.tick(); return std::stringbuf::overflow(c); }
};
struct Out : std::ostream { OutBuf b; explicit Out(Env& e) : std::ostream(nullptr), b(e) { rdbuf(&b); precision(17); } std::string str() const { return b.str(); } };
struct InBuf : std::streambuf {            // delivers a few characters at a time
    Env& e; std::string s; size_t step;
    InBuf(Env& x, const std::string& t, size_t st) : e(x), s(t), step(st) { char* p = &s[0]; setg(p, p, p); }
    int_type underflow() override {
        e.tick();
        char* end = &s[0] + s.size();
        if (gptr() >= end) return traits_type::eof();
        char* lim = gptr() + step < end ? gptr() + step : end;
        setg(&s[0], gptr(), lim);
        return traits_type::to_int_type(*gptr());
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
        char* p = d == std::ios_base::beg ? &s[0] + o : d == std::ios_base::cur ? gptr() + o : &s[0] + s.size() + o;
        if (p < &s[0] || p > &s[0] + s.size()) return pos_type(off_type(-1));
        setg(&s[0], p, p);
        return pos_type(p - &s[0]);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
struct In : std::istream { InBuf b; In(Env& e, const std::string& t, size_t step = 8) : std::istream(nullptr), b(e, t, step) { rdbuf(&b); } };
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }

static Env*& userEnv() { static Env* e = nullptr; return e; }          // for callbacks that know nothing of the operation (accessors, printers)
static void userTick() { if (Env* e = userEnv()) e->tick(); }
struct World;
struct Op { const char* name; std::string (*f)(const World&, Env&); };

#if H_DIM > 0
#include "concmesh.h"
#else
#include "concother.h"
#endif

static const int NOPS = (int)(sizeof OPS / sizeof *OPS);
static std::string runOp(int op, int world, Env& e) {
    try { return OPS[op].f(worlds()[world], e); }
    catch (std::exception& x) { return std::string("!") + x.what(); }
}
static std::function<std::string()> body(int op, int world, int tid) {
    return [=] { Env e; e.tid = tid; return runOp(op, world, e); };
}
// what an operation gives on its own, in a process where nothing else has run
static const race::Result& alone(mc::Case& c, int op, int world) {
    static std::map<std::pair<int, int>, race::Result> cache;
    auto k = std::make_pair(op, world);
    auto it = cache.find(k);
    if (it == cache.end()) {
        it = cache.emplace(k, race::run({body(op, world, 0)}, {0})).first;
        if (it->second.ok && it->second.out[0].substr(0, 1) == "!") c.fail("alone", std::string(OPS[op].name) + " ends with an exception: " + it->second.out[0]);
    }
    if (!it->second.ok) c.fail("alone", std::string(OPS[op].name) + " alone: " + it->second.death);
    return it->second;
}
static std::string cut(const std::string& a, const std::string& b) {      // the first difference
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t f = i > 40 ? i - 40 : 0;
    return "..." + a.substr(f, 100) + "... instead of ..." + b.substr(f, 100) + "...";
}
static void judge(mc::Case& c, const race::Result& r, const std::vector<std::pair<int, int>>& what, const std::string& how) {
    std::string n;
    for (size_t i = 0; i < what.size(); i++) n += (i ? " and " : "") + std::string(OPS[what[i].first].name) + " on " + std::to_string(what[i].second);
    c.op(n + " " + how);
    if (!r.ok) c.fail("death", n + " " + how + ": " + r.death);
    for (size_t i = 0; i < what.size(); i++) {
        const std::string& w = alone(c, what[i].first, what[i].second).out[0];
        if (r.out[i] != w) c.fail("result", n + " " + how + ": thread " + std::to_string(i) + " gets " + cut(r.out[i], w));
    }
    if (r.raced) c.fail("race", n + " " + how + ": " + r.race);
    for (auto& o : r.out) c.state(mc::hashStr(o));
    c.out(r.out[0]);
}

// every two operations in two threads, without any order between them
MC_GROUP(gPairs, "two threads, every pair of operations") {
    int a = c.choose(NOPS), b = c.choose(NOPS), wa = c.choose((int)worlds().size()), wb = c.choose((int)worlds().size()), ord = c.choose(2);
    c.go();
    std::vector<int> order{0, 1}; if (ord) order = {1, 0};
    judge(c, race::run({body(a, wa, 1), body(b, wb, 2)}, order), {{a, wa}, {b, wb}}, "at the same time");
}
// three threads
MC_GROUP(gThree, "three threads") {
    int a = c.choose(NOPS), b = c.choose(NOPS), d = c.run.thorough ? c.choose(NOPS) : (a * 7 + b * 3 + 1) % NOPS;
    int n = (int)worlds().size(), w = c.choose(n);
    c.go();
    judge(c, race::run({body(a, w, 1), body(b, (w + 1) % n, 2), body(d, w, 3)}, {0, 1, 2}), {{a, w}, {b, (w + 1) % n}, {d, w}}, "at the same time");
}
// the first thread stopped before its k-th access to a global variable, the other one runs to its end in between
static int limit(int n, bool thorough) { return thorough ? n : n < 200 ? n : 200; }
MC_GROUP(gPreempt, "two threads, preempted at every access to a global variable") {
    int a = c.choose(NOPS), b = c.choose(NOPS), w = c.choose((int)worlds().size());
    long n = alone(c, a, w).globals[0];
    if (!n) c.skip();
    int k = 1 + c.choose(limit((int)n, c.run.thorough));
    c.go();
    judge(c, race::run({body(a, w, 1), body(b, w, 2)}, {0, 1}, k, true), {{a, w}, {b, w}}, "stopped before access " + std::to_string(k));
}
// stopped at every access to anything shared: the same operation twice
MC_GROUP(gPreemptShared, "the same operation twice, preempted at every access to shared memory") {
    int a = c.choose(NOPS), w = c.choose((int)worlds().size());
    long n = alone(c, a, w).shared[0];
    if (!n) c.skip();
    int steps = c.run.thorough ? 4000 : 150;      // evenly spread when there are more accesses than that
    int k = c.choose(n < steps ? (int)n : steps);
    c.go();
    long at = n < steps ? 1 + k : 1 + (long)((double)k * (n - 1) / (steps - 1));
    int w2 = (w + 1) % (int)worlds().size();
    judge(c, race::run({body(a, w, 1), body(a, w2, 2)}, {0, 1}, at, false), {{a, w}, {a, w2}}, "stopped before access " + std::to_string(at));
}
// one operation inside another, called from what the user hands to it
static long ticksOf(int op, int world) {
    static std::map<std::pair<int, int>, long> cache;
    auto k = std::make_pair(op, world);
    auto it = cache.find(k);
    if (it == cache.end()) { Env e; e.tid = 3; runOp(op, world, e); it = cache.emplace(k, e.ticks).first; }
    return it->second;
}
MC_GROUP(gNested, "every operation inside every other, at every callback") {
    int a = c.choose(NOPS), wa = c.choose((int)worlds().size());
    long n = ticksOf(a, wa);
    if (!n) c.skip();
    int b = c.choose(NOPS), wb = c.choose((int)worlds().size());
    int steps = c.run.thorough ? 100000 : 60;
    int k = c.choose(n < steps ? (int)n : steps);
    c.go();
    long at = n < steps ? k : (long)((double)k * (n - 1) / (steps - 1));
    std::string in, out;
    {
        Env e; e.tid = 4; e.at = at;
        Env f; f.tid = 5;
        bool ran = false;
        userEnv() = &e;
        e.inner = [&] { ran = true; Env* s = userEnv(); userEnv() = &f; in = runOp(b, wb, f); userEnv() = s; };
        out = runOp(a, wa, e);
        userEnv() = nullptr;
        c.op();
        c.check(ran, "callbacks", std::string(OPS[a].name) + " calls back " + std::to_string(e.ticks) + " times instead of " + std::to_string(n));
    }
    const std::string &wo = alone(c, a, wa).out[0], &wi = alone(c, b, wb).out[0];
    std::string n2 = std::string(OPS[b].name) + " run inside " + OPS[a].name + " (callback " + std::to_string(at) + "): ";
    if (in != wi) c.fail("inner", n2 + "the inner one gives " + cut(in, wi));
    if (out != wo) c.fail("outer", n2 + "the outer one gives " + cut(out, wo));
    c.state(mc::hashStr(out + in)); c.out(out);
}
MC_MAIN
