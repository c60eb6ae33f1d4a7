// Explicit-state / stateless explorer used by every harness in this directory.
//
// A harness registers "groups".  A group is a body that draws its whole behaviour from
// Case::choose(); the explorer enumerates *every* choice sequence by depth-first search (replay the
// prefix, take 0 afterwards, then advance the last choice that still has an alternative).  Nothing is
// sampled.  Work is split over shards by a hash of the choices made before Case::go().
//
// The current choice sequence is kept in a shared-memory progress file, so that a crash, an exit() or a
// hang inside the code under test is attributed to the exact case by the runner (run.py), which replays
// it alone before it reports anything.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>

namespace mc {

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    return h;
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

struct Skip {};                       // not this shard / case pruned as equivalent or out of the precondition
struct Failure { std::string key, msg; };

struct Progress {                     // shared memory, read by run.py
    uint64_t magic, counter, group, len;
    int32_t choices[4096];
};

struct Stats {
    uint64_t traces = 0, transitions = 0, skipped = 0, replayChecks = 0;
    uint64_t choicePoints = 0, maxDepth = 0;
    std::unordered_set<uint64_t> states;
    std::unordered_set<uint64_t> outcomes;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> counters;
};

struct Run;

struct Case {
    Run& run;
    std::vector<int> prefix;
    std::vector<int> choices, arity;
    std::ostringstream text;
    uint64_t outcome = 7;
    bool gone = false;
    explicit Case(Run& r) : run(r) {}

    int choose(int n, const char* label = nullptr);
    bool flag(const char* label = nullptr) { return choose(2, label) == 1; }
    template <class T> const T& pick(const std::vector<T>& v, const char* label = nullptr) { return v[choose((int)v.size(), label)]; }
    void go();                                    // all sharding choices are made
    void skip() { throw Skip(); }
    void op(const std::string& s = std::string()) ;// a transition of the real code was executed
    void state(uint64_t h);                       // a state (digest of what can be observed) was reached
    void note(const std::string& s) { if (text.tellp() < 20000) text << s << "; "; }
    void out(uint64_t h) { outcome = mix(outcome, h); }
    void out(const std::string& s) { outcome = mix(outcome, hashStr(s)); }
    void fail(const std::string& key, const std::string& msg) { throw Failure{key, msg}; }
    void check(bool ok, const std::string& key, const std::string& msg) { if (!ok) fail(key, msg); }
    template <class A, class B> void equal(const A& got, const B& want, const std::string& key, const std::string& what) {
        if (!(got == want)) { std::ostringstream o; o << what << ": got " << got << ", want " << want; fail(key, o.str()); }
    }
};

using Body = std::function<void(Case&)>;
struct Group { std::string name; Body body; };
struct Registry {
    static std::vector<Group>& all() { static std::vector<Group> g; return g; }
    Registry(const char* n, Body b) { all().push_back({n, b}); }
};
#define MC_GROUP(fn, name) static void fn(mc::Case&); static mc::Registry reg_##fn(name, fn); static void fn(mc::Case& c)

struct Run {
    bool thorough = false;
    int shard = 0, shards = 1;
    bool replay = false;
    Progress* prog = nullptr;
    Stats st;
    std::map<std::string, std::pair<std::string, std::string>> failures; // key -> (choices, text)
    std::string group;
    uint64_t failCount = 0;
    std::set<std::string> skipCases;                 // crash cases already attributed by the runner

    std::string choiceStr(const std::vector<int>& c) { std::string s; for (size_t i = 0; i < c.size(); i++) s += (i ? "," : "") + std::to_string(c[i]); return s; }

    void publish(const Case& c) {
        if (!prog) return;
        prog->len = c.choices.size();
        for (size_t i = 0; i < c.choices.size() && i < 4096; i++) prog->choices[i] = c.choices[i];
    }

    // one execution; returns choices made
    void once(Case& c, const Body& body) {
        if (prog) { prog->counter++; }
        try {
            body(c);
            st.traces++;
            st.outcomes.insert(c.outcome);
            if (st.samples.size() < 3 || (st.samples.size() < 6 && st.traces % 97 == 0)) {
                std::string t = c.text.str();
                if (!t.empty()) st.samples.push_back(group + "[" + choiceStr(c.choices) + "] " + t.substr(0, 600));
            }
        } catch (Skip&) {
            st.skipped++;
        } catch (Failure& f) {
            record(c, f.key, f.msg);
        } catch (std::exception& e) {
            record(c, "exception", std::string("unexpected exception: ") + e.what());
        } catch (...) {
            record(c, "exception", "unexpected exception of unknown type");
        }
        st.choicePoints += c.choices.size();
        if (c.choices.size() > st.maxDepth) st.maxDepth = c.choices.size();
    }
    void record(Case& c, const std::string& key, const std::string& msg) {
        st.traces++;
        failCount++;
        std::string k = group + "/" + key;
        if (failures.size() < 200 && !failures.count(k)) failures[k] = {choiceStr(c.choices), msg + " | case: " + c.text.str()};
    }

    void explore(const Group& g, size_t gi) {
        group = g.name;
        if (prog) prog->group = gi;
        std::vector<int> prefix;
        while (true) {
            Case c(*this);
            c.prefix = prefix;
            once(c, g.body);
            if (c.choices.size() < prefix.size()) { fprintf(stdout, "INTERNAL nondeterministic replay in %s\n", g.name.c_str()); exit(3); }
            // advance
            std::vector<int> next = c.choices;
            int i = (int)next.size() - 1;
            while (i >= 0 && next[i] + 1 >= c.arity[i]) i--;
            if (i < 0) break;
            next[i]++;
            next.resize(i + 1);
            prefix = next;
        }
    }
};

inline int Case::choose(int n, const char*) {
    if (n <= 0) throw Skip();
    size_t i = choices.size();
    int v = i < prefix.size() ? prefix[i] : 0;
    if (v >= n) { fprintf(stdout, "INTERNAL choice out of range in %s at %zu: %d of %d\n", run.group.c_str(), i, v, n); exit(3); }
    choices.push_back(v);
    arity.push_back(n);
    if (gone) run.publish(*this);
    return v;
}
inline void Case::go() {
    gone = true;
    run.publish(*this);
    if (run.replay) return;
    if (run.shards > 1) {
        uint64_t h = 88172645463325252ULL;
        for (int v : choices) h = mix(h, (uint64_t)v + 1);
        if ((int)((h >> 17) % (uint64_t)run.shards) != run.shard) { throw Skip(); }
    }
    if (!run.skipCases.empty() && run.skipCases.count(run.group + ":" + run.choiceStr(choices))) throw Skip();
}
inline void Case::op(const std::string& s) { run.st.transitions++; if (!s.empty()) note(s); }
inline void Case::state(uint64_t h) { if (run.st.states.size() < 4000000) run.st.states.insert(mix(hashStr(run.group), h)); }

inline std::string jsonEsc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

inline int runMain(int argc, char** argv) {
    Run r;
    std::string outFile, progFile, replayGroup, replayChoices, only;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--thorough") r.thorough = true;
        else if (a == "--shard") { r.shard = atoi(argv[++i]); r.shards = atoi(argv[++i]); }
        else if (a == "--out") outFile = argv[++i];
        else if (a == "--progress") progFile = argv[++i];
        else if (a == "--only") only = argv[++i];
        else if (a == "--skip") r.skipCases.insert(argv[++i]);
        else if (a == "--list") { for (auto& g : Registry::all()) printf("%s\n", g.name.c_str()); return 0; }
        else if (a == "--replay") { r.replay = true; replayGroup = argv[++i]; replayChoices = argv[++i]; }
        else { fprintf(stdout, "unknown argument %s\n", a.c_str()); return 3; }
    }
    if (!progFile.empty()) {
        int fd = open(progFile.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0) { printf("INTERNAL cannot open progress file\n"); return 3; }
        r.prog = (Progress*)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
        r.prog->magic = 0x4d43;
    }
    auto& groups = Registry::all();
    if (r.replay) {
        std::vector<int> ch;
        std::stringstream ss(replayChoices);
        std::string t;
        while (std::getline(ss, t, ',')) if (!t.empty()) ch.push_back(atoi(t.c_str()));
        for (size_t gi = 0; gi < groups.size(); gi++) if (groups[gi].name == replayGroup) {
            r.group = replayGroup;
            Case c(r);
            c.prefix = ch;
            r.once(c, groups[gi].body);
            if (!r.failures.empty()) {
                printf("FAIL %s %s\n", r.failures.begin()->first.c_str(), r.failures.begin()->second.second.c_str());
                return 1;
            }
            printf("PASS %s\n", c.text.str().c_str());
            return 0;
        }
        printf("INTERNAL no such group\n");
        return 3;
    }
    for (size_t gi = 0; gi < groups.size(); gi++) {
        if (!only.empty() && groups[gi].name != only) continue;
        uint64_t before = r.st.traces;
        r.explore(groups[gi], gi);
        r.st.counters["traces:" + groups[gi].name] = r.st.traces - before;
    }
    FILE* f = outFile.empty() ? stdout : fopen(outFile.c_str(), "w");
    fprintf(f, "{\"traces\":%llu,\"transitions\":%llu,\"skipped\":%llu,\"choice_points\":%llu,\"max_depth\":%llu,\"outcomes\":%zu,\n",
            (unsigned long long)r.st.traces, (unsigned long long)r.st.transitions, (unsigned long long)r.st.skipped,
            (unsigned long long)r.st.choicePoints, (unsigned long long)r.st.maxDepth, r.st.outcomes.size());
    fprintf(f, "\"fail_count\":%llu,\"failures\":[", (unsigned long long)r.failCount);
    bool first = true;
    for (auto& kv : r.failures) {
        fprintf(f, "%s{\"key\":\"%s\",\"choices\":\"%s\",\"msg\":\"%s\"}", first ? "" : ",\n", jsonEsc(kv.first).c_str(), kv.second.first.c_str(), jsonEsc(kv.second.second.substr(0, 4000)).c_str());
        first = false;
    }
    fprintf(f, "],\n\"counters\":{");
    first = true;
    for (auto& kv : r.st.counters) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jsonEsc(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
    fprintf(f, "},\n\"samples\":[");
    first = true;
    for (auto& s : r.st.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",\n", jsonEsc(s).c_str()); first = false; }
    fprintf(f, "]}\n");
    if (f != stdout) {
        fclose(f);
        // digests, so that the runner can count distinct states / outcomes over all shards
        FILE* b = fopen((outFile + ".states").c_str(), "wb");
        for (uint64_t h : r.st.states) fwrite(&h, 8, 1, b);
        fclose(b);
        b = fopen((outFile + ".outcomes").c_str(), "wb");
        for (uint64_t h : r.st.outcomes) fwrite(&h, 8, 1, b);
        fclose(b);
    }
    return 0;
}

} // namespace mc

#define MC_MAIN int main(int argc, char** argv) { return mc::runMain(argc, argv); }
