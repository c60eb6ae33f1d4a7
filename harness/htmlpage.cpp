// D06: the page of an HTML log, run as a browser runs it: its scripts are executed by node over a small document and the
// buttons are pressed; the table shown is compared with a model of the filter.
#include "mc.h"
#include "sizes.h"
#include "jsonparse.h"
#include <GTMesh/Debug/Debug.h>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>

static const char* const SERVER = R"JS(
const fs = require('fs'), vm = require('vm');
function unesc(t) { return t.replace(/&lt;/g, '<').replace(/&gt;/g, '>').replace(/&quot;/g, '"').replace(/&#39;|&apos;/g, "'").replace(/&nbsp;/g, ' ').replace(/&amp;/g, '&'); }
class El {
    constructor(doc, tag, attrs) { this.doc = doc; this.tagName = tag.toUpperCase(); this.id = attrs.id || ''; this.value = attrs.value || ''; this.selectedIndex = 0; this.html = ''; this.controls = []; }
    get innerHTML() { return this.html; }
    set innerHTML(h) { for (const e of this.controls) this.doc.drop(e); this.controls = []; this.html = String(h); this.add(this.html); }
    insertAdjacentHTML(where, h) { if (where.toLowerCase() !== 'beforeend') throw new Error('insertAdjacentHTML ' + where); this.html += h; this.add(h); }
    add(h) { for (const e of this.doc.parse(h)) this.controls.push(e); }
}
class Doc {
    constructor() { this.all = []; this.buttons = {}; }
    drop(e) { for (const x of e.controls) this.drop(x); this.all = this.all.filter(x => x !== e); }
    parse(h) {
        const r = [];
        const re = /<(\w+)((?:\s+[\w-]+\s*=\s*(?:"[^"]*"|'[^']*'))*)\s*\/?>/g; let m;
        while ((m = re.exec(h))) {
            const attrs = {}; const ra = /([\w-]+)\s*=\s*(?:"([^"]*)"|'([^']*)')/g; let a;
            while ((a = ra.exec(m[2]))) attrs[a[1].toLowerCase()] = a[2] !== undefined ? a[2] : a[3];
            if (m[1].toLowerCase() === 'button') { const e = h.indexOf('</button>', re.lastIndex); this.buttons[h.slice(re.lastIndex, e).trim()] = attrs.onclick; continue; }
            if (!attrs.id) continue;
            const e = new El(this, m[1], attrs); this.all.push(e); r.push(e);
        }
        return r;
    }
    getElementById(id) { return this.all.find(e => e.id === id) || null; }
}
// the rows of the table in the last element shown, the text of each cell as a reader sees it
function shown(doc) {
    const lists = doc.all.filter(e => /<table/i.test(e.html) && e.tagName === 'DIV');
    if (lists.length !== 1) throw new Error(lists.length + ' tables');
    const h = lists[0].html, rows = []; let row = null, cell = null, i = 0;
    while (i < h.length) {
        if (h[i] !== '<') { const e = h.indexOf('<', i), t = h.slice(i, e < 0 ? h.length : e); if (cell !== null) cell += unesc(t); i = e < 0 ? h.length : e; continue; }
        const m = /^<(\/?)([a-zA-Z]+)[^>]*>/.exec(h.slice(i));
        if (!m) throw new Error('a broken tag: ' + h.slice(i, i + 40));
        const tag = m[2].toLowerCase();
        if (tag === 'tr') { if (m[1]) { rows.push(row); row = null; } else row = []; }
        else if (tag === 'td') { if (m[1]) { row.push(cell); cell = null; } else cell = ''; }
        else if (tag === 'th') { if (m[1]) cell = null; else cell = ''; }
        else if (!['table', 'tbody', 'thead'].includes(tag) || cell !== null) throw new Error('the data are shown as markup: ' + m[0]);
        i += m[0].length;
    }
    return rows.filter(r => r.length);
}
function run(q) {
    let h = fs.readFileSync(q.page, 'latin1');
    const doc = new Doc(), env = vm.createContext({document: doc, console: {log() {}, error() {}, warn() {}}, alert() {}});
    let body = '', scripts = [], i = 0;
    for (;;) {     // the first </script ends a script, whatever it stands in
        const m = /<script\b[^>]*>/i.exec(h.slice(i)); if (!m) { body += h.slice(i); break; }
        body += h.slice(i, i + m.index); const b = i + m.index + m[0].length, e = h.slice(b).search(/<\/script/i);
        if (e < 0) throw new Error('a script without an end');
        scripts.push(h.slice(b, b + e)); i = b + e + h.slice(b + e).indexOf('>') + 1;
    }
    doc.parse(body);
    for (const s of scripts) vm.runInContext(s, env, {timeout: 2000});
    const res = [shown(doc)], base = doc.all.filter(e => e.tagName === 'INPUT')[0];
    const rowsOf = () => { const c = doc.all.filter(e => (e.tagName === 'INPUT' || e.tagName === 'SELECT') && e !== base), r = []; for (let k = 0; k + 4 < c.length; k += 5) r.push(c.slice(k, k + 5)); return r; };
    for (const s of q.steps) {
        if (s[0] === 'press') { if (doc.buttons[s[1]] === undefined) throw new Error('no button ' + s[1]); vm.runInContext(doc.buttons[s[1]], env, {timeout: 2000}); res.push(shown(doc)); }
        else if (s[0] === 'line') base.value = String(s[1]);
        else { const c = rowsOf()[s[1]]; c[0].selectedIndex = s[2]; c[1].value = s[3]; c[2].selectedIndex = s[4]; c[3].value = s[5]; c[4].value = s[6]; }
    }
    return res;
}
let buf = '';
const fd = 0, chunk = Buffer.alloc(65536);
for (;;) {
    let n; try { n = fs.readSync(fd, chunk, 0, chunk.length, null); } catch (e) { if (e.code === 'EAGAIN') continue; throw e; }
    if (n === 0) break;
    buf += chunk.toString('latin1', 0, n);
    let e;
    while ((e = buf.indexOf('\n')) >= 0) {
        const line = buf.slice(0, e); buf = buf.slice(e + 1);
        let r; try { r = {ok: run(JSON.parse(line))}; } catch (x) { r = {error: String(x && x.message || x)}; }
        fs.writeSync(1, Buffer.from(JSON.stringify(r) + '\n', 'latin1'));
    }
}
)JS";

struct Browser {
    int to[2], from[2]; pid_t p; FILE* in;
    Browser() {
        signal(SIGPIPE, SIG_IGN);
        if (pipe(to) || pipe(from)) abort();
        p = fork();
        if (p == 0) { dup2(to[0], 0); dup2(from[1], 1); close(to[1]); close(from[0]); execlp("node", "node", "-e", SERVER, (char*)nullptr); _exit(127); }
        close(to[0]); close(from[1]); in = fdopen(from[0], "r");
    }
    ~Browser() { close(to[1]); fclose(in); int st; waitpid(p, &st, 0); }
    std::string ask(const std::string& q) {
        std::string l = q + "\n";
        if (write(to[1], l.data(), l.size()) != (ssize_t)l.size()) throw std::runtime_error("node does not answer");
        std::string r; int ch; while ((ch = getc(in)) != EOF && ch != '\n') r += (char)ch;
        if (ch == EOF) throw std::runtime_error("node does not answer");
        return r;
    }
};
static Browser& browser() { static pid_t owner = getpid(); static Browser* b = new Browser; if (owner != getpid()) { owner = getpid(); b = new Browser; } return *b; }
struct Quiet { std::stringbuf b; std::streambuf* old; Quiet() { old = std::cerr.rdbuf(&b); } ~Quiet() { std::cerr.rdbuf(old); } };

struct Rec { int group, line; std::string file, name, data; bool number; double value; };
struct Filter { int rule, cond; std::string name; double a, b; };
using Table = std::vector<std::vector<std::string>>;
static std::string jsText(const std::string& s) { std::string r = "\""; char b[8]; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; } else if (ch < 32) { snprintf(b, 8, "\\u%04x", ch); r += b; } else r += (char)ch; } return r + "\""; }
static bool selects(const Filter& f, const Rec& r) {
    if (f.name != r.name || !r.number) return false;
    switch (f.cond) { case 0: return r.value < f.a; case 1: return r.value > f.a; case 2: return r.value == f.a; default: return r.value > f.a && r.value < f.b; }
}
// the records shown: those on the line that a filter selects, with their groups where the filter that selects first says so
static std::vector<int> model(const std::vector<Rec>& recs, int line, const std::vector<Filter>& fs) {
    std::vector<char> in(recs.size(), 0);
    for (size_t i = 0; i < recs.size(); i++) {
        if (line >= 0 && recs[i].line != line) continue;
        if (fs.empty()) { in[i] = 1; continue; }
        for (auto& f : fs) if (selects(f, recs[i])) { in[i] = 1; if (f.rule) for (size_t j = 0; j < recs.size(); j++) if (recs[j].group == recs[i].group) in[j] = 1; break; }
    }
    std::vector<int> r; for (size_t i = 0; i < in.size(); i++) if (in[i]) r.push_back((int)i);
    return r;
}
static void compare(mc::Case& c, const std::vector<Rec>& recs, const std::vector<int>& want, const Json& got, const std::string& what) {
    std::string w; for (int i : want) w += std::to_string(i) + " ";
    std::string g; for (auto& r : got.a) { g += "["; for (auto& x : r.a) g += x.s + "|"; g += "] "; }
    c.equal(got.a.size(), want.size(), "rows", what + ": rows shown: " + g + "; records wanted: " + w);
    for (size_t k = 0; k < want.size(); k++) {
        const Rec& r = recs[want[k]]; auto& row = got.a[k].a;
        c.equal(row.size(), size_t(5), "cells", what + ": cells of a row");
        c.equal(row[0].s, std::to_string(r.group), "group", what + ": group of row " + std::to_string(k) + " of " + g);
        c.equal(row[1].s, std::to_string(r.line), "line", what + ": line of row " + std::to_string(k) + " of " + g);
        c.equal(row[2].s, r.file, "file", what + ": file of row " + std::to_string(k));
        c.equal(row[3].s, r.name, "name", what + ": expression of row " + std::to_string(k) + " of " + g);
        try { c.check(JsonParser::parse(row[4].s) == JsonParser::parse(r.data), "value", what + ": value " + row[4].s + " of row " + std::to_string(k) + ", logged " + r.data); }
        catch (const std::runtime_error& e) { c.fail("value", what + ": value " + row[4].s + " of row " + std::to_string(k) + ": " + e.what()); }
    }
}
static Json show(mc::Case& c, const std::string& steps) {
    std::string a = browser().ask("{\"page\":\"page.html\",\"steps\":[" + steps + "]}");
    Json j = JsonParser::parse(a);
    for (auto& m : j.o) if (m.first == "error") c.fail("page", "the page does not work: " + m.second.s);
    return j.at("ok");
}
static std::vector<Rec> writeCalls(const std::vector<int>& kinds) {
    Quiet q; unlink("page.html");
    std::vector<Rec> r; int g = 0;
    HtmlLogger l("page.html");
    if (kinds.empty()) l.create("page.html");
    for (int k : kinds) {
        switch (k) {
        case 0: l.writeVar(5, "a.cpp", "x", 1); r.push_back({g, 5, "a.cpp", "x", "1", true, 1}); break;
        case 1: l.writeVar(7, "a.cpp", "x", 12, "y", 3); r.push_back({g, 7, "a.cpp", "x", "12", true, 12}); r.push_back({g, 7, "a.cpp", "y", "3", true, 3}); break;
        case 2: l.writeVar(5, "b.cpp", "y", -2.5, "x", 3, "z", 12); r.push_back({g, 5, "b.cpp", "y", "-2.5", true, -2.5}); r.push_back({g, 5, "b.cpp", "x", "3", true, 3}); r.push_back({g, 5, "b.cpp", "z", "12", true, 12}); break;
        case 3: l.writeVar(9, "b.cpp", "text", std::string("a b"), "list", std::vector<int>{1, 2}); r.push_back({g, 9, "b.cpp", "text", "\"a b\"", false, 0}); r.push_back({g, 9, "b.cpp", "list", "[1,2]", false, 0}); break;
        default: l.writeVar(7, "a.cpp", "x", 3, "x", 1); r.push_back({g, 7, "a.cpp", "x", "3", true, 3}); r.push_back({g, 7, "a.cpp", "x", "1", true, 1});
        }
        g++;
    }
    return r;
}
static Filter menu(int k) {
    static const Filter f[] = {{0, 0, "x", 3, 0}, {0, 1, "x", 1, 0}, {0, 2, "x", 3, 0}, {0, 3, "x", 0, 12}, {0, 1, "y", -3, 0}, {0, 2, "y", -2.5, 0}, {0, 0, "z", 100, 0}, {0, 2, "none", 0, 0}};
    Filter r = f[k / 2]; r.rule = k % 2; return r;
}
static std::string stepsOf(int line, const std::vector<Filter>& fs, bool setEach) {
    std::string s; auto set = [&](size_t i) { auto& f = fs[i]; char b[256]; snprintf(b, sizeof b, ",[\"set\",%zu,%d,\"%s\",%d,\"%g\",\"%g\"]", i, f.rule, f.name.c_str(), f.cond, f.a, f.b); s += b; };
    s = "[\"line\",\"" + std::to_string(line) + "\"]";
    for (size_t i = 0; i < fs.size(); i++) { s += ",[\"press\",\"add filter\"]"; if (setEach) set(i); }
    if (!setEach) for (size_t i = 0; i < fs.size(); i++) set(i);
    return s;
}
MC_GROUP(g_filter, "calls and filters") {
    int n = c.choose(4); std::vector<int> kinds; for (int i = 0; i < n; i++) kinds.push_back(c.choose(5));
    int nf = c.choose(3); std::vector<Filter> fs; for (int i = 0; i < nf; i++) fs.push_back(menu(c.choose(16)));
    int line = c.choose(4);
    if (!c.run.thorough && n == 3 && nf == 2 && (kinds[0] > kinds[1] || line > 1 || kinds[2] == 3)) c.skip();
    c.go();
    static const int lines[] = {-1, 5, 7, 100};
    auto recs = writeCalls(kinds);
    std::string d = "calls"; for (int k : kinds) d += " " + std::to_string(k); d += "; line " + std::to_string(lines[line]);
    for (auto& f : fs) d += "; " + std::string(f.rule ? "group" : "row") + " where " + f.name + " " + std::to_string(f.cond) + " " + std::to_string(f.a);
    c.note(d);
    Json j = show(c, stepsOf(lines[line], fs, true) + ",[\"press\",\"filter\"],[\"press\",\"show all data\"],[\"press\",\"filter\"]");
    std::vector<int> all; for (size_t i = 0; i < recs.size(); i++) all.push_back((int)i);
    auto want = model(recs, lines[line], fs);
    size_t at = 0;
    compare(c, recs, all, j.a.at(at++), "when opened");
    for (int i = 0; i < nf; i++) compare(c, recs, all, j.a.at(at++), "after adding a filter");
    compare(c, recs, want, j.a.at(at++), "after filter");
    compare(c, recs, all, j.a.at(at++), "after show all data");
    compare(c, recs, want, j.a.at(at++), "after filter again");
    c.op(); c.state(mc::hashStr(d)); uint64_t h = 0; for (int i : want) h = mc::mix(h, i + 1); c.out(h);
}
#define X10(b) "x", b + 0, "x", b + 1, "x", b + 2, "x", b + 3, "x", b + 4, "x", b + 5, "x", b + 6, "x", b + 7, "x", b + 8, "x", b + 9
#define X110(b) X10(b), X10(b + 10), X10(b + 20), X10(b + 30), X10(b + 40), X10(b + 50), X10(b + 60), X10(b + 70), X10(b + 80), X10(b + 90), X10(b + 100)
MC_GROUP(g_many, "many records and filters") {
    static const std::vector<size_t> ns = sizes::upTo(c.run.thorough ? 4200 : 600), fns = sizes::upTo(c.run.thorough ? 140 : 40);
    size_t n = ns[c.choose((int)ns.size())]; int what = c.choose(5); size_t nf = fns[c.choose((int)fns.size())];
    c.go();
    if ((what != 4 && nf != 3) || (what == 4 && (n < 30 || n > 300))) c.skip();
    unlink("page.html"); std::vector<Rec> recs; std::vector<Filter> fs; std::string d = std::to_string(n) + " calls, kind " + std::to_string(what);
    { Quiet q; HtmlLogger l("page.html"); if (n == 0) l.create("page.html");
        auto one = [&](int line, const std::string& name, int v) { recs.push_back({(int)0, line, "m.cpp", name, std::to_string(v), true, (double)v}); };
        int g = 0;
        for (size_t i = 0; i < n; i++, g++) { size_t at = recs.size();
            if (i % 3 == 0) { l.writeVar(5, "m.cpp", "x", (int)i, "y", -(int)i); one(5, "x", (int)i); one(5, "y", -(int)i); } else { l.writeVar(6, "m.cpp", "x", (int)i); one(6, "x", (int)i); }
            for (; at < recs.size(); at++) recs[at].group = g; }
        if (what == 3) { size_t at = recs.size(); l.writeVar(7, "m.cpp", X110(1000)); for (int k = 0; k < 110; k++) one(7, "x", 1000 + k); for (; at < recs.size(); at++) recs[at].group = g; g++; l.writeVar(8, "m.cpp", "x", 5000); one(8, "x", 5000); recs.back().group = g; }
    }
    int line = -1;
    switch (what) {
    case 0: break;
    case 1: fs.push_back({0, 1, "x", -1, 0}); break;                       // every x
    case 2: fs.push_back({1, 2, "y", -(double)(n / 3 * 3 / 2 / 3 * 3), 0}); line = 5; break;
    case 3: fs.push_back({0, 0, "x", 1105, 0}); fs.push_back({1, 2, "x", 1109, 0}); break;   // many rows of a group shown, then the whole
    default: for (size_t i = 0; i < nf; i++) fs.push_back({(int)(i % 2), 2, i + 1 == nf ? "x" : "none", (double)(i + 1 == nf ? n - 1 : i), 0}); d += ", " + std::to_string(nf) + " filters";
    }
    c.note(d);
    Json j = show(c, stepsOf(line, fs, true) + ",[\"press\",\"filter\"]");
    std::vector<int> all; for (size_t i = 0; i < recs.size(); i++) all.push_back((int)i);
    compare(c, recs, all, j.a.at(0), "when opened"); compare(c, recs, model(recs, line, fs), j.a.at(fs.size() + 1), "after filter");
    c.op(); c.state(mc::hashStr(d)); c.out(n * 8 + what);
}
MC_GROUP(g_session, "sessions") {      // the filters changed between presses
    int len = 1 + c.choose(c.run.thorough ? 5 : 4); std::vector<int> ops; for (int i = 0; i < len; i++) ops.push_back(c.choose(8));
    c.go();
    auto recs = writeCalls({2, 1, 0, 4});
    std::vector<int> all; for (size_t i = 0; i < recs.size(); i++) all.push_back((int)i);
    std::vector<std::vector<int>> want{all}; std::vector<int> cur = all; std::vector<Filter> fs; int line = -1; std::string s, d;
    auto add = [&](const std::string& x) { s += (s.empty() ? "" : ",") + x; };
    for (int o : ops) {
        d += std::to_string(o) + " ";
        switch (o) {
        case 0: add("[\"press\",\"add filter\"]"); fs.push_back({0, 0, "", 0, 0}); want.push_back(cur); break;
        case 1: case 2: case 3: if (!fs.empty()) { Filter f = menu(o == 1 ? 3 : o == 2 ? 4 : 8); size_t i = o == 3 ? 0 : fs.size() - 1; fs[i] = f; char b[256]; snprintf(b, sizeof b, "[\"set\",%zu,%d,\"%s\",%d,\"%g\",\"%g\"]", i, f.rule, f.name.c_str(), f.cond, f.a, f.b); add(b); } break;
        case 4: line = line == 5 ? -1 : 5; add("[\"line\",\"" + std::to_string(line) + "\"]"); break;
        case 5: line = 7; add("[\"line\",\"7\"]"); break;
        case 6: add("[\"press\",\"filter\"]"); cur = model(recs, line, fs); want.push_back(cur); break;
        default: add("[\"press\",\"show all data\"]"); cur = all; want.push_back(cur);
        }
        c.op();
    }
    add("[\"press\",\"filter\"]"); want.push_back(model(recs, line, fs));
    c.note(d);
    Json j = show(c, s);
    c.equal(j.a.size(), want.size(), "tables", "tables shown");
    for (size_t i = 0; i < want.size(); i++) compare(c, recs, want[i], j.a[i], "table " + std::to_string(i));
    c.state(mc::hashStr(s)); uint64_t h = 0; for (auto& w : want) for (int i : w) h = mc::mix(h, i + 1); c.out(h);
}
MC_GROUP(g_texts, "texts") {           // shown as they were logged
    static const std::vector<std::string> texts = [] {
        std::vector<std::string> r{"</script>", "<!--", "<script>", "std::vector<int>()", "a < b && c > d", "&lt;", "&amp;amp;", "</td>", "<b>", "\t\r\n", "${x}", "</table>"}; static const char alpha[] = {'a', '"', '\\', '\'', ' ', '<', '>', '&', '/', ';'};
        std::vector<std::string> last{""}; for (int l = 0; l < 3; l++) { std::vector<std::string> n; for (auto& s : last) for (char ch : alpha) n.push_back(s + ch); r.insert(r.end(), n.begin(), n.end()); last = n; } return r; }();
    int i = c.choose((int)texts.size()), what = c.choose(3);
    c.go();
    const std::string& t = texts[i]; c.note(t);
    std::vector<Rec> recs;
    {
        Quiet q; unlink("page.html"); HtmlLogger l("page.html");
        std::string file = what == 0 ? t : "f.cpp", name = what == 1 ? t : "e";
        if (what < 2) { l.writeVar(1, file.c_str(), name.c_str(), 5, "second", 7); recs = {{0, 1, file, name, "5", true, 5}, {0, 1, file, "second", "7", true, 7}}; }
        else { l.writeVar(1, file.c_str(), name.c_str(), t, "second", std::vector<std::string>{t, "x", t}); recs = {{0, 1, file, name, jsText(t), false, 0}, {0, 1, file, "second", "[" + jsText(t) + ",\"x\"," + jsText(t) + "]", false, 0}}; }
    }
    Json j = show(c, "[\"press\",\"filter\"]");
    compare(c, recs, {0, 1}, j.a.at(0), "when opened");
    compare(c, recs, {0, 1}, j.a.at(1), "after filter");
    c.op(); c.state(mc::hashStr(t, what)); c.out(mc::hashStr(t));
}
MC_MAIN
