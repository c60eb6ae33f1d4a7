// A strict JSON parser (js: also JavaScript strings in apostrophes and trailing commas).
#pragma once
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
struct Json {
    enum Kind { NUL, BOOL, NUM, STR, ARR, OBJ } kind = NUL;
    bool b = false;
    std::string s;                                   // text of a number or string
    std::vector<Json> a;
    std::vector<std::pair<std::string, Json>> o;
    bool operator==(const Json& x) const { return kind == x.kind && b == x.b && s == x.s && a == x.a && o == x.o; }
    bool operator!=(const Json& x) const { return !(*this == x); }
    const Json& at(const std::string& k) const { for (auto& p : o) if (p.first == k) return p.second; throw std::runtime_error("no member \"" + k + "\""); }
};
class JsonParser {
    const std::string& t; size_t i = 0; bool js;
    [[noreturn]] void bad(const std::string& m) { throw std::runtime_error(m + " at byte " + std::to_string(i) + ": ..." + t.substr(i > 40 ? i - 40 : 0, 80)); }
    void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\r')) i++; }
    char peek() { ws(); if (i >= t.size()) bad("unexpected end"); return t[i]; }
    void lit(const char* w) { for (; *w; w++, i++) if (i >= t.size() || t[i] != *w) bad("bad word"); }
    std::string str() {
        char q = t[i++]; std::string r;
        for (;;) {
            if (i >= t.size()) bad("string without end");
            unsigned char ch = t[i++];
            if (ch == (unsigned char)q) return r;
            if (ch == '\n' || ch == '\r' || (ch < 32 && !js)) bad("control character in a string");
            if (ch != '\\') { r += (char)ch; continue; }
            if (i >= t.size()) bad("string without end");
            ch = t[i++];
            switch (ch) {
            case '"': case '\\': case '/': r += (char)ch; break;
            case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break;
            case 'u': { unsigned v = 0; for (int k = 0; k < 4; k++) { if (i >= t.size() || !isxdigit((unsigned char)t[i])) bad("bad \\u"); v = v * 16 + (unsigned)(isdigit((unsigned char)t[i]) ? t[i] - '0' : (t[i] | 32) - 'a' + 10); i++; } if (v > 0x7f) bad("unexpected \\u"); r += (char)v; break; }
            case '\'': if (js) { r += '\''; break; } // fall through
            default: bad("bad escape");
            }
        }
    }
    Json val() {
        Json r; char ch = peek();
        if (ch == '{') {
            r.kind = Json::OBJ; i++;
            if (peek() == '}') { i++; return r; }
            for (;;) {
                if (peek() != '"') bad("a key is not a string");
                std::string k = str();
                for (auto& p : r.o) if (p.first == k) bad("repeated key");
                if (peek() != ':') bad("':' expected");
                i++; Json v = val(); r.o.emplace_back(k, v);
                ch = peek(); i++;
                if (ch == '}') return r;
                if (ch != ',') bad("',' expected");
            }
        }
        if (ch == '[') {
            r.kind = Json::ARR; i++;
            if (peek() == ']') { i++; return r; }
            for (;;) {
                r.a.push_back(val());
                ch = peek(); i++;
                if (ch == ']') return r;
                if (ch != ',') bad("',' expected");
                if (js && peek() == ']') { i++; return r; }
            }
        }
        if (ch == '"' || (js && ch == '\'')) { r.kind = Json::STR; r.s = str(); return r; }
        if (ch == 't') { lit("true"); r.kind = Json::BOOL; r.b = true; return r; }
        if (ch == 'f') { lit("false"); r.kind = Json::BOOL; return r; }
        if (ch == 'n') { lit("null"); return r; }
        size_t b = i;
        auto digits = [&] { size_t s = i; while (i < t.size() && isdigit((unsigned char)t[i])) i++; if (s == i) bad("a value expected"); };
        if (t[i] == '-') i++;
        if (i < t.size() && t[i] == '0') { i++; if (i < t.size() && isdigit((unsigned char)t[i])) bad("leading zero"); } else digits();
        if (i < t.size() && t[i] == '.') { i++; digits(); }
        if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) { i++; if (i < t.size() && (t[i] == '+' || t[i] == '-')) i++; digits(); }
        r.kind = Json::NUM; r.s = t.substr(b, i - b); return r;
    }
    JsonParser(const std::string& t, bool js) : t(t), js(js) {}
public:
    static Json parse(const std::string& t, bool js = false) { JsonParser p(t, js); Json r = p.val(); p.ws(); if (p.i != t.size()) p.bad("text after the value"); return r; }
};
