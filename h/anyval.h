// Reference model of CAnyValue: values, wire format, JSON.
#include <stdint.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include "CAnyValue.h"
#include "mc.h"
using namespace std; using lce::CAnyValue;
struct V {
    enum T { NUL, BOOL, UINT, SINT, FLT, STR, VEC, MAP } t; uint64_t n; double f; string s; vector<V> v; map<string, V> m;
    V(T t = NUL, uint64_t n = 0) : t(t), n(n), f(0) {}
    static V flt(double d) { V v(FLT); v.f = d; return v; }
    static V str(const string &s) { V v(STR); v.s = s; return v; }
    bool operator==(const V &o) const { if (t != o.t) return false; switch (t) { case NUL: return true; case BOOL: case UINT: case SINT: return n == o.n; case FLT: return memcmp(&f, &o.f, 8) == 0; case STR: return s == o.s; case VEC: return v == o.v; case MAP: return m == o.m; } return false; }
};
static string show(const V &v) {
    switch (v.t) { case V::NUL: return "null"; case V::BOOL: return v.n ? "true" : "false"; case V::UINT: return mc::strf("%llu", (unsigned long long)v.n); case V::SINT: return mc::strf("s%lld", (long long)v.n); case V::FLT: return mc::strf("%.17gf", v.f); case V::STR: return mc::esc(v.s, 30);
    case V::VEC: { string r = "["; for (size_t i = 0; i < v.v.size(); i++) r += (i ? "," : "") + show(v.v[i]); return r + "]"; }
    case V::MAP: { string r = "{"; for (map<string, V>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) r += mc::esc(i->first, 20) + ":" + show(i->second) + " "; return r + "}"; } }
    return "?";
}
// what the object under test says it is, through its public interface
static V see(const CAnyValue &cv) {
    CAnyValue &c = const_cast<CAnyValue &>(cv); V r;
    int kinds = c.isObject() + c.isArray() + c.isString() + c.isBool() + c.isNull() + c.isUInt() + c.isInt() + c.isFloat();
    MC_CHECK(kinds == 1, "anyvalue:kind", "%d of the is...() questions are answered yes", kinds);
    if (c.isBool()) { r.t = V::BOOL; r.n = (bool)cv; MC_CHECK(cv.asBool() == (bool)cv, "anyvalue:query", "asBool differs from operator bool"); }
    else if (c.isUInt() || c.isInt()) {
        r.t = c.isUInt() ? V::UINT : V::SINT; r.n = (unsigned long long)cv;
        MC_CHECK((uint64_t)(long long)cv == r.n && (uint64_t)(long)cv == r.n && (unsigned long)cv == r.n, "anyvalue:query", "64-bit conversions differ");
        MC_CHECK((uint64_t)cv.asUInt64() == r.n && (uint64_t)(int64_t)cv.asInt64() == r.n, "anyvalue:query", "asInt64/asUInt64 give %lld/%llu for %llu", (long long)cv.asInt64(), (unsigned long long)cv.asUInt64(), (unsigned long long)r.n);
        MC_CHECK((uint32_t)cv.asUInt() == (uint32_t)r.n && cv.asInt() == (int)r.n && (int)cv == (int)r.n && (unsigned)cv == (unsigned)r.n && (short)cv == (short)r.n && (unsigned short)cv == (unsigned short)r.n && (char)cv == (char)r.n && (unsigned char)cv == (unsigned char)r.n && (bool)cv == (r.n != 0) && cv.asBool() == (r.n != 0), "anyvalue:query", "narrow conversions of %llu", (unsigned long long)r.n);
        if (r.n <= 0xffffffffu) MC_CHECK((long long)cv.asUInt() == (long long)r.n, "anyvalue:query", "asUInt gives %lld for %llu", (long long)cv.asUInt(), (unsigned long long)r.n);
    }
    else if (c.isFloat()) { r.t = V::FLT; r.f = (double)cv; }
    else if (c.isString()) { r.t = V::STR; r.s = cv.asString(); MC_CHECK((string)cv == r.s && cv.size() == r.s.size() && (r.s.empty() || memcmp(cv.data(), r.s.data(), r.s.size()) == 0), "anyvalue:query", "string questions disagree"); }
    else if (c.isArray()) { r.t = V::VEC; for (int i = 0; i < (int)cv.size(); i++) r.v.push_back(see(cv[i])); }
    else if (c.isObject()) { r.t = V::MAP; vector<string> k = cv.keys(); MC_CHECK(k.size() == cv.size(), "anyvalue:query", "size() and keys() disagree"); for (size_t i = 0; i < k.size(); i++) { MC_CHECK(cv.hasKey(k[i]), "anyvalue:query", "hasKey denies a key"); r.m[k[i]] = see(cv[k[i]]); } }
    if (!c.isUInt() && !c.isInt() && !c.isBool()) MC_CHECK(cv.asInt64() == 0 && !cv.asBool(), "anyvalue:query", "a value that is no number gives a number");
    if (!c.isString()) MC_CHECK(cv.asString() == "", "anyvalue:query", "asString of something else");
    if (!c.isFloat()) MC_CHECK((double)cv == 0.0, "anyvalue:query", "double of something else");
    return r;
}
static CAnyValue build(const V &v) {
    switch (v.t) { case V::NUL: return CAnyValue(); case V::BOOL: return CAnyValue(v.n != 0); case V::UINT: return CAnyValue((unsigned long long)v.n); case V::SINT: return CAnyValue((long long)v.n); case V::FLT: return CAnyValue(v.f); case V::STR: return CAnyValue(v.s);
    case V::VEC: { CAnyValue r; r.push_back(1); r.pop_back(); for (size_t i = 0; i < v.v.size(); i++) r.push_back(build(v.v[i])); return r; }
    case V::MAP: { CAnyValue r; r["x"] = 1; r.erase("x"); for (map<string, V>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) r.insert(i->first, build(i->second)); return r; } }
    return CAnyValue();
}
static void same(const CAnyValue &c, const V &v, const char *sig, const char *what) { V g = see(c); MC_CHECK(g == v, sig, "%s: %s instead of %s", what, show(g).c_str(), show(v).c_str()); }
// ------------------------------------------------------------- wire format
static void be(string &o, uint64_t n, int w) { for (int i = w - 1; i >= 0; i--) o += (char)(n >> (8 * i)); }
static void enc(string &o, const V &v, int (*pick)(int)) {
    switch (v.t) {
    case V::NUL: o += (char)12; break;
    case V::BOOL: o += (char)11; o += (char)v.n; break;
    case V::UINT: { int lo = v.n <= 0xff ? 0 : v.n <= 0xffff ? 1 : v.n <= 0xffffffffu ? 2 : 3; int w = lo + pick(4 - lo); o += (char)w; be(o, v.n, 1 << w); break; }
    case V::SINT: { int64_t s = v.n; int lo = s == (int8_t)s ? 0 : s == (int16_t)s ? 1 : s == (int32_t)s ? 2 : 3; int w = lo + pick(4 - lo); o += (char)(13 + w); be(o, v.n, 1 << w); break; }
    case V::FLT: { uint64_t u; memcpy(&u, &v.f, 8); o += (char)10; be(o, u, 8); break; }
    case V::STR: { int lo = v.s.size() <= 0xff ? 0 : v.s.size() <= 0xffff ? 1 : 2; int w = lo + pick(3 - lo); o += (char)(4 + w); be(o, v.s.size(), 1 << w); o += v.s; break; }
    case V::VEC: o += (char)7; be(o, v.v.size(), 4); for (size_t i = 0; i < v.v.size(); i++) enc(o, v.v[i], pick); break;
    case V::MAP: o += (char)8; be(o, v.m.size(), 4); for (map<string, V>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) { o += (char)i->first.size(); o += i->first; enc(o, i->second, pick); } break; }
}
static uint64_t rd(const string &b, size_t &p, int w) { uint64_t n = 0; for (int i = 0; i < w; i++) n = n << 8 | (uint8_t)b[p++]; return n; }
// false: not an encoding (or cut short).  dup: some map key occurs twice, or a type byte 9 (customer defined) occurs
static bool dec(const string &b, size_t &p, V &v, bool &odd, int depth = 0) {
    if (p >= b.size()) return false;
    int t = (uint8_t)b[p++]; size_t left = b.size() - p;
    if (t <= 3) { if (left < (1u << t)) return false; v = V(V::UINT, rd(b, p, 1 << t)); return true; }
    if (t <= 6) { int w = 1 << (t - 4); if (left < (size_t)w) return false; uint64_t n = rd(b, p, w); if (n > b.size() - p) return false; v = V::str(b.substr(p, n)); p += n; return true; }
    if (t == 7) { if (left < 4) return false; uint64_t n = rd(b, p, 4); V r(V::VEC); for (uint64_t i = 0; i < n; i++) { V e; if (!dec(b, p, e, odd, depth + 1)) return false; r.v.push_back(e); } v = r; return true; }
    if (t == 8) { if (left < 4) return false; uint64_t n = rd(b, p, 4); V r(V::MAP); for (uint64_t i = 0; i < n; i++) { if (p >= b.size()) return false; size_t k = (uint8_t)b[p++]; if (k > b.size() - p) return false; string key = b.substr(p, k); p += k; V e; if (!dec(b, p, e, odd, depth + 1)) return false; if (r.m.count(key)) odd = true; r.m[key] = e; } v = r; return true; }
    if (t == 9) { odd = true; v = V(); return true; }
    if (t == 10) { if (left < 8) return false; uint64_t u = rd(b, p, 8); v = V(V::FLT); memcpy(&v.f, &u, 8); return true; }
    if (t == 11) { if (left < 1) return false; v = V(V::BOOL, b[p++] != 0); return true; }
    if (t == 12) { v = V(); return true; }
    if (t <= 16) { int w = 1 << (t - 13); if (left < (size_t)w) return false; uint64_t n = rd(b, p, w); n = w == 1 ? (int64_t)(int8_t)n : w == 2 ? (int64_t)(int16_t)n : w == 4 ? (int64_t)(int32_t)n : n; v = V(V::SINT, n); return true; }
    return false;
}
// --------------------------------------------------------------------- JSON
struct J { const string &b; size_t p; bool end; J(const string &b) : b(b), p(0), end(false) {}
    bool eof() { if (p >= b.size()) { end = true; return true; } return false; }
    void ws() { while (p < b.size() && strchr(" \t\r\n", b[p]) && b[p]) p++; }
    static void utf8(string &o, uint32_t c) { if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
    bool hex(uint32_t &c) { c = 0; for (int i = 0; i < 4; i++) { if (eof()) return false; char h = b[p]; int d = h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : -1; if (d < 0) return false; c = c * 16 + d; p++; } return true; }
    bool lonely;      // a lone surrogate: valid grammar, no defined text
    bool str(string &o) { for (;;) { if (eof()) return false; unsigned char c = b[p++]; if (c == '"') return true; if (c < 0x20) return false; if (c != '\\') { o += (char)c; continue; } if (eof()) return false; c = b[p++]; switch (c) { case '"': case '\\': case '/': o += (char)c; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
        case 'u': { uint32_t u; if (!hex(u)) return false; if (u >= 0xd800 && u < 0xdc00 && p + 1 < b.size() && b[p] == '\\' && b[p + 1] == 'u') { size_t q = p; p += 2; uint32_t l; if (!hex(l)) return false; if (l >= 0xdc00 && l < 0xe000) u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00); else p = q; } if (u >= 0xd800 && u < 0xe000) lonely = true; utf8(o, u); break; } default: return false; } } }
    bool big;         // a number outside the supported range, or minus zero
    bool num(V &v) { size_t s = p; bool neg = false, fl = false; if (p < b.size() && b[p] == '-') { neg = true; p++; } if (eof()) return false; if (b[p] == '0') p++; else if (b[p] >= '1' && b[p] <= '9') while (p < b.size() && isdigit((unsigned char)b[p])) p++; else return false; if (p < b.size() && b[p] == '.') { fl = true; p++; if (eof()) return false; if (!isdigit((unsigned char)b[p])) return false; while (p < b.size() && isdigit((unsigned char)b[p])) p++; } if (p < b.size() && (b[p] == 'e' || b[p] == 'E')) { fl = true; p++; if (p < b.size() && (b[p] == '+' || b[p] == '-')) p++; if (eof()) return false; if (!isdigit((unsigned char)b[p])) return false; while (p < b.size() && isdigit((unsigned char)b[p])) p++; }
        string t = b.substr(s, p - s); if (fl) { v = V::flt(strtod(t.c_str(), 0)); return true; } errno = 0; if (neg) { v = V(V::SINT, strtoll(t.c_str(), 0, 10)); if (v.n == 0) big = true; } else v = V(V::UINT, strtoull(t.c_str(), 0, 10)); if (errno) big = true; return true; }
    bool dup;
    bool lit(const char *w) { for (; *w; w++) { if (eof()) return false; if (b[p++] != *w) return false; } return true; }
    bool val(V &v) { ws(); if (eof()) return false; char c = b[p]; if (c == '{') { p++; V r(V::MAP); ws(); if (eof()) return false; if (b[p] == '}') { p++; v = r; return true; } for (;;) { ws(); if (eof()) return false; if (b[p++] != '"') return false; string k; if (!str(k)) return false; ws(); if (eof()) return false; if (b[p++] != ':') return false; V e; if (!val(e)) return false; if (k.size() > 255) k.resize(255); if (r.m.count(k)) dup = true; r.m[k] = e; ws(); if (eof()) return false; c = b[p++]; if (c == '}') { v = r; return true; } if (c != ',') return false; } }
        if (c == '[') { p++; V r(V::VEC); ws(); if (eof()) return false; if (b[p] == ']') { p++; v = r; return true; } for (;;) { V e; if (!val(e)) return false; r.v.push_back(e); ws(); if (eof()) return false; c = b[p++]; if (c == ']') { v = r; return true; } if (c != ',') return false; } }
        if (c == '"') { p++; v = V(V::STR); return str(v.s); } if (c == 't') { v = V(V::BOOL, 1); return lit("true"); } if (c == 'f') { v = V(V::BOOL, 0); return lit("false"); } if (c == 'n') { v = V(); return lit("null"); } return num(v); }
    // 1 valid, 0 invalid, -1 cut short (a longer text could be valid)
    int parse(V &v) { dup = lonely = big = false; if (!val(v)) return end ? -1 : 0; ws(); return p == b.size() ? 1 : 0; }
};
