// CAnyValue: binary and JSON round trips, robustness of the decoders, value semantics.
#include <errno.h>
#include <float.h>
#include <math.h>
#include "anyval.h"
static const uint64_t UI[] = { 0, 1, 127, 128, 254, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 9999999999999999999ull, 10000000000000000000ull, 0xffffffffffffffffull };
static const int64_t SI[] = { -1, -127, -128, -129, -32767, -32768, -32769, -2147483647, -2147483648ll, -2147483649ll, -999999999999999999ll, -1000000000000000000ll, INT64_MIN + 1, INT64_MIN };
static const double FL[] = { 0.0, -0.0, 1.5, -2.25, 0.1, 1e15, 123456789.125, 1e-300, DBL_MAX, DBL_MIN, -DBL_MAX, 5e-324, 1e16, 100.0 };
static const size_t SL[] = { 0, 1, 2, 254, 255, 256, 257, 65535, 65536, 70000 };
#define N(a) ((int)(sizeof(a) / sizeof(a[0])))
static string blob(size_t n) { string s; for (size_t i = 0; i < n; i++) s += (char)(i * 7 + 1); return s; }
static V leaf() {
    int k = mc::choose(3 + N(UI) + N(SI) + N(FL) + N(SL) + 4);
    if (k == 0) return V(); if (k < 3) return V(V::BOOL, k - 1); k -= 3;
    if (k < N(UI)) return V(V::UINT, UI[k]); k -= N(UI); if (k < N(SI)) return V(V::SINT, SI[k]); k -= N(SI); if (k < N(FL)) return V::flt(FL[k]); k -= N(FL);
    if (k < N(SL)) return V::str(blob(SL[k])); k -= N(SL);
    static const char *S[] = { "a\"b\\c/d\b\f\n\r\t\x01\x1f", "\xc3\xa9\xe4\xb8\xad\xf0\x9f\x98\x80", "</x>]]>&lt;", "\x7f\xff\xfe" }; if (k == 3) return V::str(string("a\0b\0", 4)); return V::str(S[k]);
}
static V small() { static const int K = 7; switch (mc::choose(K)) { case 0: return V(V::UINT, 300); case 1: return V::str("s"); case 2: return V(); case 3: return V(V::SINT, -200); case 4: return V(V::BOOL, 1); case 5: return V::flt(2.5); default: return V::str(""); } }
static V tree(int depth, int width) {
    int k = mc::choose(depth > 0 ? 3 : 1); if (k == 0) return small();
    V r(k == 1 ? V::VEC : V::MAP); int n = mc::choose(width + 1);
    static const char *K[] = { "a", "", "k\"2" };
    for (int i = 0; i < n; i++) { V e = tree(depth - 1, width > 1 ? width - 1 : 1); if (k == 1) r.v.push_back(e); else r.m[K[i]] = e; }
    return r;
}
static int nopick(int) { return 0; }
// decode from a heap block of exactly this size; false if refused
static bool lib_decode(const string &b, CAnyValue &c) { char *h = new char[b.size() ? b.size() : 1]; memcpy(h, b.data(), b.size()); bool ok = true; char *x = b.size() ? h : h + 1; try { c.decode(x, b.size()); } catch (std::exception &) { ok = false; } delete[] h; return ok; }
static bool lib_json(const string &b, CAnyValue &c) { char *h = new char[b.size() ? b.size() : 1]; memcpy(h, b.data(), b.size()); bool ok = true; char *x = b.size() ? h : h + 1; try { c.decodeJSON(x, b.size()); } catch (std::exception &) { ok = false; } delete[] h; return ok; }
static void bin_trip(const V &v) {
    mc::op("value %s", show(v).c_str()); CAnyValue c = build(v); same(c, v, "anyvalue:built", "after building");
    string b = "xx"; c.encode(b); MC_CHECK(b.compare(0, 2, "xx") == 0, "anyvalue:encode", "encode(buffer) destroys what the buffer held"); b.erase(0, 2); MC_CHECK(c.encode() == b, "anyvalue:encode", "encode() and encode(buffer) differ");
    V w; size_t p = 0; bool odd = false; MC_CHECK(dec(b, p, w, odd) && p == b.size(), "anyvalue:encoding", "the encoding of %s is not well formed: %s", show(v).c_str(), mc::esc(b).c_str());
    MC_CHECK(w == v, "anyvalue:encoding", "%s is encoded as %s", show(v).c_str(), show(w).c_str());
    CAnyValue d; MC_CHECK(lib_decode(b, d), "anyvalue:round trip", "the encoding of %s is refused", show(v).c_str()); same(d, v, "anyvalue:round trip", "after encode and decode"); same(c, v, "anyvalue:encode", "encode changed the value");
    MC_CHECK(d.encode() == b, "anyvalue:round trip", "encoding again gives other bytes"); mc::step(4); mc::state(mc::hash(b));
}
static void s_leaf() { V v = leaf(); mc::nontrivial(); int k = mc::choose(3); if (k == 0) bin_trip(v); else if (k == 1) { V r(V::VEC); r.v.push_back(V(V::UINT, 7)); r.v.push_back(v); r.v.push_back(V::str("end")); bin_trip(r); } else { V r(V::MAP); r.m[mc::choose(2) ? blob(255) : "k"] = v; r.m["z"] = V(V::UINT, 1); bin_trip(r); } }
static void s_tree() { V v = tree(3, mc::tier(2, 3)); if (v.t >= V::VEC) mc::nontrivial(); bin_trip(v); }
// every constructor
static void s_ctor() {
    uint64_t u = 0; int k = mc::choose(N(UI) + N(SI)); u = k < N(UI) ? UI[k] : SI[k - N(UI)]; V e; CAnyValue c; mc::nontrivial();
#define CT(T) { T x = (T)u; c = CAnyValue(x); e = V(x < 0 ? V::SINT : V::UINT, (uint64_t)x); } break
    switch (mc::choose(14)) { case 0: CT(char); case 1: CT(unsigned char); case 2: CT(short); case 3: CT(unsigned short); case 4: CT(int); case 5: CT(unsigned int); case 6: CT(long); case 7: CT(unsigned long); case 8: CT(long long); case 9: CT(unsigned long long);
        case 10: c = CAnyValue(u != 0); e = V(V::BOOL, u != 0); break; case 11: { float f = (float)(int64_t)u; c = CAnyValue(f); e = V::flt(f); break; } case 12: { double f = (double)u; c = CAnyValue(f); e = V::flt(f); break; } case 13: { string s = mc::strf("%llu", (unsigned long long)u); c = CAnyValue(s.c_str()); e = V::str(s); break; } }
    same(c, e, "anyvalue:built", "constructed"); bin_trip(e);
}
// all widths a sender may choose
static void s_wire() {
    V v; switch (mc::choose(3)) { case 0: v = leaf(); break; case 1: v = tree(2, 2); break; case 2: { static const int64_t P[] = { 0, 1, 127, 128, 255, 32767, 32768, 70000, 0x7fffffff, 0x80000000ll, INT64_MAX }; v = V(V::SINT, P[mc::choose(11)]); break; } }
    mc::nontrivial(); string b; enc(b, v, mc::choose); mc::op("%s as %s", show(v).c_str(), mc::esc(b, 40).c_str());
    CAnyValue c; MC_CHECK(lib_decode(b, c), "anyvalue:valid refused", "a valid encoding of %s is refused", show(v).c_str()); same(c, v, "anyvalue:decoded", "decoded");
    string b2 = c.encode(); V w; size_t p = 0; bool odd = false; MC_CHECK(dec(b2, p, w, odd) && p == b2.size() && w == v, "anyvalue:encoding", "decoded %s is encoded again as %s", show(v).c_str(), show(w).c_str());
    MC_CHECK(lib_decode(b + mc::strf("%c", mc::choose(2) * 5), c), "anyvalue:valid refused", "a value followed by other data is refused"); same(c, v, "anyvalue:decoded", "decoded again into the same object"); mc::step(3); mc::state(mc::hash(b));
}
// ---------------------------------------------------------------- arbitrary bytes
static void try_bytes(const string &b) {
    V w; size_t p = 0; bool odd = false; bool valid = dec(b, p, w, odd); CAnyValue c; mc::step();
    if (valid) mc::nontrivial();
    bool ok = lib_decode(b, c);
    if (valid && !odd) { MC_CHECK(ok, "anyvalue:valid refused", "%s is refused", mc::esc(b).c_str()); same(c, w, "anyvalue:decoded", mc::esc(b).c_str()); }
    if (!valid) MC_CHECK(!ok, "anyvalue:garbage accepted", "%s is accepted", mc::esc(b).c_str());
    if (ok && odd) see(c);
    // the object stays usable
    c.clear(); c["k"] = 1; V m(V::MAP); m.m["k"] = V(V::UINT, 1); same(c, m, "anyvalue:unusable", "after decoding and clear()"); mc::state(mc::hash(b.substr(0, 3), valid));
}
static void s_bytes() { int n = 1 + mc::choose(2); string b; for (int i = 0; i < n; i++) b += (char)mc::choose(256); try_bytes(b); }
static void s_bytes2() {  // longer strings over the bytes that matter
    static const unsigned char A[] = { 0, 1, 2, 4, 5, 7, 8, 9, 10, 11, 12, 13, 16, 17, 255 }; int n = mc::tier(5, 6); string b;
    static const unsigned char T[] = { 1, 2, 3, 4, 5, 6, 7, 8, 10, 14, 15, 16 }; b += (char)T[mc::choose(N(T))];
    if (b[0] == 7 || b[0] == 8) { int k = mc::choose(5); b += string("\0\0", 2); b += (char)(k == 4); b += (char)(k == 4 ? 0 : k); }
    for (int i = 0; i < n - 1; i++) { int k = mc::choose(N(A) + 1); if (k == N(A)) break; b += (char)A[k]; } try_bytes(b);
}
static void s_damage() {   // valid encodings cut short or with one byte changed
    static V v[6]; if (v[0].t == V::NUL) { v[0] = V(V::MAP); v[0].m["a"] = V(V::UINT, 5); v[0].m["bc"] = V::str("xyz"); v[0].m["v"] = V(V::VEC); v[0].m["v"].v.push_back(V(V::SINT, -70000)); v[0].m["v"].v.push_back(V()); v[1] = V(V::VEC); v[1].v.push_back(v[0]); v[1].v.push_back(V::flt(1.5)); v[2] = V(V::MAP); v[2].m["only"] = V(); v[3] = V::str(blob(300)); v[4] = V(V::MAP); v[4].m["m"] = v[0]; v[4].m["n"] = V(V::BOOL, 1); v[5] = V(V::UINT, 1ull << 40); }
    string b; enc(b, v[mc::choose(6)], nopick); int k = mc::choose(3);
    if (k == 0) b.resize(mc::choose(b.size())); else if (k == 1) { int i = mc::choose(b.size() < 64 ? b.size() : 64); b[i] = mc::choose(256); } else { int i = mc::choose(b.size() < 64 ? b.size() : 64); b[i] ^= 1 << mc::choose(8); b.resize(b.size() - mc::choose(3)); }
    try_bytes(b);
}
// duplicate keys, customer types, reused objects: whatever is decided, nothing breaks
static void s_dup() {
    static V alt[7]; if (alt[1].t == V::NUL) { alt[1] = V(V::UINT, 0x41414141); alt[2] = V::str("text"); alt[3] = V(V::VEC); alt[3].v.push_back(V(V::UINT, 1)); alt[4] = V(V::MAP); alt[4].m["q"] = V(V::UINT, 2); alt[5] = V::flt(3.25); alt[6] = V(V::BOOL, 1); }
    mc::nontrivial(); int n = 2 + mc::choose(2); string b; V last; b += (char)8; be(b, n, 4); for (int i = 0; i < n; i++) { b += (char)1; b += 'k'; last = alt[mc::choose(7)]; enc(b, last, nopick); }
    CAnyValue c; if (lib_decode(b, c)) { V g = see(c); V e(V::MAP); e.m["k"] = last; MC_CHECK(g == e, "anyvalue:duplicate key", "duplicate keys give %s, the last one is %s", show(g).c_str(), show(e).c_str()); c["k"].clear(); c["k"]["sub"] = 1; see(c); }
    mc::step();
}
static void s_reuse() {
    static V alt[8]; if (alt[1].t == V::NUL) { alt[1] = V(V::UINT, 0x41414141); alt[2] = V::str("text"); alt[3] = V(V::VEC); alt[3].v.push_back(V(V::UINT, 1)); alt[4] = V(V::MAP); alt[4].m["q"] = V(V::UINT, 2); alt[5] = V::flt(3.25); alt[6] = V(V::BOOL, 1); alt[7] = V(V::SINT, -3); }
    mc::nontrivial(); CAnyValue c; V cur;
    for (int i = 0; i < 3; i++) { V v = alt[mc::choose(8)]; int how = mc::choose(3); mc::op("%s: %s", how == 0 ? "assign" : how == 1 ? "decode" : "decodeJSON", show(v).c_str()); if (how == 0) c = build(v); else if (how == 1) { string b; enc(b, v, nopick); MC_CHECK(lib_decode(b, c), "anyvalue:reuse", "decoding %s into an object that holds %s fails", show(v).c_str(), show(cur).c_str()); } else { string b = build(v).encodeJSON(); MC_CHECK(lib_json(b, c), "anyvalue:reuse", "decoding %s into an object that holds %s fails", show(v).c_str(), show(cur).c_str()); } same(c, v, "anyvalue:reuse", "decoded into a used object"); cur = v; mc::step(); }
}
static void s_deep() {     // nesting as deep as a packet allows
    static const int D[] = { 10, 100, 500, 5000, 100000, 400000 }; int n = D[mc::choose(6)], k = mc::choose(4); string b; mc::nontrivial(); mc::op("depth %d kind %d", n, k);
    if (k == 0) { for (int i = 0; i < n; i++) b += string("\x07\0\0\0\x01", 5); b += (char)12; } else if (k == 1) { for (int i = 0; i < n; i++) b += string("\x08\0\0\0\x01\x01k", 7); b += (char)12; } else if (k == 2) { b = string(n, '[') + string(n, ']'); } else { for (int i = 0; i < n; i++) b += "{\"k\":"; b += "1" + string(n, '}'); }
    CAnyValue c; bool ok = k < 2 ? lib_decode(b, c) : lib_json(b, c); if (n <= 500) MC_CHECK(ok, "anyvalue:valid refused", "nesting of %d is refused", n); mc::step(n);
}
// --------------------------------------------------------------------- JSON
static bool json_ok(V &v) { // the value JSON can carry: floats to 16 digits
    if (v.t == V::FLT) { char t[64]; snprintf(t, sizeof t, "%#.16g", v.f); v.f = strtod(t, 0); }
    for (size_t i = 0; i < v.v.size(); i++) json_ok(v.v[i]); for (map<string, V>::iterator i = v.m.begin(); i != v.m.end(); ++i) json_ok(i->second); return true;
}
static string unxml(const string &x, const V &v);
static void xml(const string &s, size_t &p, const V &v) {    // s at p is the rendering of v
    string rest = s.substr(p, 60);
#define LIT(t) { string l = (t); MC_CHECK(s.compare(p, l.size(), l) == 0, "anyvalue:xml", "expected %s, found %s", mc::esc(l).c_str(), mc::esc(s.substr(p, 40)).c_str()); p += l.size(); }
    switch (v.t) {
    case V::NUL: LIT("null"); break; case V::BOOL: LIT(v.n ? "true" : "false"); break; case V::UINT: LIT(mc::strf("%llu", (unsigned long long)v.n)); break; case V::SINT: LIT(mc::strf("%lld", (long long)v.n)); break; case V::FLT: { char t[64]; snprintf(t, sizeof t, "%#.16g", v.f); LIT(t); break; }
    case V::STR: { string got; while (s.compare(p, 9, "<![CDATA[") == 0) { size_t e = s.find("]]>", p + 9); MC_CHECK(e != string::npos, "anyvalue:xml", "unterminated CDATA"); got += s.substr(p + 9, e - p - 9); p = e + 3; } MC_CHECK(got == v.s, "anyvalue:xml", "text %s is rendered so that it reads %s", mc::esc(v.s).c_str(), mc::esc(got).c_str()); break; }
    case V::VEC: for (size_t i = 0; i < v.v.size(); i++) { LIT("<li>"); xml(s, p, v.v[i]); LIT("</li>"); } break;
    case V::MAP: for (map<string, V>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) { LIT("<" + i->first + ">"); xml(s, p, i->second); LIT("</" + i->first + ">"); } break; }
}
static void json_trip(const V &v) {
    mc::op("value %s", show(v).c_str()); CAnyValue c = build(v); string j = "pre"; c.encodeJSON(j); MC_CHECK(j.compare(0, 3, "pre") == 0, "anyvalue:encodeJSON", "encodeJSON(buffer) destroys what the buffer held"); j.erase(0, 3); MC_CHECK(c.encodeJSON() == j, "anyvalue:encodeJSON", "the two forms of encodeJSON differ");
    mc::op("json %s", mc::esc(j, 60).c_str()); V w; J r(j); int k = r.parse(w); V e = v; json_ok(e);
    MC_CHECK(k == 1, "anyvalue:json text", "%s is rendered as invalid JSON %s", show(v).c_str(), mc::esc(j).c_str()); MC_CHECK(w == e, "anyvalue:json text", "%s is rendered as %s", show(v).c_str(), mc::esc(j).c_str());
    CAnyValue d; MC_CHECK(lib_json(j, d), "anyvalue:json round trip", "%s is not read back", mc::esc(j).c_str()); same(d, e, "anyvalue:json round trip", "read back");
    string x = c.encodeXML(); size_t p = 0; xml(x, p, v); MC_CHECK(p == x.size(), "anyvalue:xml", "extra text in %s", mc::esc(x).c_str()); string h = c.encodeXMLWithHead(); MC_CHECK(h == "<?xml version=\"1.0\" encoding=\"UTF-8\"?><xmldata>" + x + "</xmldata>", "anyvalue:xml", "head"); mc::step(3); mc::state(mc::hash(j));
}
static void s_jleaf() { V v = leaf(); mc::nontrivial(); int k = mc::choose(3); if (k == 0) json_trip(v); else if (k == 1) { V r(V::VEC); r.v.push_back(v); r.v.push_back(v); json_trip(r); } else { V r(V::MAP); r.m["k"] = v; r.m["z"] = V(V::UINT, 1); json_trip(r); } }
static void s_jtree() { V v = tree(3, 2); if (v.t >= V::VEC) mc::nontrivial(); json_trip(v); }
static void s_jchars() { int c = mc::choose(256); string s; s += (char)c; int k = mc::choose(4); if (k == 1) s = "x" + s + "y"; mc::nontrivial(); if (k == 2) { V r(V::MAP); r.m[s] = V(V::UINT, c); CAnyValue a = build(r); string j = a.encodeJSON(); V w; J p(j); MC_CHECK(p.parse(w) == 1 && w == r, "anyvalue:json text", "key %s is rendered as %s", mc::esc(s).c_str(), mc::esc(j).c_str()); CAnyValue d; MC_CHECK(lib_json(j, d), "anyvalue:json round trip", "not read back"); same(d, r, "anyvalue:json round trip", "read back"); } else if (k == 3) { s += (char)mc::choose(256); json_trip(V::str(s)); } else json_trip(V::str(s)); }
static void check_text(const string &j) {
    V w; J r(j); int k = r.parse(w); CAnyValue c; mc::step(); if (k == 1) mc::nontrivial(); bool ok = lib_json(j, c);
    if (k == 1 && !r.dup && !r.lonely && !r.big) { MC_CHECK(ok, "anyvalue:json refused", "valid text %s is refused", mc::esc(j).c_str()); same(c, w, "anyvalue:json value", mc::esc(j).c_str()); }
    else if (k == 1 && ok) see(c);
    if (k == -1) { size_t f = j.find_first_not_of(" \t\r\n"); if (f != string::npos && strchr("{[\"tfn", j[f])) MC_CHECK(!ok, "anyvalue:json cut short", "%s, which is cut short, is accepted", mc::esc(j).c_str()); }
    if (ok) see(c); c.clear(); c.push_back(1); MC_CHECK(c.size() == 1, "anyvalue:unusable", "after decoding"); mc::state(mc::hash(j.substr(0, 4), k + 2));
}
static void s_uni() { char t[40]; int k = mc::choose(3); mc::nontrivial(); if (k == 0) { int hi = mc::choose(256), lo = mc::choose(256); snprintf(t, sizeof t, mc::choose(2) ? "\"\\u%04x\"" : "\"\\u%04X\"", hi * 256 + lo); } else { static const int H[] = { 0xd800, 0xd801, 0xd83d, 0xdbff, 0xdbfe }, L[] = { 0xdc00, 0xdc01, 0xde00, 0xdfff, 0xdffe, 0x0041, 0xd800 }; snprintf(t, sizeof t, k == 1 ? "\"\\u%04x\\u%04x\"" : "[\"x\\u%04x\\u%04xy\"]", H[mc::choose(5)], L[mc::choose(7)]); } check_text(t); }
static void s_numtext() { static const char *T[] = { "0", "-0", "5", "-5", "1.5", "-1.5", "1e5", "1E5", "1e+5", "1e-5", "-2E3", "1.25e2", "0.5", "18446744073709551615", "9223372036854775807", "-9223372036854775808", "10000000000000000000", "1e400", "0e0", "123456789012345678", "0.30000000000000004", "2.2250738585072014e-308" };
    string n = T[mc::choose(N(T))]; static const char *W[] = { "%s", "[%s]", "{\"a\":%s}", " %s ", "[1,%s,2]", "[ %s ]", "{\"a\":%s ,\"b\":%s}", "[%s\n]", "\t%s\r\n" }; string w = W[mc::choose(9)], o; mc::nontrivial(); for (size_t i = 0; i < w.size(); i++) if (w[i] == '%') { o += n; i++; } else o += w[i]; check_text(o); }
static void s_jtext() {    // all texts over the characters that matter
    static const char *A[] = { "{", "}", "[", "]", "\"", ",", ":", "1", "a", "\\", "null", "true", " ", "-", ".", "\"a\":", "\\u00e9", "false", "\"b\"", "0" }; int n = mc::tier(5, 6); string j; for (int i = 0; i < n; i++) { int k = mc::choose(N(A) + 1); if (k == N(A)) break; j += A[k]; } check_text(j);
}
static void s_jcut() {     // valid texts cut at every place, or with one character replaced
    static const char *T[] = { "{\"a\":1,\"b\":[true,false,null,\"x\\u0041\\n\"],\"c\":{\"d\":-1.5e3}}", " [ 1 , 2.5 , { \"k\" : \"v\" } , [ ] , { } ] ", "\"text\\\\ \\\" end\"", "[[1],[[2]],{\"a\":{\"b\":[]}}]", "{ \"key\" : null , \"t\" : true , \"f\" : false }", "[true,false,null]", "{\"a\":\"\",\"\":\"b\"}" };
    string j = T[mc::choose(7)]; int k = mc::choose(3); if (k == 0) j.resize(mc::choose(j.size() + 1)); else if (k == 1) { static const char R[] = " ,:[]{}\"\\tn1-.u"; j[mc::choose(j.size())] = R[mc::choose(15)]; } else { size_t p = mc::choose(j.size() + 1); j.insert(p, mc::choose(2) ? " " : "\n"); } check_text(j);
}
static void s_jdup() { static const char *E[] = { "1", "\"s\"", "[1]", "{\"x\":2}", "null", "true", "2.5", "[]", "{}" }; string j = "{"; int n = 2 + mc::choose(2); string last; for (int i = 0; i < n; i++) { last = E[mc::choose(9)]; j += (i ? ",\"k\":" : "\"k\":") + last; } j += "}"; mc::nontrivial(); CAnyValue c; if (lib_json(j, c)) { V w; J r(j); r.parse(w); same(c, w, "anyvalue:duplicate key", j.c_str()); } else mc::fail("anyvalue:json refused", "%s is refused", j.c_str()); mc::step(); }
// --------------------------------------------------------- value semantics
static V mv[2]; static CAnyValue *cv[2];
static V pick_v() { switch (mc::choose(6)) { case 0: return V(V::UINT, 5); case 1: return V::str("str"); case 2: return V(); case 3: { V r(V::VEC); r.v.push_back(V::str("e")); return r; } case 4: { V r(V::MAP); r.m["a"] = V(V::VEC); r.m["a"].v.push_back(V(V::UINT, 9)); return r; } default: return V::flt(0.5); } }
static void s_ops() {
    CAnyValue a, b; cv[0] = &a; cv[1] = &b; mv[0] = mv[1] = V(); mc::nontrivial(); int depth = mc::tier(4, 5);
    for (int d = 0; d < depth; d++) {
        int w = d == 0 ? 0 : mc::choose(2); CAnyValue &c = *cv[w], &o = *cv[1 - w]; V &m = mv[w], &n = mv[1 - w]; bool threw = false, want = false; int k = mc::choose(17);
        try { switch (k) {
        case 0: { V v = pick_v(); mc::op("%c = %s", 'a' + w, show(v).c_str()); m = v; c = build(v); break; }
        case 1: mc::op("%c = other", 'a' + w); m = n; c = o; break;
        case 2: { mc::op("%c[a] = other", 'a' + w); want = m.t != V::NUL && m.t != V::MAP; if (!want) { V x = n; if (m.t == V::NUL) m = V(V::MAP); m.m["a"] = x; } c["a"] = o; break; }
        case 3: { mc::op("%c.push_back(other)", 'a' + w); want = m.t != V::NUL && m.t != V::VEC; if (!want) { m.t = V::VEC; m.v.push_back(n); } c.push_back(o); break; }
        case 4: { mc::op("%c.push_front(1)", 'a' + w); want = m.t != V::NUL && m.t != V::VEC; if (!want) { m.t = V::VEC; m.v.insert(m.v.begin(), V(V::UINT, 1)); } c.push_front(1); break; }
        case 5: { mc::op("%c.pop_back", 'a' + w); want = m.t != V::NUL && m.t != V::VEC; if (!want) { m.t = V::VEC; if (!m.v.empty()) m.v.pop_back(); } c.pop_back(); break; }
        case 6: { mc::op("%c.pop_front", 'a' + w); want = m.t != V::NUL && m.t != V::VEC; if (!want) { m.t = V::VEC; if (!m.v.empty()) m.v.erase(m.v.begin()); } c.pop_front(); break; }
        case 7: mc::op("%c.clear", 'a' + w); m = V(); c.clear(); break;
        case 8: { mc::op("%c.insert(b)", 'a' + w); want = m.t != V::NUL && m.t != V::MAP; if (!want) { V x = n; m.t = V::MAP; m.m["b"] = x; } c.insert("b", o); break; }
        case 9: mc::op("%c.erase(a)", 'a' + w); if (m.t == V::MAP) m.m.erase("a"); c.erase("a"); break;
        case 10: { mc::op("%c = %c[a]", 'a' + w, 'a' + w); V x = m.t == V::MAP && m.m.count("a") ? m.m["a"] : V(); m = x; const CAnyValue &cc = c; c = cc["a"]; break; }
        case 11: { mc::op("%c = %c[0]", 'a' + w, 'a' + w); want = !(m.t == V::VEC && !m.v.empty()); if (!want) { V x = m.v[0]; m = x; } c = c[0]; break; }
        case 12: { int ix = mc::choose(3) == 0 ? -1 : 1; mc::op("%c[%d] read", 'a' + w, ix); want = !(m.t == V::VEC && ix >= 0 && ix < (int)m.v.size()); V x = see(((const CAnyValue &)c)[ix]); if (!want) MC_CHECK(x == m.v[ix], "anyvalue:element", "element %d is %s", ix, show(x).c_str()); break; }
        case 13: mc::op("%c copied", 'a' + w); { CAnyValue t(c); same(t, m, "anyvalue:copy", "copy"); t.clear(); t["x"] = c; } break;
        case 14: { mc::op("%c[a] = %c", 'a' + w, 'a' + w); if (m.t != V::MAP) { mc::prune(); } V x = m; if (!x.m.count("a")) mc::prune(); m.m["a"] = x; c["a"] = CAnyValue(c); break; }
        case 15: { mc::op("%c[a] touched, %c[0] = other", 'a' + w, 'a' + w); want = !(m.t == V::VEC && !m.v.empty()); if (!want) { V x = n; m.v[0] = x; } c[0] = o; break; }
        case 16: { mc::op("%c = %c", 'a' + w, 'a' + w); CAnyValue &r = c; c = r; break; }
        } } catch (std::exception &e) { threw = true; }
        MC_CHECK(threw == want, threw ? "anyvalue:refused" : "anyvalue:misuse accepted", "operation %d on %s: %s", k, show(m).c_str(), threw ? "refused" : "accepted");
        mc::step(); for (int i = 0; i < 2; i++) same(*cv[i], mv[i], "anyvalue:value", i == w ? "the object" : "the other object");
        mc::state(mc::hash(show(mv[0]) + show(mv[1])));
    }
}
int main(int argc, char **argv) {
    vector<mc::Space> s;
#ifdef SP_BIN
    s.push_back({ "leaves", s_leaf, false, 0, "every leaf value alone, in an array, in a map" });
    s.push_back({ "trees", s_tree, false, 0, "all trees of depth 3" });
    s.push_back({ "constructors", s_ctor, false, 0, "every constructor with every boundary value" });
    s.push_back({ "wire", s_wire, false, 0, "every choice of widths a sender may make" });
#endif
#ifdef SP_JSON
    s.push_back({ "json-leaves", s_jleaf, false, 0, "every leaf value as JSON and XML" });
    s.push_back({ "json-trees", s_jtree, false, 0, "all trees of depth 3" });
    s.push_back({ "json-characters", s_jchars, false, 0, "every byte and pair of bytes in texts and keys" });
    s.push_back({ "json-escapes", s_uni, false, 0, "every \\uXXXX escape, surrogate pairs" });
    s.push_back({ "json-numbers", s_numtext, false, 0, "number forms in all surroundings" });
#endif
#ifdef SP_ROBUST
    s.push_back({ "bytes", s_bytes, false, 0, "all byte strings of length 1-2" });
    s.push_back({ "bytes-long", s_bytes2, false, 0, "all strings over the bytes that matter" });
    s.push_back({ "damage", s_damage, false, 0, "valid encodings truncated or with one byte changed" });
    s.push_back({ "duplicates", s_dup, false, 0, "maps that give a key several times" });
    s.push_back({ "json-texts", s_jtext, false, 0, "all texts over the characters that matter" });
    s.push_back({ "json-damage", s_jcut, false, 0, "valid texts cut or changed at every place" });
    s.push_back({ "json-duplicates", s_jdup, false, 0, "objects that give a key several times" });
    s.push_back({ "nesting", s_deep, true, 0, "nesting up to 400000 levels" });
#endif
#ifdef SP_OPS
    s.push_back({ "operations", s_ops, false, 0, "operation sequences on two values" });
    s.push_back({ "reuse", s_reuse, false, 0, "assigning and decoding into used objects" });
#endif
    return mc::run(argc, argv, s, "values and texts against a reference model, encoder, decoder and parser; inputs in heap blocks of exact size; non-trivial: valid input or container value");
}
