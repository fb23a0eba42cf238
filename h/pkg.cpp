// CPackage (typed fields behind a head) and CAnyPackage (header + CAnyValue).
#ifdef SP_ANY
#include "anyval.h"
#include "CAnyPackage.h"
using lce::CAnyPackage; using lce::AnyHeader;
#else
#include <stdint.h>
#include <string.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <functional>
#include <netinet/in.h>
#include <byteswap.h>
#include "mc.h"
using namespace std;
#ifndef htonll
#define ntohll(x) __bswap_64(x)
#define htonll(x) __bswap_64(x)
#endif
#include "CPackage.h"
#endif
#ifndef SP_ANY
#pragma pack(1)
struct H5 { uint8_t a; uint32_t b; };
struct H0 { uint8_t a; };
struct H12 { uint32_t a, b, c; };
#pragma pack()
static string be(uint64_t n, int w) { string s; for (int i = w - 1; i >= 0; i--) s += (char)(n >> (8 * i)); return s; }
static uint64_t ebe(const string &s) { uint64_t n = 0; for (size_t i = 0; i < s.size(); i++) n = n << 8 | (uint8_t)s[i]; return n; }
static const uint64_t VALS[] = { 0, 1, 0x80, 0xff, 0x1234, 0x8000, 0xffff, 0x12345678, 0x80000000u, 0xffffffffu, 0x0102030405060708ull, 0x8000000000000000ull, ~0ull };
// types by number
template<class F> static void with_type(int t, F f) { switch (t) { case 0: f((char)0); break; case 1: f((unsigned char)0); break; case 2: f((short)0); break; case 3: f((unsigned short)0); break; case 4: f((int)0); break; case 5: f((unsigned int)0); break; case 6: f((long)0); break; case 7: f((unsigned long)0); break; case 8: f((long long)0); break; default: f((unsigned long long)0); break; } }
template<class H> struct M { string d; long pos; M() : d(sizeof(H), '\0'), pos(0) {} long body() const { return (long)d.size() - (long)sizeof(H); } long left() const { return body() - pos; } };
template<class H> static void same(lce::CPackage<H> &p, const M<H> &m, const char *when) {
    string got(p.data(), p.size()); MC_CHECK(got == m.d, "package:bytes", "%s: the package is %s instead of %s", when, mc::esc(got).c_str(), mc::esc(m.d).c_str());
    MC_CHECK(p.getPkgLen() == (int)m.d.size() && p.getPkgBodyLen() == m.body() && p.getPkg() == p.data() && p.getPkgBody() == p.data() + sizeof(H) && (char *)&p.head() == p.data() && (char *)p.getPkgHead() == p.data(), "package:accessors", "%s: lengths or pointers are wrong", when);
    for (int n = 0; n < 10; n++) MC_CHECK(p.isEnd(n) == (m.left() < n), "package:isEnd", "%s: isEnd(%d) is %d with %ld bytes left", when, n, p.isEnd(n), m.left());
}
template<class P, class M_> struct RdOp { P &p; M_ &m; bool viaread; template<class T> void operator()(T) { T v = (T)0x5a5a5a5a5a5a5a5aull, was = v; bool can = m.left() >= (long)sizeof(T), ok = true; try { p >> v; } catch (std::exception &) { ok = false; } mc::op("read %d bytes: %s", (int)sizeof(T), ok ? "ok" : "refused");
    MC_CHECK(ok == can, ok ? "package:read past the end" : "package:refused", "reading %d bytes with %ld left is %s", (int)sizeof(T), m.left(), ok ? "done" : "refused"); if (ok) { T e = (T)ebe(m.d.substr(m.d.size() - m.left(), sizeof(T))); MC_CHECK(v == e, "package:value", "read %llx instead of %llx", (unsigned long long)v, (unsigned long long)e); m.pos += sizeof(T); } else MC_CHECK(v == was, "package:value", "a refused read changes the variable"); } };
template<class P, class M_> struct WrOp { P &p; M_ &m; uint64_t v; int how; template<class T> void operator()(T) { T x = (T)v; mc::op("write %d bytes", (int)sizeof(T)); if (how == 0) p << x; else { size_t at = p.write(x); MC_CHECK(at == m.d.size(), "package:position", "write returns position %zu instead of %zu", at, m.d.size()); } m.d += be((uint64_t)x, sizeof(T)); } };
template<class P, class M_> struct PosOp { P &p; M_ &m; uint64_t v; int at; template<class T> void operator()(T) { T x = (T)v; if (at + sizeof(T) > m.d.size()) mc::prune(); mc::op("writePos %d bytes at %d", (int)sizeof(T), at); p.writePos(x, (size_t)at); m.d.replace(at, sizeof(T), be((uint64_t)x, sizeof(T))); } };
// every type, every value, every way
static void s_field() {
    typedef H5 H; typedef lce::CPackage<H> P; P p; M<H> m; mc::nontrivial(); int t = mc::choose(10); uint64_t v = VALS[mc::choose(13)]; int how = mc::choose(3), pre = mc::choose(4);
    for (int i = 0; i < pre; i++) { p << (unsigned char)(i + 1); m.d += (char)(i + 1); }
    if (how < 2) { WrOp<P, M<H>> o = { p, m, v, how }; with_type(t, o); } else { p.write("01234567", 8); m.d += "01234567"; PosOp<P, M<H>> o = { p, m, v, (int)sizeof(H) + pre }; with_type(t, o); }
    p << "end"; m.d += "end"; same(p, m, "written"); for (int i = 0; i < pre; i++) { unsigned char c; p >> c; m.pos++; }
    for (int i = 0; i < 5; i++) { RdOp<P, M<H>> o = { p, m, false }; with_type(t, o); same(p, m, "read"); }   // (the last ones find too few bytes left)
    mc::step(3); mc::state(mc::hash(m.d));
}
template<class H> static void op_seq(int depth) {
    typedef lce::CPackage<H> P; P p; M<H> m; bool wrote = false;
    for (int d = 0; d < depth; d++) {
        int k = mc::choose(16); if (d == 0 && depth == 4 && (k >= 3 && k <= 8)) mc::prune();   // (reading an empty package is covered at depth 3)
        switch (k) {
        case 0: { WrOp<P, M<H>> o = { p, m, 0x8182838485868788ull, mc::choose(2) }; static const int T[] = { 1, 2, 5, 9 }; with_type(T[mc::choose(4)], o); wrote = true; break; }
        case 1: { int n = mc::choose(3) ? 3 : 0; mc::op("write %d raw", n); p.write("abc", (size_t)n); m.d.append("abc", n); break; }
        case 2: mc::op("<< \"a\\0b\""); p << string("a\0b", 3); m.d.append("a\0b", 3); break;
        case 3: { static const int T[] = { 0, 3, 4, 8 }; RdOp<P, M<H>> o = { p, m, false }; with_type(T[mc::choose(4)], o); break; }
        case 4: { static const int N[] = { 0, 1, 3, 4, -1, INT32_MIN }; int n = N[mc::choose(6)]; char b[16] = "###############"; bool ok = true; try { p.read(b, n); } catch (std::exception &) { ok = false; } mc::op("read(%d)", n); bool can = n >= 0 && n <= m.left(); MC_CHECK(ok == can, ok ? "package:read past the end" : "package:refused", "read(%d) with %ld left is %s", n, m.left(), ok ? "done" : "refused"); if (ok) { MC_CHECK(memcmp(b, m.d.data() + m.d.size() - m.left(), n) == 0 && b[n] == '#', "package:value", "read(%d) gives other bytes", n); m.pos += n; } break; }
        case 5: { static const int N[] = { 0, 2, 5, -1 }; int n = N[mc::choose(4)]; string b = "keep"; bool ok = true; try { p.read(b, n); } catch (std::exception &) { ok = false; } mc::op("read(string, %d)", n); bool can = n >= 0 && n <= m.left(); MC_CHECK(ok == can, ok ? "package:read past the end" : "package:refused", "read(string, %d) with %ld left is %s", n, m.left(), ok ? "done" : "refused"); if (ok) { MC_CHECK(b == m.d.substr(m.d.size() - m.left(), n), "package:value", "read(string) gives other bytes"); m.pos += n; } break; }
        case 6: { mc::op("readString"); string b; size_t at = m.d.size() - m.left(); size_t z = m.d.find('\0', at); if (m.left() < 0) mc::fail("package:harness", "x"); string e = z == string::npos ? m.d.substr(at) : m.d.substr(at, z - at); bool ok = true; try { p.readString(b); } catch (std::exception &) { ok = false; } if (z != string::npos) MC_CHECK(ok, "package:refused", "readString is refused"); if (ok) { MC_CHECK(b == e, "package:value", "readString gives %s", mc::esc(b).c_str()); m.pos += z == string::npos ? (long)e.size() : (long)e.size() + 1; } break; }
        case 7: { int w = 1 << mc::choose(3); static const unsigned L[] = { 0, 1, 3, 255, 0x80000000u, 0xffffffffu }; unsigned n = L[mc::choose(6)]; if (w == 1) n &= 255; if (w == 2) n &= 65535; if (m.left() != 0) mc::prune(); mc::op("readString%d of length %u", w, n); m.d += be(n, w) + "xyz"; if (w == 1) p << (unsigned char)n; else if (w == 2) p << (unsigned short)n; else p << n; p << "xyz"; string b; bool ok = true; try { if (w == 1) p.readString1(b); else if (w == 2) p.readString2(b); else p.readString4(b); } catch (std::exception &) { ok = false; } MC_CHECK(ok == (n <= 3), ok ? "package:read past the end" : "package:refused", "a string of length %u with 3 bytes left is %s", n, ok ? "read" : "refused"); if (!ok) { mc::step(); p.clearBody(); m.d.resize(sizeof(H)); m.pos = 0; break; } MC_CHECK(b == string("xyz", n), "package:value", "other string"); m.pos += w + n; break; }
        case 8: { static const int O[] = { 0, 1, 4, 9, -1, -3, INT32_MAX, INT32_MIN }; int o = O[mc::choose(8)], w = mc::choose(3); long to = w == 0 ? o : w == 1 ? m.pos + (long)o : m.body() + (long)o; bool ok = w == 0 ? p.seek(o, P::S_BEG) : w == 1 ? p.seek(o, P::S_CUR) : p.seek(o, P::S_END); mc::op("seek(%d, %s): %d", o, w == 0 ? "BEG" : w == 1 ? "CUR" : "END", ok); bool in = to >= 0 && to < m.body(), edge = to == m.body(); if (w == 2 && o > 0) in = edge = false; if (!edge) MC_CHECK(ok == in, "package:seek", "seek to %ld of %ld is %s", to, m.body(), ok ? "done" : "refused"); if (ok) m.pos = to; break; }
        case 9: { mc::op("clear"); p.clear(); m = M<H>(); break; }
        case 10: { mc::op("clearBody"); p.clearBody(); m.d.resize(sizeof(H)); m.pos = 0; break; }
        case 11: { mc::op("setPkgBody"); p.setPkgBody("BODY", 4); m.d.resize(sizeof(H)); m.d += "BODY"; m.pos = 0; break; }
        case 12: { int n = (int)sizeof(H) - 1 + mc::choose(4), how = mc::choose(3); string s; for (int i = 0; i < n; i++) s += (char)(65 + i); bool ok = true; char *x = new char[n ? n : 1]; memcpy(x, s.data(), n); try { if (how == 0) p.setPkgData(x, n); else if (how == 1) p.setPkgData(s); else { P q(x, n); p = q; } } catch (std::exception &) { ok = false; } delete[] x; mc::op("setPkgData of %d", n); MC_CHECK(ok == (n >= (int)sizeof(H)), "package:short data", "%d bytes for a head of %zu are %s", n, sizeof(H), ok ? "accepted" : "refused"); if (ok) { m.d = s; m.pos = 0; } break; }
        case 13: { H h; memset(&h, 0x41 + d, sizeof h); mc::op("setPkgHead"); p.setPkgHead(h); m.d.replace(0, sizeof(H), string((char *)&h, sizeof h)); break; }
        case 14: { mc::op("copy"); P q(p); same(q, m, "the copy"); q << "more"; q.seek(0, P::S_BEG); P r; r << 1; r = p; same(r, m, "the assigned copy"); p = p; break; }
        case 15: { if (m.d.size() < sizeof(H) + 2) mc::prune(); PosOp<P, M<H>> o = { p, m, 0xa1a2, (int)sizeof(H) }; with_type(3, o); break; }
        }
        mc::step(); if (wrote) mc::nontrivial(); same(p, m, "after the operation"); mc::state(mc::hash(m.d, m.pos));
    }
}
static void s_ops() { if (mc::choose(2)) op_seq<H5>(mc::tier(4, 5)); else op_seq<H0>(mc::tier(3, 5)); }
// any bytes, read in any way: nothing outside the package
static void s_bytes() {
    typedef H0 H; typedef lce::CPackage<H> P; static const unsigned char A[] = { 0, 1, 3, 255, 128 }; int n = mc::choose(6); string s = "h" + string(n & 1 ? 40 : 0, 'f'); for (int i = 0; i < n; i++) s += (char)A[mc::choose(5)];
    P p; p.setPkgData(s.data(), (int)s.size()); M<H> m; m.d = s; mc::nontrivial(); if (n & 1) { string f; p.read(f, 40); m.pos = 40; }   // (a long package: a block of its own, so that reading behind it shows)
    for (int i = 0; i < 3; i++) { int k = mc::choose(6); string b; unsigned short w; bool ok = true; string tail = m.d.substr(m.d.size() - m.left()); int h = k == 0 ? 1 : k == 1 ? 2 : 4; mc::op("reader %d", k);
        try { if (k == 0) p.readString1(b); else if (k == 1) p.readString2(b); else if (k == 2) p.readString4(b); else if (k == 3) p.readString(b); else if (k == 4) p >> w; else ok = p.seek(1, P::S_CUR); } catch (std::exception &) { ok = false; }
        if (k < 3) { bool can = (long)tail.size() >= h && ebe(tail.substr(0, h)) <= tail.size() - h; MC_CHECK(ok == can, ok ? "package:read past the end" : "package:refused", "reader %d on %s: %s", k, mc::esc(tail).c_str(), ok ? "accepted" : "refused"); if (!ok) mc::done(); MC_CHECK(b == tail.substr(h, ebe(tail.substr(0, h))), "package:value", "reader %d", k); m.pos += h + b.size(); }
        else if (k == 3) { size_t z = tail.find('\0'); if (z != string::npos) MC_CHECK(ok && b == tail.substr(0, z), "package:value", "readString"); else if (!ok) mc::done(); m.pos += z != string::npos ? (long)z + 1 : (long)tail.size(); }
        else if (k == 4) { MC_CHECK(ok == (tail.size() >= 2), ok ? "package:read past the end" : "package:refused", "2 bytes of %zu", tail.size()); if (!ok) mc::done(); m.pos += 2; } else { if (m.left() != 1) MC_CHECK(ok == (m.left() > 1), "package:seek", "seek past the end"); if (ok) m.pos++; }
        same(p, m, "read"); mc::step(); }
    mc::state(mc::hash(s, m.pos));
}
int main(int argc, char **argv) {
    vector<mc::Space> s;
    s.push_back({ "fields", s_field, false, 0, "every type, value, position and way of writing" });
    s.push_back({ "operations", s_ops, false, 0, "operation sequences" });
    s.push_back({ "bytes", s_bytes, false, 0, "received bytes read in any way" });
    return mc::run(argc, argv, s, "typed writes and reads against a byte model; non-trivial: a field was written");
}
#else
// wire layout: 0x2, then big-endian len4 ver2 service4 cmd4 seq4 format4 uid8 ip4 errno4 flag4
static const int OFF[] = { 1, 5, 7, 11, 15, 19, 23, 31, 35, 39 }, W[] = { 4, 2, 4, 4, 4, 4, 8, 4, 4, 4 };
static const char *NAME[] = { "len", "version", "serviceId", "cmd", "seq", "format", "uid", "clientIp", "errno", "flag" };
static void hset(AnyHeader &h, int f, uint64_t v) { switch (f) { case 0: h.setLen(v); break; case 1: h.setVersion(v); break; case 2: h.setServiceId(v); break; case 3: h.setCmd(v); break; case 4: h.setSeq(v); break; case 5: h.setFormat(v); break; case 6: h.setUid(v); break; case 7: h.setClientIp(v); break; case 8: h.setErrno(v); break; case 9: h.setFlag(v); break; } }
static uint64_t hget(AnyHeader &h, int f) { switch (f) { case 0: return h.getLen(); case 1: return h.getVersion(); case 2: return h.getServiceId(); case 3: return h.getCmd(); case 4: return h.getSeq(); case 5: return h.getFormat(); case 6: return h.getUid(); case 7: return h.getClientIp(); case 8: return h.getErrno(); default: return h.getFlag(); } }
static void s_head() {
    static const uint64_t B[] = { 0, 1, 0x80, 0x0102, 0xffff, 0x01020304, 0x80000000u, 0xffffffffu, 0x0102030405060708ull, ~0ull };
    AnyHeader h; MC_CHECK(sizeof h == 43, "anypackage:head size", "the head has %zu bytes", sizeof h); string m(43, '\0'); m[0] = 2; mc::nontrivial(); MC_CHECK(memcmp(&h, m.data(), 43) == 0, "anypackage:new head", "a new head is not empty"); MC_CHECK(h.getStx() == 2, "anypackage:stx", "stx");
    for (int i = 0; i < 3; i++) { int f = mc::choose(10); uint64_t v = B[mc::choose(10)]; if (W[f] < 8 && v >> (8 * W[f])) mc::prune(); hset(h, f, v); mc::op("set %s %llx", NAME[f], (unsigned long long)v); for (int b = 0; b < W[f]; b++) m[OFF[f] + b] = (char)(v >> (8 * (W[f] - 1 - b))); string got((char *)&h, 43); MC_CHECK(got == m, "anypackage:wire", "after setting %s to %llx the head is %s", NAME[f], (unsigned long long)v, mc::esc(got, 50).c_str());
        for (int g = 0; g < 10; g++) { uint64_t e = 0; for (int b = 0; b < W[g]; b++) e = e << 8 | (uint8_t)m[OFF[g] + b]; MC_CHECK(hget(h, g) == e, "anypackage:field", "%s is %llx instead of %llx", NAME[g], (unsigned long long)hget(h, g), (unsigned long long)e); } mc::step(); }
    mc::state(mc::hash(m));
}
static V val(int k) { switch (k) { case 0: return V(); case 1: return V(V::UINT, 70000); case 2: return V::str("te\"xt"); case 3: { V r(V::MAP); r.m["k"] = V(V::SINT, -5); r.m["l"] = V(V::VEC); r.m["l"].v.push_back(V::str("")); return r; } case 4: { V r(V::VEC); r.v.push_back(V::flt(1.5)); r.v.push_back(V(V::BOOL, 1)); return r; } default: { V r(V::MAP); r.m["only"] = V::str(string(300, 'q')); return r; } } }
static int nopick(int) { return 0; }
static void s_trip() {
    int k = mc::choose(6), how = mc::choose(3), etx = mc::choose(2), again = mc::choose(6), uns = mc::choose(2); mc::nontrivial(); V v = val(k); CAnyPackage p; AnyHeader h; h.setCmd(7); h.setUid(9); if (mc::choose(2)) p.setHead(h); else p.head() = h;
    p.setRoot(build(val(again))); if (how == 0) p.encode(); else if (how == 1) p.encodeJSON(); else p.encodeXML(); p.setRoot(build(v)); mc::op("%s of %s", how == 0 ? "encode" : how == 1 ? "JSON" : "XML", show(v).c_str());
    if (how == 0) p.encode(); else if (how == 1) p.encodeJSON(); else p.encodeXML(uns); if (etx) p.setEtx(); p.head().setLen(p.size());
    string head((char *)&h, 43), got(p.data(), p.size()); h.setLen(got.size()); head.assign((char *)&h, 43); string body; CAnyValue c = build(v); if (how == 0) c.encode(body); else if (how == 1) c.encodeJSON(body); else body = c.encodeXMLWithHead(uns); if (etx) body += (char)3;
    MC_CHECK(got == head + body, "anypackage:bytes", "the package is %s instead of %s", mc::esc(got).c_str(), mc::esc(head + body).c_str()); MC_CHECK(p.getBodySize() == body.size() && p.getBodyData() == p.data() + 43, "anypackage:accessors", "body pointer or size");
    { CAnyPackage c(p), d; d["x"] = 1; d = p; MC_CHECK(string(c.data(), c.size()) == got && string(d.data(), d.size()) == got, "anypackage:copy", "a copy has other bytes"); same(c.getRoot(), v, "anypackage:copy", "copied"); same(d.getRoot(), v, "anypackage:copy", "assigned"); c.head().setSeq(99); if (v.t == V::MAP) c["y"]; d.clear(); MC_CHECK(string(p.data(), p.size()) == got && d.size() == 43, "anypackage:copy", "changing a copy changes the original, or clear keeps the body"); same(p.getRoot(), v, "anypackage:copy", "the original"); same(d.getRoot(), V(), "anypackage:clear", "cleared"); }
    if (how == 2) { if (uns) { p.encodeXML(); if (etx) p.setEtx(); MC_CHECK(string(p.data(), p.size()) == got, "anypackage:bytes", "encodeXML() is not UTF-8"); } return; }
    CAnyPackage q; q["stale"] = 1; char *x = new char[got.size()]; memcpy(x, got.data(), got.size()); bool ok = true; try { if (how == 0) { if (uns) q.decode((unsigned char *)x, got.size()); else q.decode(x, got.size()); } else { if (uns) q.decodeJSON((unsigned char *)x, got.size()); else q.decodeJSON(x, got.size()); } } catch (std::exception &) { ok = false; } delete[] x;
    MC_CHECK(ok, "anypackage:round trip", "the package is refused"); MC_CHECK(memcmp(&q.head(), head.data(), 43) == 0, "anypackage:round trip", "the head changed"); same(q.getRoot(), v, "anypackage:round trip", "decoded"); mc::step(4); mc::state(mc::hash(got));
    if (v.t == V::MAP) { string key = v.m.begin()->first; MC_CHECK(q.hasKey(key) && !q.hasKey("stale"), "anypackage:keys", "hasKey"); same(q[key], v.m[key], "anypackage:keys", "operator[]"); q.insert("n", CAnyValue(1)); v.m["n"] = V(V::UINT, 1); q.erase(key); v.m.erase(key); same(q.getRoot(), v, "anypackage:keys", "insert and erase"); q.clearBody(); same(q.getRoot(), V(), "anypackage:clear", "clearBody"); q.clear(); MC_CHECK(q.getBodySize() == 0 && memcmp(&q.head(), head.data(), 43) == 0, "anypackage:clear", "clear"); q.setBodyData("xyz", 3); MC_CHECK(q.size() == 46 && !memcmp(q.getBodyData(), "xyz", 3), "anypackage:body", "setBodyData"); q.setBodyData("a", 1); MC_CHECK(q.size() == 44, "anypackage:body", "setBodyData"); }
}
static void s_cut() {   // packages cut short or damaged, in blocks of exact size
    int k = mc::choose(6), js = mc::choose(2); V v = val(k); AnyHeader h; string b((char *)&h, 43), body; if (js) build(v).encodeJSON(body); else enc(body, v, nopick); b += body; size_t lim = b.size() > 90 ? 90 : b.size();
    int what = mc::choose(2); if (what == 0) b.resize(mc::choose(lim + 1)); else { if (lim <= 43) mc::prune(); b[43 + mc::choose(lim - 43)] = (char)mc::choose(256); }
    mc::op("%s %zu bytes: %s", js ? "JSON" : "binary", b.size(), mc::esc(b.size() > 43 ? b.substr(43) : "").c_str()); CAnyPackage q; q["stale"] = 1; bool ok = true; char *x = new char[b.size() ? b.size() : 1]; memcpy(x, b.data(), b.size()); try { if (js) q.decodeJSON(x, b.size()); else q.decode(x, b.size()); } catch (std::exception &) { ok = false; } delete[] x; mc::step();
    if (b.size() < 43) { MC_CHECK(!ok, "anypackage:short", "%zu bytes are accepted", b.size()); return; } mc::nontrivial();
    MC_CHECK(memcmp(&q.head(), b.data(), 43) == 0, "anypackage:head lost", "the head is not taken over");
    string rest = b.substr(43); if (rest.empty()) { MC_CHECK(ok, "anypackage:refused", "a package without body is refused"); same(q.getRoot(), V(), "anypackage:empty", "no body"); return; }
    if (!js) { V w; size_t p = 0; bool odd = false; bool valid = dec(rest, p, w, odd); if (!odd) { MC_CHECK(ok == valid, ok ? "anypackage:garbage accepted" : "anypackage:refused", "%s is %s", mc::esc(rest).c_str(), ok ? "accepted" : "refused"); if (ok) same(q.getRoot(), w, "anypackage:decoded", "decoded"); } }
    else { V w; J r(rest); int t = r.parse(w); if (t == 1 && !r.dup && !r.lonely && !r.big) { MC_CHECK(ok, "anypackage:refused", "%s is refused", mc::esc(rest).c_str()); same(q.getRoot(), w, "anypackage:decoded", "decoded"); } if (t == -1 && strchr("{[\"", rest[0])) MC_CHECK(!ok, "anypackage:garbage accepted", "%s is accepted", mc::esc(rest).c_str()); }
    if (ok) see(q.getRoot()); q.clear(); q["k"] = 1; q.encode(); MC_CHECK(q.getBodySize() > 0, "anypackage:unusable", "x"); mc::state(mc::hash(b));
}
int main(int argc, char **argv) {
    vector<mc::Space> s;
    s.push_back({ "head", s_head, false, 0, "sequences of three header fields" });
    s.push_back({ "round-trip", s_trip, false, 0, "values in all three formats with and without end mark" });
    s.push_back({ "damage", s_cut, false, 0, "packages cut at every place or with any byte changed" });
    return mc::run(argc, argv, s, "header layout and body against the reference encoder; non-trivial: a whole head");
}
#endif
