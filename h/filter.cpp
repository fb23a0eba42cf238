// Packet boundary detection: the four filters as functions of (buffer, size).
#include <string.h>
#include <stdint.h>
#include <strings.h>
#include <arpa/inet.h>
#include "Utils.h"
#include "CPackageFilter.h"
#include "CH2ShortT3PackageFilter.h"
#include "CH2T3PackageFilter.h"
#include "CHttpPackageFilter.h"
#include "CRawPackageFilter.h"
#include "mc.h"
using namespace std; using namespace lce;
static CPackageFilter *F;
struct R { int rc, real, len, off; };
// the data lies in a heap block of exactly its size: reading past it is an error
static R ask(const string &s) {
    char *b = new char[s.size()]; memcpy(b, s.data(), s.size());
    R r; r.real = r.len = -12345; r.off = -1; r.rc = F->isWholePkg(b, s.size(), r.real, r.len);
    if (r.rc == 0) r.off = F->getRealPkgData(b, s.size()) - b;
    MC_CHECK(memcmp(b, s.data(), s.size()) == 0, "filter:input changed", "the filter writes to its input");
    delete[] b; mc::step(); mc::op("%s -> %d real %d len %d", mc::esc(s).c_str(), r.rc, r.rc ? 0 : r.real, r.rc ? 0 : r.len);
    MC_CHECK(r.rc == 0 || r.rc == -1 || r.rc == -2, "filter:result", "result %d", r.rc);
    if (r.rc == 0) MC_CHECK(r.len > 0 && r.len <= (int)s.size() && r.real >= 0 && r.off >= 0 && r.off + r.real <= r.len, "filter:packet outside data", "packet of %d (data %d at %d) in %zu bytes", r.len, r.real, r.off, s.size());
    return r;
}
// expected: total length of the first packet (>0), -1 more data needed, -2 malformed, -3 either of them
static void expect(const string &s, long total, int head, int tail) {
    R r = ask(s);
    if (total > 0) { MC_CHECK(r.rc == 0, "filter:whole packet missed", "a whole packet of %ld bytes in %zu bytes: result %d", total, s.size(), r.rc); MC_CHECK(r.len == total && r.off == head && r.real == total - head - tail, "filter:wrong boundary", "packet of %ld: reported length %d, data %d at %d", total, r.len, r.real, r.off); }
    else if (total == -1) MC_CHECK(r.rc == -1, "filter:incomplete packet", "more data is needed (%zu bytes so far): result %d", s.size(), r.rc);
    else if (total == -2) MC_CHECK(r.rc == -2, "filter:malformed packet accepted", "malformed data: result %d", r.rc);
    else MC_CHECK(r.rc != 0, "filter:malformed packet accepted", "malformed data: result 0");
    mc::state(mc::hash(s));
}
static void framed(bool lng) {
    static CH2T3PackageFilter L; static CH2ShortT3PackageFilter S; F = lng ? (CPackageFilter *)&L : (CPackageFilter *)&S;
    const int head = lng ? 5 : 3, min = head + 1;
    static const unsigned char AL[] = { 0x02, 0x03, 0x00, 0xff, 0x41 };
    int size = mc::choose(14); string s;
    unsigned char h = AL[mc::choose(5)];
    static const uint32_t VL[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 255, 256, 1024, 65534, 65535, 0x10000, 0x10006, 0x1000000, 0x06000000, 0x7fffffff, 0x80000000u, 0x80000006u, 0xfffffffau, 0xffffffffu };
    uint32_t len = VL[mc::choose(lng ? 29 : 20)];
    s += (char)h; if (lng) { s += (char)(len >> 24); s += (char)(len >> 16); } s += (char)(len >> 8); s += (char)len;
    if ((int)s.size() > size) s.resize(size);
    // body bytes that matter: each of the last four may look like a tail or a head
    static const unsigned char BL[] = { 0x03, 0x02, 0x61 };
    int nb = 0; while ((int)s.size() < size) { s += nb < 6 ? (char)BL[mc::choose(3)] : (char)0x03; nb++; }
    mc::nontrivial();
    long e;
    if (size == 0) e = -1;
    else if (h != 0x02) e = -2;
    else if (size < min) e = size < head ? -1 : (len < (uint32_t)min || len > 0x7fffffffu) ? -3 : -1;
    else if (len < (uint32_t)min || len > 0x7fffffffu) e = -2;
    else if (len > (uint32_t)size) e = -1;
    else e = (unsigned char)s[len - 1] == 0x03 ? (long)len : -2;
    expect(s, e, head, 1);
}
static void s_short() { framed(false); }
static void s_long() { framed(true); }
// large packets: every boundary size around the field's limits, whole, one short, one more
static void s_big() {
    static CH2T3PackageFilter L; static CH2ShortT3PackageFilter S; bool lng = mc::choose(2); F = lng ? (CPackageFilter *)&L : (CPackageFilter *)&S;
    static const uint32_t VL[] = { 6, 127, 128, 255, 256, 257, 32767, 32768, 32769, 65279, 65280, 65534, 65535, 65536, 65537, 131072, 1048576, 16777215, 16777216, 16777217 };
    uint32_t len = VL[mc::choose(lng ? 20 : 13)]; int d = mc::choose(4) - 1;   // -1..2 relative to whole
    string s(len, (char)0x02); s[0] = 2; int o = 1; if (lng) { s[o++] = len >> 24; s[o++] = len >> 16; } s[o++] = len >> 8; s[o++] = len; s[len - 1] = 3;
    bool bad = d >= 0 && mc::choose(2); if (bad) s[len - 1] = 2;
    if (d < 0) s.resize(len - 1); else s += string(d, (char)3);
    mc::nontrivial(); expect(s, d < 0 ? -1 : bad ? -2 : (long)len, lng ? 5 : 3, 1);
}
static void s_raw() {
    static CRawPackageFilter W; F = &W; int n = mc::choose(7); string s; for (int i = 0; i < n; i++) s += "\x02\x03\x00\xff"[mc::choose(4)];
    mc::nontrivial(); expect(s, n ? n : -1, 0, 0);
}
// ---- HTTP ------------------------------------------------------------------
static bool number(const string &v, long long &n) { // 1*DIGIT with optional white space around
    size_t i = 0, j = v.size(); while (i < j && (v[i] == ' ' || v[i] == '\t')) i++; while (j > i && (v[j - 1] == ' ' || v[j - 1] == '\t')) j--;
    if (i == j || j - i > 17) return false; n = 0; for (; i < j; i++) { if (v[i] < '0' || v[i] > '9') return false; n = n * 10 + v[i] - '0'; } return true;
}
// strict reading of the head; anything odd may be answered either way
static void http_expect(const string &s) {
    size_t e = s.find("\r\n\r\n");
    if (e == string::npos) { R r = ask(s); MC_CHECK(r.rc != 0, "filter:incomplete packet", "the head has not ended, result 0"); size_t p = s.find("\r\n"); if (r.rc == -2) { /* only a hopeless head may be refused early */ MC_CHECK(p != string::npos && s.find('-') != string::npos, "filter:incomplete packet", "a prefix of a valid request is refused"); } mc::state(mc::hash(s)); return; }
    string head = s.substr(0, e + 4); int cls = 0; bool odd = false; long long len = 0;
    size_t p = head.find("\r\n") + 2; if (p == 2) odd = true;
    while (p < e + 2) {
        size_t q = head.find("\r\n", p); string l = head.substr(p, q - p); p = q + 2;
        if (l.find('\r') != string::npos || l.find('\n') != string::npos) odd = true;
        if (strncasecmp(l.c_str(), "content-length", 14) == 0) { size_t k = l.find(':'); if (k != 14 || cls++) { odd = true; continue; } if (!number(l.substr(15), len)) odd = true; }
        else if (l.size() && (l[0] == ' ' || l[0] == '\t')) odd = true;
    }
    if (head.substr(0, head.find("\r\n")).find('\n') != string::npos) odd = true;
    if (odd) { ask(s); return; }
    if (len > 0x7fffffff - (long long)head.size()) expect(s, -2, 0, 0);
    else if ((long long)head.size() + len <= (long long)s.size()) expect(s, head.size() + len, 0, 0);
    else expect(s, -1, 0, 0);
}
// all sequences of tokens
static void s_httptok() {
    static CHttpPackageFilter H; F = &H;
    static const char *T[] = { "\r\n", "Content-Length:", "\r", "\n", ":", " ", "content-length: ", "X-Content-Length: ", "3", "10", "-1", "abc", "\r\n\r\n" };
    string s = mc::choose(2) ? "GET / HTTP/1.1\r\n" : ""; int n = mc::tier(5, 6);
    for (int i = 0; i < n; i++) { int k = mc::choose(14); if (k == 13) break; s += T[k]; }
    mc::nontrivial(); http_expect(s);
}
// well-formed requests with every combination of headers, every prefix and tail
static void s_httpmsg() {
    static CHttpPackageFilter H; F = &H;
    static const char *first[] = { "GET / HTTP/1.1", "POST /a HTTP/1.1", "GET /Content-Length:5 HTTP/1.1" };
    static const char *h[] = { "Host: x", "X-Content-Length: 9", "A: Content-Length: 7", "a:b" };
    static const char *cl[] = { "", "Content-Length: 4", "content-length:4", "CONTENT-LENGTH: \t4", "Content-Length: 4 ", "Content-Length: 0", "cOnTent-lEngth: 0004", "Content-Length: 3000000000", "Content-Length: 2147483647", "Content-Length: 99999999999999999999" };
    string s = first[mc::choose(3)]; s += "\r\n"; int a = mc::choose(5), c = mc::choose(10), b = mc::choose(5);
    if (a < 4) s += string(h[a]) + "\r\n"; if (cl[c][0]) s += string(cl[c]) + "\r\n"; if (b < 4) s += string(h[b]) + "\r\n";
    s += "\r\n"; s += mc::choose(2) ? "abcdefgh" : "\r\n\r\n\r\n\r\n";
    size_t n = mc::choose(s.size() + 1); s.resize(n); mc::nontrivial(); 
    if (c == 9 && n >= s.find("\r\n\r\n") && s.find("\r\n\r\n") != string::npos) { R r = ask(s); MC_CHECK(r.rc == -2, "filter:malformed packet accepted", "Content-Length beyond any buffer: result %d", r.rc); return; }
    http_expect(s);
}
int main(int argc, char **argv) {
    vector<mc::Space> s;
    s.push_back({ "short-head", s_short, false, 0, "all heads, lengths, sizes and tails up to 13 bytes, 0x02/len16/0x03" });
    s.push_back({ "long-head", s_long, false, 0, "the same, 0x02/len32/0x03, including lengths with the sign bit" });
    s.push_back({ "big", s_big, false, 0, "packets around the limits of the length fields" });
    s.push_back({ "raw", s_raw, false, 0, "raw data" });
    s.push_back({ "http-tokens", s_httptok, false, 0, "all sequences of head tokens" });
    s.push_back({ "http-messages", s_httpmsg, false, 0, "all header combinations, every prefix" });
    return mc::run(argc, argv, s, "buffers enumerated over the bytes that matter (marks, length fields, tails, header tokens), every size; non-trivial: always");
}
