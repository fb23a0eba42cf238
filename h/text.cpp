// URL codec and HTTP dates (SP_URL), configuration files (SP_CFG), string helpers (SP_STR).
#include <stdint.h>
#include <string.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <fcntl.h>
#include <unistd.h>
#include <byteswap.h>
#include <time.h>
#include "Utils.h"
#include "StringHelper.h"
#include "CConfig.h"
#include "mc.h"
using namespace std;
static const char *heap(const string &s, bool nul) { static char *last; delete[] last; last = new char[s.size() + nul + (s.size() + nul == 0)]; memcpy(last, s.data(), s.size()); if (nul) last[s.size()] = 0; return last; }
#ifdef SP_URL
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static bool unurl(const string &s, string &o) { bool good = true; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '+') o += ' '; else if (s[i] == '%') { if (i + 2 < s.size() && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0) { o += (char)(hexv(s[i + 1]) * 16 + hexv(s[i + 2])); i += 2; } else { good = false; o += s[i]; } } else o += s[i]; } return good; }
static void trip(const string &s) {
    mc::op("text %s", mc::esc(s).c_str()); string e = lce::FormUrlEncode(s), back; for (size_t i = 0; i < e.size(); i++) { char c = e[i]; MC_CHECK(isalnum((unsigned char)c) || strchr("-_.+%*~", c), "url:unsafe", "byte %s is left in %s", mc::esc(string(1, c)).c_str(), mc::esc(e).c_str()); }
    MC_CHECK(unurl(e, back) && back == s, "url:encoding", "%s is encoded as %s", mc::esc(s).c_str(), e.c_str()); MC_CHECK(lce::FormUrlDecode(e) == s, "url:round trip", "%s does not come back from %s", mc::esc(s).c_str(), e.c_str()); mc::step(2); mc::state(mc::hash(e));
}
static void s_enc() { int n = mc::choose(3); string s; for (int i = 0; i < n; i++) s += (char)mc::choose(256); mc::nontrivial(); trip(s); }
static void s_dec() { static const char A[] = "%+aA0fFgG2 &=\xff"; int n = 1 + mc::choose(mc::tier(5, 6)); string s, e; for (int i = 0; i < n; i++) s += A[mc::choose(14)]; mc::op("decode %s", mc::esc(s).c_str()); bool good = unurl(s, e); if (good) mc::nontrivial(); string g; bool ok = true; try { g = lce::FormUrlDecode(s); } catch (std::exception &x) { ok = false; } MC_CHECK(ok, "url:throws", "decoding %s throws", mc::esc(s).c_str()); if (good) MC_CHECK(g == e, "url:decoded", "%s is decoded as %s", mc::esc(s).c_str(), mc::esc(g).c_str()); else MC_CHECK(g.size() <= s.size(), "url:decoded", "longer"); mc::step(); mc::state(mc::hash(g)); }
static const char *D3[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" }, *DL[] = { "Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday" }, *MO[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
static void civil(long days, int &y, int &m, int &d) { y = 1970; for (;;) { int n = y % 4 == 0 && (y % 100 || y % 400 == 0) ? 366 : 365; if (days < n) break; days -= n; y++; } static const int L[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; m = 0; for (;;) { int n = L[m] + (m == 1 && y % 4 == 0 && (y % 100 || y % 400 == 0)); if (days < n) break; days -= n; m++; } d = days + 1; }
static void s_date() {   // every day of 70 years
    int blk = mc::choose(70); mc::nontrivial(); static const int T[] = { 0, 86399, 43200, 3661, 36000 - 1 };
    for (int i = 0; i < 366; i++) { long day = blk * 366 + i; int y, m, d; civil(day, y, m, d); if (y > 2039) mc::done(); int sod = T[(day + blk) % 5]; time_t t = day * 86400l + sod; char e[64], r850[64], asc[64]; int w = (day + 4) % 7;
        snprintf(e, sizeof e, "%s, %02d %s %04d %02d:%02d:%02d GMT", D3[w], d, MO[m], y, sod / 3600, sod / 60 % 60, sod % 60); snprintf(r850, sizeof r850, "%s, %02d-%s-%02d %02d:%02d:%02d GMT", DL[w], d, MO[m], y % 100, sod / 3600, sod / 60 % 60, sod % 60); snprintf(asc, sizeof asc, "%s %s %2d %02d:%02d:%02d %04d", D3[w], MO[m], d, sod / 3600, sod / 60 % 60, sod % 60, y);
        string g = lce::GetGMTDate(t); MC_CHECK(g == e, "date:format", "%ld is written %s instead of %s", (long)t, g.c_str(), e); MC_CHECK(lce::Gmt2Time(heap(e, true)) == t, "date:read", "%s is read as %ld instead of %ld", e, (long)lce::Gmt2Time(e), (long)t);
        MC_CHECK(lce::Gmt2Time(heap(asc, true)) == t, "date:read", "%s is read as %ld instead of %ld", asc, (long)lce::Gmt2Time(asc), (long)t); if (y >= 1970 && y < 2038) MC_CHECK(lce::Gmt2Time(heap(r850, true)) == t, "date:read", "%s is read as %ld instead of %ld", r850, (long)lce::Gmt2Time(r850), (long)t); mc::step(4); }
    mc::state(blk);
}
static void s_badd() { static const char *B[] = { "Sun, 06 Nov 1994 08:49:37 GMT", "Sunday, 06-Nov-94 08:49:37 GMT", "Sun Nov  6 08:49:37 1994", "Sat, 1 Jan 2000 00:00:00 GMT" }; string s = B[mc::choose(4)]; int k = mc::choose(3); if (k == 0) s.resize(mc::choose(s.size() + 1)); else { size_t p = mc::choose(s.size()); if (k == 1) { static const char R[] = " 0-:xJA9,\x80"; s[p] = R[mc::choose(10)]; } else { s.erase(p, 1); s.resize(mc::choose(s.size() + 1)); } } mc::op("%s", mc::esc(s).c_str()); mc::nontrivial(); time_t t = lce::Gmt2Time(heap(s, true)); static const char *ok[] = { "" }; (void)ok; mc::step(); mc::state(mc::hash(s, t)); if (s.empty() || s.find(' ') == string::npos || s.find(':') == string::npos) MC_CHECK(t == 0, "date:garbage", "%s is read as %ld", mc::esc(s).c_str(), (long)t); }
static void s_hex() { int c = mc::choose(256); string h = lce::charToHex((char)c); MC_CHECK(h == mc::strf("%02X", c), "hex:write", "%d is written %s", c, h.c_str()); MC_CHECK((uint8_t)lce::hexToChar(h[0], h[1]) == c, "hex:read", "%s is read as %d", h.c_str(), lce::hexToChar(h[0], h[1])); string l = mc::strf("%02x", c); MC_CHECK((uint8_t)lce::hexToChar(l[0], l[1]) == c, "hex:read", "%s is read wrong", l.c_str()); static const uint32_t IP[] = { 0, 0x7f000001, 0x01020304, 0xffffffff, 0xc0a80001, 0x0a0000ff }; uint32_t ip = IP[c % 6] ^ (c << 8); MC_CHECK(lce::InetNtoA(ip) == mc::strf("%u.%u.%u.%u", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255), "ip:text", "%08x is written %s", ip, lce::InetNtoA(ip).c_str()); mc::nontrivial(); mc::step(3); mc::state(c); }
#endif
#ifdef SP_STR
static const char AB[] = "ab, "; 
static string word(int max) { int n = mc::choose(max + 1); string s; for (int i = 0; i < n; i++) s += AB[mc::choose(2)]; return s; }
static void s_split() { string s = word(mc::tier(7, 9)), sep = word(3); mc::op("split %s at %s", mc::esc(s).c_str(), mc::esc(sep).c_str()); if (!sep.empty()) mc::nontrivial(); vector<string> r, e; r.push_back("kept"); e.push_back("kept"); if (sep.empty()) e.push_back(s); else { size_t p = 0, q; while ((q = s.find(sep, p)) != string::npos) { e.push_back(s.substr(p, q - p)); p = q + sep.size(); } e.push_back(s.substr(p)); } bool ok = true; try { lce::SplitStr(s, sep, r); } catch (std::exception &) { ok = false; } mc::step(); MC_CHECK(ok, "split:throws", "splitting %s at %s throws", mc::esc(s).c_str(), mc::esc(sep).c_str()); string j; for (size_t i = 1; i < r.size(); i++) j += (i > 1 ? "|" : "") + r[i]; MC_CHECK(r == e, "split:parts", "%s at %s gives %s", mc::esc(s).c_str(), mc::esc(sep).c_str(), j.c_str()); mc::state(mc::hash(j)); }
static void s_repl() { string s = word(mc::tier(6, 8)), f = word(2), t = word(3), e, g = s; mc::op("replace %s by %s in %s", mc::esc(f).c_str(), mc::esc(t).c_str(), mc::esc(s).c_str()); if (!f.empty()) mc::nontrivial(); if (f.empty()) e = s; else for (size_t p = 0;;) { size_t q = s.find(f, p); if (q == string::npos) { e += s.substr(p); break; } e += s.substr(p, q - p) + t; p = q + f.size(); } lce::ReplaceStr(g, f, t); mc::step(); MC_CHECK(g == e, "replace:text", "%s instead of %s", g.c_str(), e.c_str()); mc::state(mc::hash(g)); }
static void s_trim() { static const char A[] = " \t\r\nab\v\0"; int n = mc::choose(mc::tier(6, 8)); string s; for (int i = 0; i < n; i++) s += A[mc::choose(8)]; string g = s; lce::TrimStr(g); size_t b = s.find_first_not_of(" \t\r\n"), e = s.find_last_not_of(" \t\r\n"); string x = b == string::npos ? "" : s.substr(b, e - b + 1); mc::nontrivial(); mc::step(); MC_CHECK(g == x, "trim:text", "%s is trimmed to %s", mc::esc(s).c_str(), mc::esc(g).c_str()); mc::state(mc::hash(g)); }
static void s_mid() { string s = word(6), a = word(2), b = word(2), out = "old", e; size_t at = mc::choose(9); mc::op("between %s and %s in %s from %zu", mc::esc(a).c_str(), mc::esc(b).c_str(), mc::esc(s).c_str(), at); size_t r, x = string::npos; bool byindex = mc::choose(2);
    size_t p = byindex ? at : s.find(a, at); if (p != string::npos) { if (!byindex) p += a.size(); size_t q = s.find(b, p); if (q != string::npos) { e = s.substr(p, q - p); x = q + b.size(); } } if (x == string::npos) e = "old"; else mc::nontrivial(); bool ok = true; try { r = byindex ? lce::GetMiddleStr(0, s, out, at, b) : lce::GetMiddleStr(at, s, out, a, b); } catch (std::exception &) { ok = false; } MC_CHECK(ok && r == x && out == e, "between:text", "%zu, %s instead of %zu, %s", r, out.c_str(), x, e.c_str()); mc::step(); mc::state(mc::hash(e, x)); }
static void s_host() { static const char A[] = "h1:.x"; int n = mc::choose(6); string s, h = "H", p = "P"; for (int i = 0; i < n; i++) s += A[mc::choose(5)]; char c = mc::choose(2) ? ':' : 'x'; size_t q = s.find(c); bool r = c == ':' && mc::choose(2) ? lce::SplitHostPort(s, h, p) : lce::SplitHostPort(s, h, p, c); MC_CHECK(r == (q != string::npos), "hostport:found", "%s at %c", s.c_str(), c); if (r) { mc::nontrivial(); MC_CHECK(h == s.substr(0, q) && p == s.substr(q + 1), "hostport:parts", "%s is split into %s and %s", s.c_str(), h.c_str(), p.c_str()); } else MC_CHECK(h == "H" && p == "P", "hostport:parts", "outputs changed"); mc::step(); mc::state(mc::hash(s)); }
static void s_str() { static const long long V[] = { 0, 1, -1, 127, 255, 32768, -32769, INT32_MAX, INT32_MIN, 4294967296ll, INT64_MAX, INT64_MIN }; long long v = V[mc::choose(12)]; MC_CHECK(lce::ToStr(v) == mc::strf("%lld", v) && lce::ToStr((int)v) == mc::strf("%d", (int)v) && lce::ToStr((unsigned)v) == mc::strf("%u", (unsigned)v) && lce::ToStr((unsigned long)v) == mc::strf("%lu", (unsigned long)v) && lce::ToStr((short)v) == mc::strf("%d", (short)v), "tostr:number", "%lld", v); MC_CHECK(lce::ToStr("a b") == "a b" && lce::ToStr(string("x y\n")) == "x y\n" && lce::ToStr('c') == "c", "tostr:text", "text"); mc::nontrivial(); mc::step(); mc::state(mc::hash(mc::strf("%lld", v))); }
#endif
#ifdef SP_CFG
static string trim(const string &s) { size_t b = s.find_first_not_of(" \t\r\n"), e = s.find_last_not_of(" \t\r\n"); return b == string::npos ? "" : s.substr(b, e - b + 1); }
typedef map<string, map<string, string> > MM;
static void load(MM &m, const vector<string> &lines) { string app; for (size_t i = 0; i < lines.size(); i++) { string l = trim(lines[i]); if (l.empty() || l[0] == '#' || l[0] == ';') continue; if (l[0] == '[') { size_t e = l.find(']'); if (e != string::npos) app = trim(l.substr(1, e - 1)); continue; } size_t q = l.find('='); if (q == string::npos) continue; string k = trim(l.substr(0, q)); if (k.empty()) continue; m[app][k] = trim(l.substr(q + 1)); } }
static void put(const string &path, const vector<string> &lines, bool lastnl, const char *nl) { string t; for (size_t i = 0; i < lines.size(); i++) { t += lines[i]; if (lastnl || i + 1 < lines.size()) t += nl; } int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0 || write(fd, t.data(), t.size()) != (ssize_t)t.size()) mc::fail("config:harness", "scratch file"); close(fd); mc::op("file %s", mc::esc(t, 120).c_str()); }
static string path() { static string p; if (p.empty()) p = string(mc::scratch()) + mc::strf("/c%d.ini", (int)getpid()); return p; }
static void check(lce::CConfig &c, const MM &m) {
    static const char *A[] = { "", "s", "t u", "x", "[s]", "s]" }, *K[] = { "k", "a b", "k2", "", "# k", "[s] k", "s", "word", "[k", "; k" };
    for (int a = 0; a < 6; a++) for (int k = 0; k < 10; k++) { MM::const_iterator i = m.find(A[a]); string e = "DEF"; bool have = false; if (i != m.end() && i->second.count(K[k])) { e = i->second.find(K[k])->second; have = true; } string v = "x"; string &r = c.getValue(A[a], K[k], v, "DEF"); MC_CHECK(v == e && &r == &v, "config:value", "[%s] %s is %s instead of %s", A[a], K[k], mc::esc(v).c_str(), mc::esc(e).c_str());
        if (k > 2) continue; int iv = -1; MC_CHECK(c.getValue(A[a], K[k], iv, 77) == (have ? atoi(e.c_str()) : 77) && iv == (have ? atoi(e.c_str()) : 77), "config:number", "int [%s] %s is %d", A[a], K[k], iv); bool bv; MC_CHECK(c.getValue(A[a], K[k], bv, true) == (have ? atol(e.c_str()) != 0 : true), "config:number", "bool [%s] %s", A[a], K[k]); }
    mc::step();
}
static void s_lines() {
    static const char *L[] = { "[s]", "k=1", "k = v w ", "  a b\t= 2=3", "# k=9", "  ; k=9", "\t[t u]  ", "word", "=5", "k2=", "", "   ", "[ s ]k=8", "[x", "[]", "[s] # k=4", "k=#1", " k2 = -7 " };
    int n = mc::choose(mc::tier(5, 6)); vector<string> l; for (int i = 0; i < n; i++) l.push_back(L[mc::choose(18)]); int style = n > 3 ? 0 : mc::choose(3); put(path(), l, style != 1, style == 2 ? "\r\n" : "\n");
    lce::CConfig c; MC_CHECK(c.loadConfig(path()), "config:load", "an existing file is refused"); MM m; load(m, l); if (!m.empty()) mc::nontrivial(); check(c, m); string h; for (MM::iterator i = m.begin(); i != m.end(); ++i) for (map<string, string>::iterator j = i->second.begin(); j != i->second.end(); ++j) h += i->first + "|" + j->first + "|" + j->second + "\n"; mc::state(mc::hash(h));
}
static void s_types() {
    static const char *V[] = { "0", "1", "-1", "255", "65535", "65536", "2147483647", "-2147483648", "4294967295", "9223372036854775807", "-9223372036854775808", "12abc", "abc", "", " 42 ", "0x10", "007" }; string v = V[mc::choose(17)], t = trim(v); vector<string> l; l.push_back("[n]"); l.push_back("v=" + v); put(path(), l, true, "\n"); lce::CConfig c; c.loadConfig(path()); long long x = atoll(t.c_str()); mc::nontrivial();
    int i; unsigned u; long lo; unsigned long ul; unsigned short us; unsigned char uc; bool b; string s;
    if (x >= INT32_MIN && x <= INT32_MAX) MC_CHECK(c.getValue("n", "v", i, 5) == x && i == x, "config:number", "int %s is %d", v.c_str(), i); if (x >= 0 && x <= 0xffffffffll) MC_CHECK(c.getValue("n", "v", u, 5u) == x && u == x, "config:number", "unsigned %s is %u", v.c_str(), u);
    MC_CHECK(c.getValue("n", "v", lo, 5l) == x && lo == x, "config:number", "long %s is %ld", v.c_str(), lo); if (x >= 0) MC_CHECK(c.getValue("n", "v", ul, 5ul) == (unsigned long)x && ul == (unsigned long)x, "config:number", "unsigned long %s is %lu", v.c_str(), ul);
    if (x >= 0 && x <= 65535) MC_CHECK(c.getValue("n", "v", us, (unsigned short)5) == x && us == x, "config:number", "short %s is %u", v.c_str(), us); if (x >= 0 && x <= 255) MC_CHECK(c.getValue("n", "v", uc, (unsigned char)5) == x && uc == x, "config:number", "char %s is %u", v.c_str(), uc);
    MC_CHECK(c.getValue("n", "v", b, false) == (x != 0) && b == (x != 0), "config:number", "bool %s is %d", v.c_str(), b); MC_CHECK(c.getValue("n", "v", s, "d") == t, "config:value", "string %s", v.c_str());
    const char *app = mc::choose(2) ? "n" : "zz", *nm = "missing"; MC_CHECK(c.getValue(app, nm, i, -3) == -3 && i == -3 && c.getValue(app, nm, u, 7u) == 7 && c.getValue(app, nm, lo, -8l) == -8 && c.getValue(app, nm, ul, 9ul) == 9 && c.getValue(app, nm, us, (unsigned short)10) == 10 && c.getValue(app, nm, uc, (unsigned char)11) == 11 && c.getValue(app, nm, b, true) && c.getValue(app, nm, s, "dd") == "dd", "config:default", "defaults"); mc::step(); mc::state(mc::hash(v));
}
static void s_addr() {
    static const char *P[] = { "127.0.0.1:80", "10.20.30.40:65535", "1.1.1.1:80", "1.2.3.4:1" }, *BAD[] = { "", "nothing", "127.0.0.1", "a:b" }; int n = mc::choose(4); string v; vector<pair<string, unsigned short> > e;
    for (int i = 0; i < n; i++) { int k = mc::choose(6); string x = k < 3 ? P[k] : BAD[k - 3]; if (i) v += "|"; v += x; if (k < 3) { size_t q = x.find(':'); e.push_back(make_pair(x.substr(0, q), (unsigned short)atoi(x.c_str() + q + 1))); } } vector<string> l; l.push_back("[a]"); l.push_back("v=" + v); put(path(), l, true, "\n"); lce::CConfig c; c.loadConfig(path()); mc::nontrivial();
    vector<pair<string, unsigned short> > r; r.push_back(make_pair("stale", 1)); bool ok = c.getIPAndPortList("a", "v", r, "9.9.9.9", 99); MC_CHECK(ok == !e.empty(), "config:list", "%s: %s", v.c_str(), ok ? "found" : "not found"); if (e.empty()) e.push_back(make_pair("9.9.9.9", 99)); MC_CHECK(r == e, "config:list", "%s gives %zu entries, first %s:%u", v.c_str(), r.size(), r[0].first.c_str(), r[0].second);
    if (n == 1) { string ip = "x"; unsigned short port = 1; ok = c.getIPAndPort("a", "v", ip, port, "8.8.8.8", 88); bool good = e[0].second != 99; MC_CHECK(ok == good && ip == (good ? e[0].first : "8.8.8.8") && port == (good ? e[0].second : 88), "config:address", "%s gives %s:%u", v.c_str(), ip.c_str(), port); } mc::step(); mc::state(mc::hash(v));
}
static void s_reload() { lce::CConfig c; MM m; mc::nontrivial(); for (int i = 0; i < 2; i++) { vector<string> l; static const char *L[] = { "[s]", "k=1", "k=2", "k2=z", "[x]" }; for (int j = 0; j < 3; j++) l.push_back(L[mc::choose(5)]); put(path(), l, true, "\n"); MC_CHECK(c.loadConfig(path()), "config:load", "refused"); load(m, l); check(c, m); MC_CHECK(!c.loadConfig(path() + ".none") && strlen(c.getErrMsg()) > 0, "config:missing", "a missing file is accepted"); check(c, m); } mc::state(mc::hash(mc::strf("%zu", m.size()))); }
#endif
int main(int argc, char **argv) {
    vector<mc::Space> s;
#ifdef SP_URL
    s.push_back({ "encode", s_enc, false, 0, "all strings of up to 2 bytes" });
    s.push_back({ "decode", s_dec, false, 0, "all texts over the characters that matter" });
    s.push_back({ "dates", s_date, false, 0, "every day from 1970 to 2039 in three notations" });
    s.push_back({ "broken-dates", s_badd, false, 0, "dates cut or changed at every place" });
    s.push_back({ "hex", s_hex, false, 0, "every byte, address texts" });
    return mc::run(argc, argv, s, "texts against an independent codec and calendar; inputs in heap blocks of exact size; non-trivial: well formed");
#endif
#ifdef SP_STR
    s.push_back({ "split", s_split, false, 0, "all texts and separators over two letters" });
    s.push_back({ "replace", s_repl, false, 0, "all texts, patterns and replacements over two letters" });
    s.push_back({ "trim", s_trim, false, 0, "all texts over blanks and letters" });
    s.push_back({ "between", s_mid, false, 0, "all texts and marks" });
    s.push_back({ "host-port", s_host, false, 0, "all short texts" });
    s.push_back({ "to-string", s_str, false, 0, "boundary numbers" });
    return mc::run(argc, argv, s, "results against direct definitions; non-trivial: something to do");
#endif
#ifdef SP_CFG
    s.push_back({ "lines", s_lines, false, 0, "all files of up to 4 (5) of 18 kinds of lines" });
    s.push_back({ "types", s_types, false, 0, "every typed getter" });
    s.push_back({ "addresses", s_addr, false, 0, "address values and lists" });
    s.push_back({ "reload", s_reload, false, 0, "loading again, missing files" });
    return mc::run(argc, argv, s, "scratch files against an independent reader; non-trivial: a value was set");
#endif
}
