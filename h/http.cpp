// HTTP requests (SP_REQ: CHttpReader) and responses (SP_RSP: CHttpWriter).
#include <stdint.h>
#include <string.h>
#include <stdio.h>
#include <time.h>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <byteswap.h>
#include "Utils.h"
#include <algorithm>
#include "CHttpReader.h"
#include "CHttpWriter.h"
#include "mc.h"
using namespace std;
static string lower(string s) { for (size_t i = 0; i < s.size(); i++) s[i] = tolower((unsigned char)s[i]); return s; }
#ifdef SP_REQ
static string urlenc(const string &s, bool all = false) { string o; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (!all && isalnum(c)) o += (char)c; else if (c == ' ' && !all) o += '+'; else o += mc::strf(i & 1 ? "%%%02x" : "%%%02X", c); } return o; }
struct File { string data, name, type; };
struct Req { string method, path, version, body; map<string, string> head, val, cook; map<string, File> file; string raw; bool form; Req() : form(false) {} };
static bool feed(lce::CHttpReader &r, const string &s) { char *x = new char[s.size() ? s.size() : 1]; memcpy(x, s.data(), s.size()); bool ok = false, threw = false; try { ok = r.setData(x, (int)s.size()); } catch (std::exception &e) { threw = true; } delete[] x; MC_CHECK(!threw, "http:throws", "parsing throws: %s", mc::esc(s, 200).c_str()); return ok; }
static void touch(lce::CHttpReader &r) { const char *g[] = { r.getURI(), r.getVersion(), r.getBody(), r.getAccept(), r.getReferer(), r.getHost(), r.getConnection(), r.getContentType(), r.getCookieList(), r.getErrMsg(), r.getHead("x") }; size_t n = 0; for (int i = 0; i < 11; i++) n += strlen(g[i]); n += r.getContentLength() & 1; r.getIfModifiedSinceTime(); string s; for (map<string, string>::const_iterator i = r.getValueList().begin(); i != r.getValueList().end(); ++i) { r.getValue(i->first, s); MC_CHECK(s == i->second, "http:value", "getValue and getValueList differ"); r.getFile(i->first); r.getFileName(i->first); } r.getCookie("a", s); mc::step(n ? 2 : 1); }
static void check(lce::CHttpReader &r, const Req &q) {
    MC_CHECK(r.getCommand() == (q.method == "GET" ? lce::GET : q.method == "POST" ? lce::POST : lce::HEAD), "http:method", "method of %s", q.method.c_str());
    MC_CHECK(q.path == r.getURI(), "http:uri", "URI is %s instead of %s", r.getURI(), q.path.c_str()); MC_CHECK(q.version == r.getVersion(), "http:version", "version is %s", r.getVersion());
    static const char *H[] = { "host", "accept", "user-agent", "content-type", "content-length", "x-custom", "connection", "referer", "cookie", "x-none", "if-match", "cache-control", "accept-language", "accept-encoding", "if-none-match", "if-range" };
    for (int i = 0; i < 16; i++) { map<string, string>::const_iterator k = q.head.find(H[i]); string e = k == q.head.end() ? "" : k->second; string up = H[i]; up[0] = toupper(up[0]); MC_CHECK(e == r.getHead(H[i]) && e == r.getHead(up), "http:header", "header %s is %s instead of %s", H[i], mc::esc(r.getHead(H[i])).c_str(), mc::esc(e).c_str()); }
#define G(n, f) MC_CHECK((q.head.count(n) ? q.head.find(n)->second : string()) == r.f(), "http:header", #f " is %s", r.f())
    G("host", getHost); G("accept", getAccept); G("user-agent", getUserAgent); G("content-type", getContentType); G("connection", getConnection); G("referer", getReferer); G("cookie", getCookieList); G("if-match", getIfMatch); G("cache-control", getCacheControl); G("accept-language", getAcceptLanguage); G("accept-encoding", getAcceptEncoding); G("if-none-match", getIfNoneMatch); G("if-range", getIfRange);
    if (q.head.count("content-length")) MC_CHECK(r.getContentLength() == strtoul(q.head.find("content-length")->second.c_str(), 0, 10), "http:header", "content length");
    map<string, string> v = q.val, g = r.getValueList(); for (map<string, string>::iterator i = g.begin(); i != g.end(); ++i) { if (q.file.count(i->first)) continue; MC_CHECK(v.count(i->first), "http:value", "value %s=%s appears from nowhere", mc::esc(i->first).c_str(), mc::esc(i->second).c_str()); MC_CHECK(v[i->first] == i->second, "http:value", "value %s is %s instead of %s", mc::esc(i->first).c_str(), mc::esc(i->second).c_str(), mc::esc(v[i->first]).c_str()); }
    for (map<string, string>::iterator i = v.begin(); i != v.end(); ++i) { MC_CHECK(g.count(i->first), "http:value", "value %s=%s is lost", mc::esc(i->first).c_str(), mc::esc(i->second).c_str()); string s; r.getValue(i->first, s, "D"); MC_CHECK(s == i->second, "http:value", "getValue"); int n; r.getValue(i->first, n, 3); MC_CHECK(n == atoi(i->second.c_str()), "http:value", "getValue(int)"); }
    string s; MC_CHECK(r.getValue("nowhere", s, "D") == "D" && s == "D", "http:value", "default"); int n; MC_CHECK(r.getValue("nowhere", n, 9) == 9 && r.getCookie("nowhere", n, 8) == 8, "http:value", "default");
    if (!q.form) MC_CHECK(q.body == r.getBody() && r.getValue(s) == q.body, "http:body", "query or body is %s instead of %s", mc::esc(r.getBody()).c_str(), mc::esc(q.body).c_str());
    static const char *C[] = { "a", "bb", "c", "sid", "zz" }; for (int i = 0; i < 5; i++) { map<string, string>::const_iterator k = q.cook.find(C[i]); r.getCookie(C[i], s, "D"); MC_CHECK(s == (k == q.cook.end() ? "D" : k->second), "http:cookie", "cookie %s is %s instead of %s", C[i], mc::esc(s).c_str(), k == q.cook.end() ? "none" : mc::esc(k->second).c_str()); }
    static const char *F[] = { "f0", "f1", "f2", "f3", "up" }; for (int i = 0; i < 5; i++) { map<string, File>::const_iterator k = q.file.find(F[i]); File e; if (k != q.file.end()) e = k->second; MC_CHECK(r.getFile(F[i]) == e.data, "http:file", "file %s holds %s instead of %s", F[i], mc::esc(r.getFile(F[i])).c_str(), mc::esc(e.data).c_str()); MC_CHECK(r.getFileName(F[i]) == e.name && r.getFileType(F[i]) == e.type, "http:file", "file %s is called %s, type %s, instead of %s, %s", F[i], r.getFileName(F[i]).c_str(), r.getFileType(F[i]).c_str(), e.name.c_str(), e.type.c_str()); }
    mc::step();
}
// ---- building blocks
static const char *VAL[] = { "1", "", "x y", "a=b&c", "\xc3\xa9%", "+42" };
static string pairs(map<string, string> &m, int max) { static const char *N[] = { "a", "n2", "a" }; int n = mc::choose(max + 1); string s; for (int i = 0; i < n; i++) { int k = mc::choose(7); if (i) s += "&"; if (k == 6) { s += "flag"; continue; } m[N[i]] = VAL[k]; s += string(N[i]) + "=" + urlenc(VAL[k], k & 1); } return s; }
static void heads(Req &q, string &t, int style) {
    static const char *N[][3] = { { "Host", "host", "HOST" }, { "User-Agent", "user-agent", "USER-AGENT" }, { "X-Custom", "x-custom", "X-CUSTOM" }, { "If-Match", "if-match", "IF-MATCH" } }; static const char *V[] = { "example.org:80", "Mozilla/5.0 (a; b): c", "v", "\"e:t ag\"" };
    int n = mc::choose(mc::tier(3, 4)); for (int i = 0; i < n; i++) { int h = (i + mc::choose(4)) % 4; string v = V[h]; t += string(N[h][style % 3]) + (style < 3 ? ": " : ":") + v + "\r\n"; q.head[lower(N[h][0])] = v; }
}
static void cookies(Req &q, string &t) { int n = mc::choose(4); if (!n) return; static const char *N[] = { "sid", "a", "bb" }, *V[] = { "abc", "", "x=y", "%41+b" }, *D[] = { "abc", "", "x=y", "A b" }; string c; const char *sep = mc::choose(2) ? "; " : ";"; for (int i = 0; i < n; i++) { int v = i == 0 ? mc::choose(4) : (i + n) % 4; if (i) c += sep; c += string(N[i]) + "=" + V[v]; q.cook[N[i]] = D[v]; } t += "Cookie: " + c + "\r\n"; q.head["cookie"] = c; }
static string first(Req &q, const string &query) { static const char *P[] = { "/", "/a/b.html", "/x%20y", "http://h/p" }; static const char *V[] = { "HTTP/1.1", "HTTP/1.0" }; q.path = P[mc::choose(4)]; q.version = V[mc::choose(2)]; return q.method + " " + q.path + (query.empty() ? "" : "?" + query) + " " + q.version + "\r\n"; }
static void run(const Req &q, const string &t) { mc::op("%s", mc::esc(t, 300).c_str()); lce::CHttpReader r; bool ok = feed(r, t); MC_CHECK(ok, "http:refused", "a valid request is refused: %s", r.getErrMsg()); check(r, q); mc::nontrivial(); mc::state(mc::hash(t)); }
static void s_get() { Req q; q.method = mc::choose(3) ? "GET" : "HEAD"; string query; if (q.method == "GET") query = pairs(q.val, 2); q.body = query; string t = first(q, query); int style = mc::choose(4); heads(q, t, style); cookies(q, t); run(q, t + "\r\n"); }
static string post_form(Req &q, bool urlquery) { q.method = "POST"; string b = pairs(q.val, 3); q.body = b; string t = first(q, urlquery ? "q=9" : ""); t += "Host: h\r\n"; q.head["host"] = "h"; bool lo = mc::choose(2); t += string(lo ? "content-type" : "Content-Type") + ": application/x-www-form-urlencoded\r\n"; q.head["content-type"] = "application/x-www-form-urlencoded"; q.head["content-length"] = mc::strf("%zu", b.size()); t += "Content-Length: " + q.head["content-length"] + "\r\n"; return t + "\r\n" + b; }
static void s_post() { Req q; string t = post_form(q, mc::choose(2)); run(q, t); }
static string multi(Req &q, int max) {
    q.method = "POST"; q.form = true; static const char *B[] = { "XyZ", "----WebKitFormBoundary7MA" }; string bd = B[mc::choose(2)], b; int n = mc::choose(max + 1);
    static const string FV[] = { "v", "", "two\r\nlines", "50%41+a%", "filename=\"e\"\r\nContent-Type: t\r\n\r\nz", "-", "\r\n" }, FD[] = { "data", "", "a\r\n\r\nb\r\n", string("\0\xff%4\r\n--Xy", 9), "x" };
    for (int i = 0; i < n; i++) { string name = mc::strf("f%d", i); b += "--" + bd + "\r\nContent-Disposition: form-data; name=\"" + name + "\""; int k = mc::choose(12); if (k < 7) { b += "\r\n"; if (k == 5) b += "Content-Type: text/plain\r\n"; b += "\r\n" + FV[k] + "\r\n"; q.val[name] = FV[k]; } else { File f; f.data = FD[k - 7]; f.name = k == 8 ? "a b.txt" : "n.bin"; f.type = "image/png"; b += "; filename=\"" + f.name + "\"\r\nContent-Type: " + f.type + "\r\n"; if (k == 11) b += "Content-Transfer-Encoding: binary\r\n"; b += "\r\n" + f.data + "\r\n"; q.file[name] = f; } }
    b += "--" + bd + "--\r\n"; string t = first(q, ""); bool lo = mc::choose(2); q.head["content-type"] = "multipart/form-data; boundary=" + bd; q.head["content-length"] = mc::strf("%zu", b.size()); t += string(lo ? "content-type" : "Content-Type") + ": " + q.head["content-type"] + "\r\nContent-Length: " + q.head["content-length"] + "\r\n\r\n"; return t + b;
}
static void s_multi() { Req q; string t = multi(q, mc::tier(2, 3)); run(q, t); }
static string sample(int k, Req &q) { switch (k) {
    case 0: q.method = "GET"; q.path = "/p"; q.version = "HTTP/1.1"; q.val["a"] = "1"; q.body = "a=1"; q.head["host"] = "h"; q.head["cookie"] = "sid=5; c=6"; q.cook["sid"] = "5"; q.cook["c"] = "6"; return "GET /p?a=1 HTTP/1.1\r\nHost: h\r\nCookie: sid=5; c=6\r\n\r\n";
    case 1: q.method = "POST"; q.path = "/q"; q.version = "HTTP/1.0"; q.val["n2"] = "x y"; q.body = "n2=x+y"; q.head["content-length"] = "6"; q.head["x-custom"] = "yes"; return "POST /q HTTP/1.0\r\nContent-Length: 6\r\nX-Custom: yes\r\n\r\nn2=x+y";
    case 2: { q.method = "POST"; q.path = "/m"; q.version = "HTTP/1.1"; q.form = true; q.val["f0"] = "val"; File f; f.data = "DATA"; f.name = "n.txt"; f.type = "text/plain"; q.file["f1"] = f; q.head["content-type"] = "multipart/form-data; boundary=BB"; return "POST /m HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=BB\r\n\r\n--BB\r\nContent-Disposition: form-data; name=\"f0\"\r\n\r\nval\r\n--BB\r\nContent-Disposition: form-data; name=\"f1\"; filename=\"n.txt\"\r\nContent-Type: text/plain\r\n\r\nDATA\r\n--BB--\r\n"; }
    case 3: q.method = "HEAD"; q.path = "/h"; q.version = "HTTP/1.1"; return "HEAD /h HTTP/1.1\r\n\r\n";
    case 4: q.method = "GET"; q.path = "/"; q.version = "HTTP/1.1"; return "GET / HTTP/1.1\r\n\r\n";
    case 5: q.method = ""; return "BREW /pot HTCPCP/1.0\r\n\r\n"; default: q.method = ""; return "GET /cut"; } }
static void s_reuse() { lce::CHttpReader r; mc::nontrivial(); int n = mc::tier(3, 4); for (int i = 0; i < n; i++) { Req q; string t = sample(mc::choose(7), q); mc::op("%s", mc::esc(t, 200).c_str()); if (mc::choose(2)) r.clear(); bool ok = feed(r, t); MC_CHECK(ok == !q.method.empty(), "http:verdict", "%s is %s", mc::esc(t).c_str(), ok ? "accepted" : "refused"); if (ok) check(r, q); else touch(r); mc::step(); mc::state(mc::hash(t, i)); } }
static void s_tokens() { static const char *A[] = { "GET", "POST", " ", "/", "?", "a=b", "&", "HTTP/1.1", "\r\n", "X: y", ":", "%", "Cookie: ", ";", "=", "Content-Type: multipart/form-data; boundary=B", "--B", "Content-Disposition: form-data; name=\"n\"", "\r\n\r\n" }; int pre = mc::choose(4); string t; if (pre == 1) t = "GET / HTTP/1.1\r\n"; if (pre == 2) t = "POST / HTTP/1.1\r\n"; if (pre == 3) t = "POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=B\r\n\r\n--B"; int n = mc::tier(4, 5); for (int i = 0; i < n; i++) { int k = mc::choose(20); if (k == 19) break; t += A[k]; }
    mc::op("%s", mc::esc(t, 200).c_str()); lce::CHttpReader r; bool ok = feed(r, t); if (ok) mc::nontrivial(); touch(r); string l = t.substr(0, t.find("\r\n")); size_t a = l.find(' '), b = a == string::npos ? a : l.find(' ', a + 1); string m = l.substr(0, a); bool can = t.find("\r\n") != string::npos && (m == "GET" || m == "POST" || m == "HEAD") && b != string::npos && b > a + 1 && b + 1 < l.size(); if (!can) MC_CHECK(!ok, "http:garbage accepted", "%s is accepted", mc::esc(t, 100).c_str()); mc::step(); mc::state(mc::hash(t.substr(0, 6), ok)); }
static void s_damage() { Req q; string t = sample(mc::choose(4), q); int k = mc::choose(4); if (k == 0) t.resize(mc::choose(t.size() + 1)); else if (k == 1) { static const char R[] = " :\r\n%=\"-a\0"; t[mc::choose(t.size())] = R[mc::choose(10)]; } else if (k == 2) { size_t p = mc::choose(t.size()); t.erase(p, 1 + mc::choose(3)); } else { size_t p = mc::choose(t.size()); t.insert(p, mc::choose(2) ? "\r\n" : "--BB"); } mc::op("%s", mc::esc(t, 300).c_str()); lce::CHttpReader r; if (feed(r, t)) mc::nontrivial(); touch(r); Req e; string s = sample(2, e); MC_CHECK(feed(r, s), "http:unusable", "a good request after a damaged one is refused"); check(r, e); mc::state(mc::hash(t)); }
#endif
#ifdef SP_RSP
struct Resp { int code; string reason, body; vector<pair<string, string> > head; };
static bool parse(const string &s, Resp &r) { size_t e = s.find("\r\n\r\n"); if (e == string::npos) return false; r.body = s.substr(e + 4); string h = s.substr(0, e + 2); size_t p = h.find("\r\n"); string l = h.substr(0, p); char rs[64] = ""; if (l.compare(0, 9, "HTTP/1.1 ") || l.size() < 13 || l[12] != ' ') return false; r.code = atoi(l.c_str() + 9); r.reason = l.substr(13); (void)rs; p += 2; while (p < h.size()) { size_t n = h.find("\r\n", p); l = h.substr(p, n - p); size_t c = l.find(':'); if (c == string::npos || c == 0) return false; string v = l.substr(c + 1); if (!v.empty() && v[0] == ' ') v.erase(0, 1); r.head.push_back(make_pair(lower(l.substr(0, c)), v)); p = n + 2; } return true; }
static string gmt(time_t t) { struct tm g; gmtime_r(&t, &g); char b[64]; strftime(b, sizeof b, "%a, %d %b %Y %H:%M:%S GMT", &g); return b; }
struct M { int code; string conn, type, cc, loc, etag, body; time_t lm, exp; unsigned long blen; map<string, string> head; map<string, vector<string> > cook; map<string, time_t> ctime; M() : code(200), conn("Close"), type("text/html"), lm(0), exp(0), blen(0) {} };
static void verify(lce::CHttpWriter &w, const M &m, time_t t0) {
    time_t t1 = time(0); string s(w.data(), w.size()); MC_CHECK(w.getDataLen() == (int)s.size() && w.getData() == w.data(), "response:accessors", "getData"); Resp r; MC_CHECK(parse(s, r), "response:malformed", "%s", mc::esc(s, 300).c_str()); MC_CHECK(r.code == m.code && !r.reason.empty() && r.reason == lce::CHttpWriter::getStatusCodeDesc(m.code), "response:status", "status %d %s instead of %d", r.code, r.reason.c_str(), m.code); MC_CHECK(r.body == m.body, "response:body", "body is %s instead of %s", mc::esc(r.body, 60).c_str(), mc::esc(m.body, 60).c_str());
    multimap<string, string> e; e.insert(make_pair("connection", m.conn)); e.insert(make_pair("content-type", m.type)); if (m.lm > 0) e.insert(make_pair("last-modified", gmt(m.lm))); if (m.exp > 0) e.insert(make_pair("expires", gmt(m.exp))); if (!m.cc.empty()) e.insert(make_pair("cache-control", m.cc)); if (!m.etag.empty()) e.insert(make_pair("etag", m.etag)); if (!m.loc.empty()) e.insert(make_pair("location", m.loc));
    bool nolen = m.code == 204 || m.code == 304 || m.code < 200; if (m.blen || !m.body.empty() || !nolen) e.insert(make_pair("content-length", mc::strf("%lu", m.blen ? m.blen : (unsigned long)m.body.size())));
    for (map<string, string>::const_iterator i = m.head.begin(); i != m.head.end(); ++i) e.insert(make_pair(lower(i->first), i->second));
    bool date = false; map<string, int> ck;
    for (size_t i = 0; i < r.head.size(); i++) { const string &n = r.head[i].first, &v = r.head[i].second; if (n == "date") { MC_CHECK(!date, "response:header", "two dates"); date = true; bool in = false; for (time_t t = t0; t <= t1; t++) in |= v == gmt(t); MC_CHECK(in, "response:date", "date %s", v.c_str()); continue; }
        if (n == "set-cookie") { size_t c = v.find('='); string cn = v.substr(0, c); map<string, vector<string> >::const_iterator k = m.cook.find(cn); MC_CHECK(k != m.cook.end() && !ck[cn]++, "response:cookie", "unexpected cookie %s", mc::esc(v).c_str()); string rest = v; vector<string> at; size_t p; while ((p = rest.find("; ")) != string::npos) { at.push_back(rest.substr(0, p)); rest.erase(0, p + 2); } at.push_back(rest); time_t ct = m.ctime.find(cn)->second; bool exp = false; vector<string> left; for (size_t j = 0; j < at.size(); j++) { if (at[j].compare(0, 8, "Expires=") == 0) { bool in = false; for (time_t t = t0; t <= t1; t++) in |= at[j].substr(8) == gmt(t + ct); MC_CHECK(ct && in, "response:cookie", "expiry %s", at[j].c_str()); exp = true; } else left.push_back(at[j]); } MC_CHECK(exp == (ct != 0), "response:cookie", "expiry of %s", cn.c_str()); vector<string> want = k->second; sort(want.begin() + 1, want.end()); sort(left.begin() + 1, left.end()); MC_CHECK(left == want, "response:cookie", "cookie is %s", mc::esc(v, 100).c_str()); continue; }
        multimap<string, string>::iterator f = e.find(n); MC_CHECK(f != e.end(), "response:header", "unexpected header %s: %s", n.c_str(), mc::esc(v).c_str()); MC_CHECK(f->second == v, "response:header", "header %s is %s (%zu bytes) instead of %s (%zu bytes)", n.c_str(), mc::esc(v, 40).c_str(), v.size(), mc::esc(f->second, 40).c_str(), f->second.size()); e.erase(f); }
    MC_CHECK(date, "response:date", "no date"); if (!e.empty()) mc::fail("response:header", "header %s is missing", e.begin()->first.c_str()); for (map<string, vector<string> >::const_iterator i = m.cook.begin(); i != m.cook.end(); ++i) MC_CHECK(ck[i->first] == 1, "response:cookie", "cookie %s is missing", i->first.c_str()); mc::step(); mc::state(mc::hash(s.substr(0, 40), r.head.size()));
}
static string big(char c) { return string(3000, c); }
static void apply(lce::CHttpWriter &w, M &m, int k) {
    mc::op("op %d", k);
    switch (k) {
    case 0: { static const int C[] = { 404, 304, 204, 302, 100, 299 }; int c = C[mc::choose(6)]; w.setStatusCode(c); m.code = c; break; }
    case 1: { string v = mc::choose(2) ? "keep-alive" : big('k'); w.setConnection(v); m.conn = v; break; }
    case 2: { string v = mc::choose(2) ? "application/json" : big('t'); w.setContentType(v); m.type = v; break; }
    case 3: { string v = mc::choose(2) ? "no-cache" : big('c'); w.setCacheControl(v); m.cc = v; break; }
    case 4: w.setBodyLen(12345); m.blen = 12345; break;
    case 5: { string v = mc::choose(2) ? "/else?x=1" : big('l'); w.setLocation(v); m.loc = v; break; }
    case 6: w.setLastModified(784111777); m.lm = 784111777; break;
    case 7: w.setExpires(2000000000); m.exp = 2000000000; break;
    case 8: { string v = mc::choose(2) ? "\"tag\"" : big('e'); w.setETag(v); m.etag = v; break; }
    case 9: { string n = mc::choose(2) ? "X-A" : "X-B", v = mc::choose(2) ? "one" : big('h'); w.setHead(n, v); m.head[n] = v; break; }
    case 10: { static const char *N[] = { "c1", "c2", "c3" }; int i = mc::choose(3); string n = N[i]; bool again = m.cook.count(n); vector<string> a; m.ctime[n] = 0; if (i == 0) { if (again) { w.setCookie(n, 7.5, "", "", 60); a.push_back("c1=7.5"); m.ctime[n] = 60; } else { w.setCookie(n, string("val")); a.push_back("c1=val"); } } else if (again && i == 1) { w.setCookie(n, string(""), "e.org"); a.push_back("c2="); a.push_back("Domain=e.org"); } else if (i == 1) { w.setCookie(n, 42, "d.org", "/p", 3600); a.push_back("c2=42"); a.push_back("Domain=d.org"); a.push_back("Path=/p"); m.ctime[n] = 3600; } else { w.setCookie(n, big('v'), "", "/", -100); a.push_back("c3=" + big('v')); a.push_back("Path=/"); m.ctime[n] = -100; } m.cook[n] = a; break; }
    case 11: w.write("a\0\r\n\r\nb\xff", 8); m.body += string("a\0\r\n\r\nb\xff", 8); break;
    case 12: w << "txt" << string("s\0t", 3) << 7 << 'c' << 2.5; m.body += "txt" + string("s\0t", 3) + "7c2.5"; break;
    case 13: { string v(70000, 'B'); w << v; m.body += v; break; }
    }
    mc::step();
}
static void s_one() { lce::CHttpWriter w; M m; if (mc::choose(2)) w.begin(); int n = mc::tier(4, 5); int last = -1; for (int i = 0; i < n; i++) { int k = mc::choose(15); if (k == 14) break; if (i && k < last) mc::prune(); last = k; mc::nontrivial(); apply(w, m, k); } time_t t = time(0); w.end(); verify(w, m, t); }
static void s_order() { lce::CHttpWriter w; M m; w.begin(); int n = mc::choose(4); for (int i = 0; i < n; i++) { mc::nontrivial(); apply(w, m, mc::choose(14)); } time_t t = time(0); w.end(); verify(w, m, t); t = time(0); w.end(); verify(w, m, t); }
static void s_two() { lce::CHttpWriter w; mc::nontrivial(); for (int r = 0; r < 2; r++) { M m; w.begin(); int n = mc::choose(3); for (int i = 0; i < n; i++) apply(w, m, mc::choose(14)); time_t t = time(0); w.end(); verify(w, m, t); } }
static void s_codes() { lce::CHttpWriter w; M m; w.begin(); int c = 100 + mc::choose(500); w.setStatusCode(c); m.code = c; w << "b"; m.body = "b"; time_t t = time(0); w.end(); mc::nontrivial(); verify(w, m, t); }
#endif
int main(int argc, char **argv) {
    vector<mc::Space> s;
#ifdef SP_REQ
    s.push_back({ "get", s_get, false, 0, "GET and HEAD: paths, queries, headers in all styles, cookies" });
    s.push_back({ "post", s_post, false, 0, "POST forms" });
    s.push_back({ "multipart", s_multi, false, 0, "multipart forms with fields and files" });
    s.push_back({ "reuse", s_reuse, false, 0, "one reader for several requests" });
    s.push_back({ "tokens", s_tokens, false, 0, "all token sequences" });
    s.push_back({ "damage", s_damage, false, 0, "valid requests cut or changed at every place" });
    return mc::run(argc, argv, s, "generated requests with known meaning; non-trivial: accepted requests");
#else
    s.push_back({ "settings", s_one, false, 0, "all sets of settings" });
    s.push_back({ "order", s_order, false, 0, "all orders, end called twice" });
    s.push_back({ "two-responses", s_two, false, 0, "two responses from one writer" });
    s.push_back({ "codes", s_codes, false, 0, "every status code" });
    return mc::run(argc, argv, s, "responses parsed by an independent parser; non-trivial: something was set");
#endif
}
