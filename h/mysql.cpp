// CMySql over a model of the client library and server: every call of the library may
// succeed, fail, or find the connection lost.
#include <stdint.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <algorithm>
#include "mysql.h"
#include "CMysql.h"
#include "mc.h"
using namespace std; using namespace lce;
// ------------------------------------------------------------ the client library
struct MYSQL_RES { vector<string> cols; vector<vector<string> > rows; vector<vector<bool> > null; size_t f, r; MYSQL_FIELD fld; vector<char *> row; vector<unsigned long> len; vector<char *> cells; };
struct Srv { bool open; string host, user, pass, db, charset; unsigned port, t[3]; };
static map<int, Srv> conns; static int nconn; static set<MYSQL_RES *> results;
static const unsigned INITED = 0x51515151;
struct Answer { int kind; unsigned err; unsigned long long affected; vector<string> cols; vector<vector<string> > rows; vector<vector<bool> > null; bool storefail; };
static Answer cur; static int nans; static bool pending;      // what the server answered to the last query
struct Call { string what, arg; unsigned err; int conn; }; static vector<Call> calls;
static int lost() { return mc::choose_dev(2) ? 2013 : 2006; }
static void note(const string &w, const string &a, unsigned e, int c) { Call k = { w, a, e, c }; calls.push_back(k); mc::op("    %s(%s) -> %u", w.c_str(), mc::esc(a, 40).c_str(), e); mc::step(); }
static void need(MYSQL *m, const char *f) { MC_CHECK(m != NULL, "mysql:no handle", "%s without a handle", f); MC_CHECK(m->magic == INITED, "mysql:handle not initialised", "%s on a handle that was never initialised", f); }
static void seterr(MYSQL *m, unsigned e) { m->err = e; snprintf(m->msg, sizeof m->msg, e ? "server says %u" : "", e); }
static bool alive(MYSQL *m) { return m->conn && conns[m->conn].open; }
extern "C" {
MYSQL *mysql_init(MYSQL *m) { MC_CHECK(m != NULL, "mysql:no handle", "mysql_init without a handle: what it allocates is lost"); if (m->magic == INITED && m->conn) mc::fail("mysql:connection leaked", "a connected handle is initialised again"); memset(m, 0, sizeof *m); m->magic = INITED; for (int i = 0; i < 4; i++) m->opt[i] = 99; return m; }
int mysql_options(MYSQL *m, enum mysql_option o, const void *a) {
    need(m, "mysql_options"); MC_CHECK(!m->conn, "mysql:option too late", "option %d after connecting", o);
    if (o == MYSQL_OPT_CONNECT_TIMEOUT) m->opt[0] = *(const unsigned *)a; else if (o == MYSQL_OPT_READ_TIMEOUT) m->opt[1] = *(const unsigned *)a; else if (o == MYSQL_OPT_WRITE_TIMEOUT) m->opt[2] = *(const unsigned *)a;
    else if (o == MYSQL_SET_CHARSET_NAME) snprintf(m->charset, sizeof m->charset, "%s", (const char *)a);
    return 0; }
MYSQL *mysql_real_connect(MYSQL *m, const char *h, const char *u, const char *p, const char *db, unsigned port, const char *, unsigned long) {
    need(m, "mysql_real_connect"); MC_CHECK(!m->conn, "mysql:connection leaked", "a connected handle connects again");
    unsigned e = mc::choose_dev(2) ? 2003 : 0; seterr(m, e); note("connect", mc::strf("%s,%s,%s,%u,%s", h, u, p, port, m->charset), e, 0); if (e) return NULL;
    Srv s; s.open = true; s.host = h; s.user = u; s.pass = p; s.port = port; s.db = db ? db : ""; s.charset = m->charset; for (int i = 0; i < 3; i++) s.t[i] = m->opt[i]; m->conn = ++nconn; conns[nconn] = s; return m; }
void mysql_close(MYSQL *m) { need(m, "mysql_close"); MC_CHECK(m->conn, "mysql:closed twice", "mysql_close on a handle without a connection"); conns.erase(m->conn); m->conn = 0; }
unsigned mysql_errno(MYSQL *m) { need(m, "mysql_errno"); return m->err; }
const char *mysql_error(MYSQL *m) { need(m, "mysql_error"); return m->msg; }
int mysql_select_db(MYSQL *m, const char *d) {
    need(m, "mysql_select_db"); if (!alive(m)) { seterr(m, 2006); note("select", d, 2006, 0); return 1; }
    unsigned e = 0; if (!*d) e = 1046; else { int k = mc::choose_dev(3); if (k == 1) { e = lost(); conns[m->conn].open = false; } if (k == 2) e = 1049; }
    seterr(m, e); note("select", d, e, m->conn); if (e) return 1; conns[m->conn].db = d; return 0; }
static void answer(Answer &a) {      // what a query may give
    a = Answer(); int k = nans++ == 0 ? mc::choose(9) : 1 + 5 * (nans & 1); if (k == 8) { a.kind = 0; a.affected = ~0ULL; return; }
    if (k < 4) { static const unsigned long long AF[] = { 0, 1, 3000000000ULL, 5000000000ULL }; a.kind = 0; a.affected = AF[k]; return; }
    a.kind = 1; static const char *C[] = { "a", "b" }; int nc = k == 4 ? 1 : 2; for (int i = 0; i < nc; i++) a.cols.push_back(k == 7 ? "a" : C[i]);
    int nr = k == 5 ? 0 : k == 6 ? 2 : 1; static const string V[] = { "x", "", string("n\0l", 3), "NULL" };
    for (int r = 0; r < nr; r++) { vector<string> row; vector<bool> nu; for (int c = 0; c < nc; c++) { int v = r == 0 && c == 0 && nans == 1 ? mc::choose(5) : (r * 2 + c + 1) % 5; nu.push_back(v == 4); row.push_back(v == 4 ? "" : V[v]); } a.rows.push_back(row); a.null.push_back(nu); }
}
int mysql_real_query(MYSQL *m, const char *q, unsigned long n) {
    need(m, "mysql_real_query"); string s(q, n); if (!alive(m)) { seterr(m, 2006); note("query", s, 2006, 0); return 1; }
    if (pending) { seterr(m, 2014); note("query", s, 2014, m->conn); return 1; }
    unsigned e = 0; int k = mc::choose_dev(3); if (k == 1) { e = lost(); conns[m->conn].open = false; } if (k == 2) e = 1064;
    seterr(m, e); note("query", s, e, m->conn); if (e) return 1; answer(cur); pending = cur.kind == 1; return 0; }
int mysql_query(MYSQL *m, const char *q) { return mysql_real_query(m, q, strlen(q)); }
unsigned mysql_field_count(MYSQL *m) { need(m, "mysql_field_count"); return cur.cols.size(); }
my_ulonglong mysql_affected_rows(MYSQL *m) { need(m, "mysql_affected_rows"); return cur.affected; }
MYSQL_RES *mysql_store_result(MYSQL *m) {
    need(m, "mysql_store_result"); if (!pending) { seterr(m, 0); return NULL; } pending = false;
    if (mc::choose_dev(2)) { cur.storefail = true; seterr(m, 2008); note("store", "", 2008, m->conn); return NULL; }
    MYSQL_RES *r = new MYSQL_RES; r->cols = cur.cols; r->rows = cur.rows; r->null = cur.null; r->f = r->r = 0; r->fld.name = NULL; results.insert(r); return r; }
static void isres(MYSQL_RES *r, const char *f) { MC_CHECK(r && results.count(r), "mysql:no result", "%s on something that is no result", f); }
static void drop(MYSQL_RES *r) { for (size_t i = 0; i < r->cells.size(); i++) free(r->cells[i]); r->cells.clear(); }
MYSQL_FIELD *mysql_fetch_field(MYSQL_RES *r) { isres(r, "mysql_fetch_field"); free(r->fld.name); r->fld.name = NULL; if (r->f >= r->cols.size()) return NULL; r->fld.name = strdup(r->cols[r->f++].c_str()); r->fld.org_name = r->fld.name; r->fld.table = r->fld.name; return &r->fld; }
unsigned mysql_num_fields(MYSQL_RES *r) { isres(r, "mysql_num_fields"); return r->cols.size(); }
my_ulonglong mysql_num_rows(MYSQL_RES *r) { isres(r, "mysql_num_rows"); return r->rows.size(); }
MYSQL_ROW mysql_fetch_row(MYSQL_RES *r) { isres(r, "mysql_fetch_row"); drop(r); if (r->r >= r->rows.size()) return NULL; r->row.clear(); r->len.clear(); for (size_t i = 0; i < r->cols.size(); i++) { const string &s = r->rows[r->r][i]; r->len.push_back(s.size()); if (r->null[r->r][i]) { r->row.push_back(NULL); continue; } char *p = (char *)malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; r->cells.push_back(p); r->row.push_back(p); } r->r++; return &r->row[0]; }
unsigned long *mysql_fetch_lengths(MYSQL_RES *r) { isres(r, "mysql_fetch_lengths"); return r->len.empty() ? NULL : &r->len[0]; }
void mysql_free_result(MYSQL_RES *r) { if (!r) return; MC_CHECK(results.count(r), "mysql:result freed twice", "mysql_free_result on something that is no result"); results.erase(r); drop(r); free(r->fld.name); delete r; }
unsigned long mysql_real_escape_string(MYSQL *m, char *to, const char *s, unsigned long n) { need(m, "mysql_real_escape_string"); char *t = to; for (unsigned long i = 0; i < n; i++) { char c = s[i]; if (c == 0) { *t++ = '\\'; *t++ = '0'; } else if (c == '\'' || c == '"' || c == '\\') { *t++ = '\\'; *t++ = c; } else *t++ = c; } *t = 0; return t - to; }
int mysql_ping(MYSQL *m) { need(m, "mysql_ping"); return alive(m) ? 0 : 1; }
int mysql_set_character_set(MYSQL *m, const char *c) { need(m, "mysql_set_character_set"); if (!alive(m)) return 1; conns[m->conn].charset = c; return 0; }
}
// ------------------------------------------------------------------- the oracle
static bool islost(unsigned e) { return e == 2006 || e == 2013; }
struct Held { MySqlData *d; Answer a; };
static vector<Held> held; static CMySql *db; static string wanthost, wantdb, wantcs; static bool dbknown, inited; static unsigned wt[3];
static void same(MySqlData &d, const Answer &a, const char *when) {
    if (a.kind == 0) { MC_CHECK(d.affected_rows() == a.affected, "mysql:affected rows", "%s: affected_rows() is %zu instead of %llu", when, d.affected_rows(), a.affected); MC_CHECK(d.num_rows() == 0 && d.num_fields() == 0, "mysql:result", "%s: rows in a result without any", when); }
    MC_CHECK(d.num_rows() == a.rows.size() && d.num_fields() == a.cols.size() && d.Fields() == a.cols, "mysql:result", "%s: %zu rows, %zu fields instead of %zu, %zu", when, d.num_rows(), d.num_fields(), a.rows.size(), a.cols.size());
    for (size_t r = 0; r < a.rows.size(); r++) for (size_t c = 0; c < a.cols.size(); c++) MC_CHECK(d[r][a.cols[c]] == a.rows[r][c], "mysql:value", "%s: row %zu field %s is \"%s\" instead of \"%s\"", when, r, a.cols[c].c_str(), mc::esc(d[r][a.cols[c]]).c_str(), mc::esc(a.rows[r][c]).c_str());
    bool t = false; try { d[a.rows.size()]; } catch (const mysql_exception &) { t = true; } MC_CHECK(t, "mysql:row out of range", "%s: a row behind the last is not refused", when);
    if (a.rows.size()) { t = false; try { d[0]["zz"]; } catch (const mysql_exception &) { t = true; } MC_CHECK(t, "mysql:unknown field", "%s: an unknown field is not refused", when); }
}
static void settled(const char *when) {
    MC_CHECK(results.empty(), "mysql:result leaked", "%s: %zu results are never freed", when, results.size());
    MC_CHECK(conns.size() <= 1, "mysql:connection leaked", "%s: %zu connections are open", when, conns.size());
    for (size_t i = 0; i < held.size(); i++) same(*held[i].d, held[i].a, when);
    // whatever was executed ran on a connection made as configured, in the right database
}
static void connects(size_t from, const char *when) { for (size_t i = from; i < calls.size(); i++) if (calls[i].what == "connect") MC_CHECK(calls[i].arg == mc::strf("%s,u,p,%d,%s", wanthost.c_str(), 3306, wantcs.c_str()), "mysql:connect arguments", "%s: connects as %s", when, calls[i].arg.c_str()); for (map<int, Srv>::iterator i = conns.begin(); i != conns.end(); ++i) if (from < calls.size()) for (size_t k = from; k < calls.size(); k++) if (calls[k].what == "connect" && !calls[k].err) { for (int t = 0; t < 3; t++) MC_CHECK(i->second.t[t] == wt[t], "mysql:timeout", "%s: time limit %d is %u instead of %u", when, t, i->second.t[t], wt[t]); break; } }
static string expect(size_t from, vector<Call> &v) { v.assign(calls.begin() + from, calls.end()); string s; for (size_t i = 0; i < v.size(); i++) s += mc::strf("%s%u ", v[i].what.substr(0, 1).c_str(), islost(v[i].err) ? 1 : v[i].err ? 2 : 0); return s; }
static void op_query(const char *sql) {
    mc::op("  query %s", sql); size_t from = calls.size(); bool thrown = false; Held h; h.d = NULL; pending = false; string err; bool wasopen = !conns.empty();
    try { h.d = new MySqlData(db->query(string(sql))); } catch (const mysql_exception &e) { thrown = true; err = e.what(); }
    mc::op("  -> %s", thrown ? err.c_str() : "result"); vector<Call> v; string s = expect(from, v); bool lost1 = false, fail = false; size_t i = 0; (void)wasopen;
    MC_CHECK(!v.empty() && v[0].what == "query", "mysql:query", "the query is not sent: %s", s.c_str());
    int ran = 0; for (size_t k = 0; k < v.size(); k++) if (v[k].what == "query") { MC_CHECK(v[k].arg == sql, "mysql:query text", "the server is asked %s", v[k].arg.c_str()); if (!v[k].err) ran++; }
    MC_CHECK(ran <= 1, "mysql:executed twice", "the query is executed %d times: %s", ran, s.c_str());
    if (v[0].err) { if (islost(v[0].err)) lost1 = true; else fail = true; }
    if (lost1) { // one new connection, the database, the query once more
        i = 1; MC_CHECK(v.size() > 1 && v[1].what == "connect", "mysql:no reconnect", "a lost connection is not made again: %s", s.c_str()); if (v[1].err) fail = true;
        else { i = 2; if (dbknown && !wantdb.empty()) { MC_CHECK(i < v.size() && v[i].what == "select" && v[i].arg == wantdb, "mysql:database not selected", "after reconnecting: %s", s.c_str()); }
            while (i < v.size() && v[i].what == "select") { if (v[i].err) fail = true; i++; }
            if (!fail) { MC_CHECK(i < v.size() && v[i].what == "query", "mysql:not repeated", "after reconnecting the query is not sent again: %s", s.c_str()); if (v[i].err) fail = true; } } }
    bool dup = cur.cols.size() == 2 && cur.cols[0] == cur.cols[1];
    if (!fail && (cur.storefail || dup || (cur.kind == 0 && cur.affected == ~0ULL))) fail = true;
    MC_CHECK(thrown == fail, fail ? "mysql:error not reported" : "mysql:needless error", "%s: query() %s", s.c_str(), thrown ? ("throws " + err).c_str() : "returns");
    if (ran) { int c = 0; for (size_t k = 0; k < v.size(); k++) if (v[k].what == "query" && !v[k].err) c = v[k].conn; if (conns.count(c)) { if (dbknown) MC_CHECK(conns[c].db == wantdb, "mysql:wrong database", "the query runs in database \"%s\" instead of \"%s\"", conns[c].db.c_str(), wantdb.c_str()); MC_CHECK(conns[c].charset == wantcs, "mysql:character set", "the query runs with character set \"%s\"", conns[c].charset.c_str()); } }
    if (!thrown) { h.a = cur; held.push_back(h); } connects(from, "query"); settled("after the query");
}
static void op_use(const string &d) {
    mc::op("  use \"%s\"", d.c_str()); size_t from = calls.size(); bool thrown = false; try { db->use(d); } catch (const mysql_exception &e) { thrown = true; mc::op("  -> %s", e.what()); }
    vector<Call> v; string s = expect(from, v); bool ok = true;
    if (!d.empty()) { ok = !v.empty() && v.back().what == "select" && !v.back().err && v.back().arg == d; bool lost = false, conn = false; for (size_t i = 0; i < v.size(); i++) if (v[i].what == "select") { if (islost(v[i].err)) { lost = true; conn = i + 1 < v.size() && v[i + 1].what == "connect"; } break; } if (lost) MC_CHECK(conn, "mysql:no reconnect", "use: a lost connection is not made again: %s", s.c_str()); }
    else { for (size_t i = 0; i < v.size(); i++) if (v[i].what == "connect" && v[i].err) ok = false; }
    MC_CHECK(thrown == !ok, "mysql:use", "use(\"%s\") %s although the server: %s", d.c_str(), thrown ? "throws" : "returns", s.c_str());
    dbknown = !thrown && !(d.empty() && !wantdb.empty()); if (!thrown && dbknown) wantdb = d; if (thrown || !dbknown) wantdb = d; connects(from, "use"); settled("after use");
}
static void op_charset(const string &c) { mc::op("  setCharSet %s", c.c_str()); size_t from = calls.size(); wantcs = c; bool thrown = false; try { db->setCharSet(c); } catch (const mysql_exception &e) { thrown = true; mc::op("  -> %s", e.what()); } vector<Call> v; string s = expect(from, v); bool bad = !v.empty() && v.back().err; MC_CHECK(thrown == bad, "mysql:setCharSet", "setCharSet %s although the server: %s", thrown ? "throws" : "returns", s.c_str()); for (map<int, Srv>::iterator i = conns.begin(); i != conns.end(); ++i) MC_CHECK(i->second.charset == c, "mysql:character set", "the open connection keeps character set %s", i->second.charset.c_str()); connects(from, "setCharSet"); settled("after setCharSet"); }
static void op_init(const string &h, const string &cs) {
    mc::op("  Init %s", h.c_str()); wanthost = h; wantcs = cs; wantdb = ""; dbknown = true; size_t from = calls.size(); bool thrown = false; try { db->Init(h, "u", "p", 3306, cs); } catch (const mysql_exception &e) { thrown = true; mc::op("  -> %s", e.what()); }
    vector<Call> v; string s = expect(from, v); MC_CHECK(v.size() == 1 && v[0].what == "connect" && thrown == (v[0].err != 0), "mysql:Init", "Init %s: %s", thrown ? "throws" : "returns", s.c_str()); inited = true; connects(from, "Init"); settled("after Init"); }
static void op_escape() { static const string T[] = { "", "a'b", string("\0\\", 2), "\"'\\'" }; static const string R[] = { "", "a\\'b", "\\0\\\\", "\\\"\\'\\\\\\'" }; int k = mc::choose(4); size_t from = calls.size(); mc::op("  escape_string"); string r; bool thrown = false; try { char *p = new char[T[k].size() + 1]; memcpy(p, T[k].data(), T[k].size()); r = db->escape_string(p, T[k].size()); delete[] p; MC_CHECK(db->escape_string(T[k]) == R[k], "mysql:escape", "escape_string gives other texts for a string"); } catch (const mysql_exception &) { thrown = true; } vector<Call> v; expect(from, v); if (!thrown) MC_CHECK(r == R[k], "mysql:escape", "escape_string(%s) is %s", mc::esc(T[k]).c_str(), mc::esc(r).c_str()); bool bad = false; for (size_t i = 0; i < v.size(); i++) if (v[i].err) bad = true; MC_CHECK(thrown == bad, "mysql:escape", "escape_string %s", thrown ? "throws" : "returns"); settled("after escape_string"); }
static void reset() { for (size_t i = 0; i < held.size(); i++) delete held[i].d; held.clear(); conns.clear(); results.clear(); calls.clear(); nconn = 0; nans = 0; pending = false; cur = Answer(); inited = false; dbknown = true; wantdb = wantcs = ""; for (int i = 0; i < 3; i++) wt[i] = 2; }
static void finish() { mc::op("  destroy"); delete db; db = NULL; MC_CHECK(conns.empty(), "mysql:connection leaked", "%zu connections outlive the object", conns.size()); settled("after destruction"); while (!held.empty()) { delete held.back().d; held.pop_back(); settled("after a result was released"); } }
// ------------------------------------------------------------------------ spaces
static void s_ops() {
    reset(); void *mem = malloc(sizeof(CMySql)); memset(mem, 0x5a, sizeof(CMySql)); free(mem); db = new CMySql; mc::set_deviations(mc::tier(2, 3)); mc::nontrivial();
    if (mc::choose(2)) { db->setConnectTime(wt[0] = 7); db->setReadTime(wt[1] = 8); db->setWriteTime(wt[2] = 9); if (mc::choose(2)) db->setCharSet("early"); }
    op_init("h1", mc::choose(2) ? "utf8" : "");
    for (int s = 0; s < mc::tier(3, 4); s++) {
        int k = mc::choose(8); if (!k) break;
        if (k == 1) op_query("select 1"); else if (k == 2) op_query(""); else if (k == 3) op_use("d1"); else if (k == 4) op_use(mc::choose(2) ? "d2" : ""); else if (k == 5) op_charset("gbk"); else if (k == 6) op_escape(); else op_init("h2", "latin1");
        mc::state(mc::hmix(calls.size() * 64 + conns.size() * 8 + held.size(), mc::hash(wantdb + "/" + wantcs)));
    }
    finish(); mc::done();
}
static Answer mka(int k) { Answer a; a = Answer(); a.kind = k > 0; a.affected = k ? 0 : 5; if (k) { a.cols.push_back("a"); for (int r = 0; r < k; r++) { a.rows.push_back(vector<string>(1, mc::strf("v%d", r))); a.null.push_back(vector<bool>(1, false)); } } return a; }
static MySqlData mkd(const Answer &a) { MySqlBasicData *b = new MySqlBasicData; b->affected_rows(a.affected); b->Fields(a.cols); for (size_t i = 0; i < a.rows.size(); i++) { vector<string> r = a.rows[i]; b->push_back(r); } b->genrows(); return MySqlData(b); }
// results are copied, assigned and released in any order
static void s_results() {
    reset(); mc::nontrivial(); for (int i = 0; i < 2; i++) { Held h; h.a = mka(i * 2); h.d = new MySqlData(mkd(h.a)); held.push_back(h); }
    for (int s = 0; s < mc::tier(5, 7); s++) {
        int k = mc::choose(1 + 9 + 3 + 3); if (!k) break; mc::step();
        if (k <= 9) { size_t i = (k - 1) / 3, j = (k - 1) % 3; if (i >= held.size() || j >= held.size()) mc::prune(); mc::op("  %zu = %zu", i, j); MySqlData &r = *held[j].d; *held[i].d = r; held[i].a = held[j].a; }
        else if (k <= 12) { size_t i = k - 10; if (i >= held.size() || held.size() >= 3) mc::prune(); mc::op("  copy of %zu", i); Held h; h.a = held[i].a; h.d = new MySqlData(*held[i].d); held.push_back(h); }
        else { size_t i = k - 13; if (i >= held.size()) mc::prune(); mc::op("  release %zu", i); delete held[i].d; held.erase(held.begin() + i); }
        settled("after the operation"); mc::state(mc::hmix(held.size(), held.empty() ? 0 : held[0].a.rows.size()));
    }
    while (!held.empty()) { delete held.back().d; held.pop_back(); settled("at the end"); } mc::done();
}
int main(int argc, char **argv) { vector<mc::Space> s; s.push_back({ "operations", s_ops, false, 0, "all sequences of operations with failures and lost connections at every library call" }); s.push_back({ "results", s_results, false, 0, "results copied, assigned and released in every order" }); return mc::run(argc, argv, s, "operations of the real CMySql over a model of the client library; non-trivial: every execution"); }
