// Worker pools: requests from connections are handled by threads and answered on
// the same connection.
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <map>
#include <set>
#include <unordered_map>
#include <functional>
#include <stdexcept>
#include <arpa/inet.h>
#include "CCommMgr.h"
#include "CAnyWorkerPool.h"
#include "CHttpWorkerPool.h"
#include "CRawWorkerPool.h"
#include "netsim.h"
using namespace std; using namespace lce;
ns::World *ns::W;
#ifndef MC_MEM
static size_t track[2]; static long live[2];
void *operator new(size_t n) { void *p = malloc(n + 16); int k = n == track[0] ? 1 : n == track[1] ? 2 : 0; if (k) live[k - 1]++; *(int *)p = k; return (char *)p + 16; }
static void rel(void *p) { if (!p) return; char *q = (char *)p - 16; int k = *(int *)q; if (k) live[k - 1]--; free(q); }
void operator delete(void *p) throw() { rel(p); } void operator delete(void *p, size_t) throw() { rel(p); }
#else
static size_t track[2]; static long live[2];
#endif
struct Cl { int id; uint16_t port; vk::Conn *c; vector<string> req; bool gone, badsent; };
static vector<Cl> cls; static int refused, thrown, baddec, others; static CCommMgr *mgr; static bool stopping; static int handling[4];
static void onerr(const char *m) { rt::Quiet z; string s = m; mc::op("  error handler: %s", s.c_str()); if (s == "boom") thrown++; else if (s == "task queue full") refused++; else baddec++; }
static int gather, inside; static pthread_mutex_t gm; static pthread_cond_t gc;
static void meet() { track[0] = track[1] = 0; pthread_mutex_lock(&gm); inside++; if (inside == gather) pthread_cond_broadcast(&gc); while (inside < gather) pthread_cond_wait(&gc, &gm); pthread_mutex_unlock(&gm); }
static string act(const string &q, bool &cl, int *mine) { // the work itself
    { rt::Quiet z; mc::op("  work %s", q.c_str()); mc::step(); MC_CHECK(*mine == 0, "pool:worker shared", "a worker handles two requests at once"); (*mine)++; }
    if (q.size() && q[0] == 'm') meet(); string r = "re:" + q; if (q.size() && q[0] == 's') { CCommMgr::getInstance().stop(); { rt::Quiet z; stopping = true; } rt::yield(); rt::yield(); }
    if (q.size() && q[0] == 'c') cl = true; if (q.size() && q[0] == 'b') r.resize(3000, 'b'); { rt::Quiet z; (*mine)--; } if (q.size() && q[0] == 't') throw runtime_error("boom"); return r; }
#if defined(P_ANY)
struct Wk : CAnyWorker { int busy; Wk() : busy(0) {} ~Wk() { busy = 99; } void onRequest(CAnyRequest &q, CAnyResponse &r) { bool c = false; string t = q.getReader()["q"]; string x = act(t, c, &busy); r.getWriter()["r"] = x; r.getWriter().head().setSeq(q.getReader().head().getSeq()); if (c) r.setCloseFlag(true); } };
typedef CAnyWorkerPool<Wk> Pool; static const ns::Framing FR = ns::F_LONG; static const int PT = PKG_H2LT3; static const size_t RQ = sizeof(CAnyRequest), RS = sizeof(CAnyResponse);
static string enc(const string &t) { CAnyPackage p; p["q"] = t; p.encode(); p.setEtx(); p.head().setStx(2); p.head().setLen(p.size()); return string(p.data(), p.size()); }
static string dec(const string &d) { CAnyPackage p; p.decode(d.data(), d.size()); string s = p["r"]; return s; }
static string bad() { return ns::mk(ns::F_LONG, string(70, '\x7f')); }
#elif defined(P_HTTP)
struct Wk : CHttpWorker { int busy; Wk() : busy(0) {} ~Wk() { busy = 99; } void onRequest(CHttpRequest &q, CHttpResponse &r) { bool c = false; string t; q.getReader().getValue("q", t); string x = act(t, c, &busy); r.getWriter().begin(); r.getWriter() << x; r.getWriter().end(); if (c) r.setCloseFlag(true); } };
typedef CHttpWorkerPool<Wk> Pool; static const ns::Framing FR = ns::F_HTTP; static const int PT = PKG_HTTP; static const size_t RQ = sizeof(CHttpRequest), RS = sizeof(CHttpResponse);
static string enc(const string &t) { return "GET /x?q=" + t + " HTTP/1.1\r\nHost: a\r\n\r\n"; }
static string dec(const string &d) { MC_CHECK(d.compare(0, 15, "HTTP/1.1 200 OK") == 0, "pool:response", "not a response: %s", mc::esc(d).c_str()); size_t p = d.find("\r\n\r\n"); return d.substr(p + 4); }
static string bad() { return ""; }
#else
struct Wk : CRawWorker { int busy; Wk() : busy(0) {} ~Wk() { busy = 99; } void onRequest(CRawRequest &q, CRawResponse &r) { bool c = false; string d = q.getReader(); MC_CHECK(d.size() >= 4 && d[0] == 2 && d[d.size() - 1] == 3, "pool:request", "the worker gets %s", mc::esc(d).c_str()); string x = act(d.substr(3, d.size() - 4), c, &busy); r.getWriter() = ns::mk(ns::F_SHORT, x); if (c) r.setCloseFlag(true); } };
typedef CRawWorkerPool<Wk> Pool; static const ns::Framing FR = ns::F_SHORT; static const int PT = PKG_H2ST3; static const size_t RQ = sizeof(CRawRequest), RS = sizeof(CRawResponse);
static string enc(const string &t) { return ns::mk(ns::F_SHORT, t); }
static string dec(const string &d) { return d.substr(3, d.size() - 4); }
static string bad() { return ""; }
#endif
static vector<string> answers(Cl &c) { vector<string> v; string s = c.c->sent; size_t n; while (!s.empty()) { int r = ns::ref_frame(FR, s, n); if (r != 0) { MC_CHECK(c.gone || stopping, "pool:response", "client %d gets part of a response: %s", c.id, mc::esc(s).c_str()); break; } v.push_back(dec(s.substr(0, n))); s.erase(0, n); } return v; }
static Pool *pool; static int threads;
static void world(int t, int q, bool handler) {
    rt::begin(); mc::nontrivial(); cls.clear(); refused = thrown = baddec = others = 0; stopping = false; vk::on_misuse = [](const char *w, int fd) { mc::fail("pool:descriptor misuse", "%s (%d)", w, fd); };
    rt::set_deadlock([]() { string b = rt::blocked_report(); mc::fail("pool:deadlock", "an operation never completes\n%s", b.c_str()); });
    CCommMgr::m_pInstance = NULL; mgr = &CCommMgr::getInstance(); MC_CHECK(mgr->init(20) == 0, "pool:init", "init"); threads = t; track[0] = track[1] = 0; live[0] = live[1] = 0;
    void *mem = malloc(sizeof(Pool)); memset(mem, 0x5a, sizeof(Pool)); pool = new (mem) Pool; MC_CHECK(pool->init(t, q) == 0, "pool:init", "init"); if (handler) pool->setErrHandler(onerr);
    int id = mgr->createSrv(SRV_TCP, "127.0.0.1", 9000); MC_CHECK(id >= 0, "pool:createSrv", "createSrv"); mgr->setProcessor(id, pool, PT); pool->run(); track[0] = RQ; track[1] = RS;
}
static void open_client() { Cl c; c.id = cls.size(); c.port = 100 + c.id; c.c = vk::incoming(9000, 0x0a000001, c.port); c.gone = c.badsent = false; cls.push_back(c); mc::op("client %d connects", c.id); }
static void send(int i, const vector<string> &qs) { string d; for (size_t k = 0; k < qs.size(); k++) { d += enc(qs[k]); cls[i].req.push_back(qs[k]); mc::op("client %d sends %s", i, qs[k].c_str()); } vk::deliver(cls[i].c, d); }
static void teardown(bool leaks) {
    mc::op("destroy the pool"); pool->~Pool(); memset((void *)pool, 0x5a, sizeof(Pool)); free((void *)pool); MC_CHECK(rt::live_fibers() == 0, "pool:threads left", "%d threads survive the pool", rt::live_fibers());
    track[0] = track[1] = 0; delete CCommMgr::m_pInstance; CCommMgr::m_pInstance = NULL; rt::end();
#ifndef MC_MEM
    if (leaks) { MC_CHECK(live[0] == 0, "pool:request leaked", "%ld requests are never freed", live[0]); MC_CHECK(live[1] == 0, "pool:response leaked", "%ld responses are never freed", live[1]); }
#endif
}
static void verify() {
    rt::Quiet z; int got = 0, sent = 0; bool partial = false; for (size_t i = 0; i < cls.size(); i++) {
        Cl &c = cls[i]; vector<string> a = answers(c); mc::op("client %zu got %zu answers", i, a.size()); vector<bool> used(c.req.size()); size_t last = 0; bool closes = false; for (size_t k = 0; k < c.req.size(); k++) if (c.req[k][0] == 'c') closes = true;
        for (size_t k = 0; k < a.size(); k++) { size_t j = 0; for (; j < c.req.size(); j++) { string w = "re:" + c.req[j]; if (c.req[j][0] == 'b') w.resize(3000, 'b'); if (!used[j] && a[k] == w) break; } if (j == c.req.size()) { for (size_t o = 0; o < cls.size(); o++) for (size_t q = 0; q < cls[o].req.size(); q++) if (o != i && a[k] == "re:" + cls[o].req[q]) mc::fail("pool:wrong connection", "client %zu gets the answer to %s of client %zu", i, cls[o].req[q].c_str(), o); mc::fail("pool:answer", "client %zu gets %s, which answers nothing or something twice", i, mc::esc(a[k]).c_str()); } used[j] = true; if (threads == 1) { MC_CHECK(j >= last, "pool:order", "one thread answers %s out of order", c.req[j].c_str()); last = j; } }
        got += a.size(); sent += c.req.size(); if (c.gone || closes || c.badsent) partial = true; else if (!refused) for (size_t j = 0; j < c.req.size(); j++) MC_CHECK(used[j] || c.req[j][0] == 't', "pool:lost", "client %zu gets no answer to %s", i, c.req[j].c_str());
        bool closed = c.c->closes > 0; if (!c.gone) { bool may = closes || c.badsent; MC_CHECK(!closed || may, "pool:closed", "the connection of client %zu is closed", i); bool cdone = false; for (size_t j = 0; j < used.size(); j++) if (used[j] && c.req[j][0] == 'c') cdone = true; MC_CHECK(!cdone || closed, "pool:not closed", "the connection of client %zu stays open after an answer with the close flag", i); MC_CHECK(!c.badsent || closed, "pool:not closed", "the connection of client %zu stays open after a broken request", i); } }
    MC_CHECK(got + thrown + refused <= sent + 0 && (partial || got + thrown + refused == sent), "pool:lost", "%d requests, but %d answers, %d exceptions and %d refusals", sent, got, thrown, refused); mc::state(mc::hmix(got * 64 + thrown * 8 + refused, baddec));
}
static const char *KINDS[] = { "e", "t", "c", "b" };
// requests from two clients, one of them may leave, a third may take its descriptor
static void s_work() {
#ifdef MC_MEM
    int t = 1 + mc::choose(2), q = 100; if (mc::tier(0, 1) && mc::choose(2)) q = 0; world(t, q, true);
    mc::set_deviations(mc::tier(1, 2)); rt::race_detect(true); { rt::Quiet z; rt::race_ignore(mgr, 0); }
#else
    int t = 1 + mc::choose(2), q = mc::choose(2) ? 100 : 0; world(t, q, true); mc::set_deviations(mc::tier(1, 2));
#endif
    string k0 = KINDS[mc::choose(4)], k1 = KINDS[mc::tier(0, 1) ? mc::choose(2) : 0]; int leave = mc::choose(4), batch = mc::tier(0, 1) ? mc::choose(2) : q == 0; bool brk = leave == 3; if (brk && bad().empty()) leave = 0, brk = false;
    rt::spawn([=]() { { rt::Quiet z; open_client(); open_client(); if (batch) { vector<string> v; v.push_back(k0 + "0"); v.push_back("e1"); send(0, v); } else { send(0, vector<string>(1, k0 + "0")); } } rt::yield(); { rt::Quiet z; send(1, vector<string>(1, k1 + "2")); if (!batch) send(0, vector<string>(1, "e1")); } rt::yield(); if (leave) { rt::Quiet z; if (brk) { cls[0].badsent = true; vk::deliver(cls[0].c, bad()); mc::op("client 0 sends a broken request"); } else { cls[0].gone = true; mc::op("client 0 %s", leave == 1 ? "closes" : "resets"); if (leave == 1) vk::fin(cls[0].c); else vk::rst(cls[0].c); } } rt::yield(); if (leave) { rt::Quiet z; open_client(); send(2, vector<string>(1, "e3")); } }, "clients");
    rt::set_idle([]() { mgr->stop(); return false; }); mgr->start(); rt::race_detect(false); verify(); teardown(true);
}
// destruction while a worker runs
static void s_destroy() { int t = 1 + mc::choose(2); world(t, 100, true); mc::set_deviations(mc::tier(1, 3)); string second = mc::choose(2) ? "e1" : "s1"; rt::spawn([=]() { rt::Quiet z; open_client(); vector<string> v; v.push_back("s0"); v.push_back(second); if (mc::choose(2)) v.push_back("e2"); send(0, v); }, "clients"); mgr->start(); rt::race_detect(false); teardown(false); }
// errors without a handler, and messages the loop cannot take
static void s_errors() {
    bool handler = mc::choose(2); int t = 1; world(t, mc::choose(2) ? 100 : 0, handler); mc::set_deviations(mc::tier(2, 3)); int fails = mc::choose(3); int f = fails;
    vk::fault = [&](const char *c, int fd, size_t) -> long { if (f > 0 && !strcmp(c, "write") && rt::self() != 0) { f--; return -ENOMEM; } return 0; };
    string k = KINDS[mc::choose(4)]; rt::spawn([=]() { { rt::Quiet z; open_client(); vector<string> v; v.push_back(k + "0"); v.push_back("e1"); v.push_back("t2"); v.push_back("e3"); send(0, v); } rt::yield(); rt::Quiet z; if (bad().size()) { cls[0].badsent = true; vk::deliver(cls[0].c, bad()); } }, "clients");
    rt::set_idle([]() { mgr->stop(); return false; }); mgr->start(); if (!fails && handler) verify(); teardown(true);
}
// as many requests at once as there are threads, each with a worker of its own
static void s_own() {
    int t = 2 + mc::choose(mc::tier(2, 3)); world(t, 100, true); mc::set_deviations(mc::tier(0, t <= 2 ? 1 : 0)); gather = t; inside = 0; pthread_mutex_init(&gm, 0); pthread_cond_init(&gc, 0); int rounds = 1;
    rt::spawn([=]() { rt::Quiet z; open_client(); open_client(); for (int r = 0; r < rounds; r++) for (int i = 0; i < t; i++) send(i & 1, vector<string>(1, mc::strf("m%d", i))); }, "clients");
    rt::set_idle([]() { mgr->stop(); return false; }); mgr->start(); verify(); teardown(false);
}
int main(int argc, char **argv) { vector<mc::Space> s;
#ifndef MC_MEM
    s.push_back({ "own-worker", s_own, false, 0, "2-4 (6) threads that all handle a request at the same time" });
#endif
     s.push_back({ "work", s_work, false, 0, "two or three clients, one or two threads, clients leaving, descriptors reused" }); s.push_back({ "destroy", s_destroy, false, 0, "the pool is destroyed while its threads work" }); s.push_back({ "errors", s_errors, false, 0, "exceptions, full queue, messages that fail, no error handler" }); return mc::run(argc, argv, s, "schedules of the real pool, task threads and event loop over the simulated kernel; non-trivial: always"); }
