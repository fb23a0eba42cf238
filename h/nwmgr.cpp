// CNetWorkerMgr: accepted connections are handed to worker threads.
#include <stdint.h>
#include <string.h>
#include <map>
#include <unordered_map>
#include <functional>
#include <arpa/inet.h>
#include "CNetWorkerMgr.h"
#include "netsim.h"
using namespace std; using namespace lce;
ns::World *ns::W;
struct Cl { uint16_t port; vk::Conn *c; vector<string> req; bool gone, closes; };
struct Rec { struct Wk *w; int tid; int connects, closes, errors; vector<string> reads; Rec() : w(0), tid(-1), connects(0), closes(0), errors(0) {} };
static vector<Cl> cls; static map<uint16_t, Rec> recs; static vector<struct Wk *> works; static int srvid, mgrerr, mainfiber; static bool stopping; static int foreign;
static string enc(const string &t) { return ns::mk(ns::F_SHORT, t); }
static Rec &rec(const StSession &s, struct Wk *w, const char *cb);
static void want_stop();
struct Wk : CNetWorker {
    int busy, tid, inits; map<int, pair<StSession, string> > later; int nlater; Wk() : busy(0), tid(-1), inits(0), nlater(0) { works.push_back(this); }
    ~Wk() { for (size_t i = 0; i < works.size(); i++) if (works[i] == this) works[i] = NULL; }
    using CNetWorker::init; int init() { inits++; return 0; }
    void reply(StSession &s, const string &q, bool cl) { string d = enc("re:" + q); char *x = new char[d.size()]; memcpy(x, d.data(), d.size()); write(s, x, d.size(), cl); memset(x, '#', d.size()); delete[] x; }
    void onRead(StSession &s, const char *d, const int n) {
        string q; { rt::Quiet z; Rec &r = rec(s, this, "onRead"); string p(d, n); MC_CHECK(n >= 4 && p[0] == 2 && p[n - 1] == 3 && (uint8_t)p[2] == n, "nwmgr:packet", "onRead gets %s", mc::esc(p).c_str()); q = p.substr(3, n - 4); r.reads.push_back(q); MC_CHECK(busy++ == 0, "nwmgr:worker shared", "two callbacks of one worker at once"); }
        int k = q[0];
        if (k == 'e') reply(s, q, false); else if (k == 'c') reply(s, q, true); else if (k == 'x') close(s);
        else if (k == 't') { int id = nlater++; later[id] = make_pair(s, q); addTimer(id, 3); }
        else if (k == 'm') { int id = nlater++; later[id] = make_pair(s, q); sendMessage(id, (void *)"m"); }
        else if (k == 'o') { reply(s, q, false); Wk *o; { rt::Quiet z; o = this; for (size_t i = 0; i < works.size(); i++) if (works[i] == this) o = works[(i + 1) % works.size()]; } o->sendMessage(77, (void *)o); }
        else if (k == 's') { { rt::Quiet z; stopping = true; } want_stop(); rt::yield(); }
        { rt::Quiet z; busy--; } }
    void onClose(StSession &s) { rt::Quiet z; Rec &r = rec(s, this, "onClose"); r.closes++; MC_CHECK(r.closes == 1, "nwmgr:closed twice", "onClose twice"); }
    void onConnect(StSession &s, bool ok, void *) { rt::Quiet z; Rec &r = rec(s, this, "onConnect"); MC_CHECK(ok && r.connects++ == 0, "nwmgr:connect", "onConnect twice or failed"); }
    void onError(StSession &s, const char *m, int e) { rt::Quiet z; if (e == ERR_NOT_READY) return; Rec &r = rec(s, this, "onError"); r.errors++; }
    void mine(const char *cb) { int t = rt::self(); if (tid < 0) tid = t; MC_CHECK(tid == t, "nwmgr:wrong thread", "%s of a worker on thread %d and %d", cb, tid, t); MC_CHECK(t != mainfiber, "nwmgr:wrong thread", "%s of a worker on the accepting thread", cb); }
    void answer(int id) { StSession s; string q; { rt::Quiet z; MC_CHECK(later.count(id), "nwmgr:unknown event", "timer or message %d was never set by this worker", id); s = later[id].first; q = later[id].second; later.erase(id); } reply(s, q, false); }
    void onTimer(int id, void *) { { rt::Quiet z; mine("onTimer"); mc::op("  onTimer %d", id); } answer(id); }
    void onMessage(int id, void *p) { { rt::Quiet z; mine("onMessage"); mc::op("  onMessage %d", id); if (id == 77) { MC_CHECK(p == this, "nwmgr:wrong worker", "a message reaches another worker"); foreign++; return; } MC_CHECK(!strcmp((char *)p, "m"), "nwmgr:message", "message data changed"); } answer(id); }
};
static CNetWorkerMgr<Wk> *mgr; static void want_stop() { mgr->stop(); }
static Rec &rec(const StSession &s, Wk *w, const char *cb) {
    uint16_t p = ntohs(s.stClientAddr.sin_port); mc::op("  %s peer %u on thread %d", cb, p, rt::self()); mc::step(); w->mine(cb);
    MC_CHECK(p >= 100 && p < 100 + cls.size() && s.stClientAddr.sin_addr.s_addr == htonl(0x0a000001) && s.iSvrId == srvid, "nwmgr:session", "%s for peer %x:%u of server %d", cb, ntohl(s.stClientAddr.sin_addr.s_addr), p, s.iSvrId);
    Rec &r = recs[p]; if (!r.w) r.w = w; MC_CHECK(r.w == w, "nwmgr:two workers", "%s: the connection of peer %u is with two workers", cb, p); MC_CHECK(strcmp(cb, "onConnect") == 0 || r.connects == 1, "nwmgr:no connect", "%s of peer %u without onConnect", cb, p);
    MC_CHECK(strcmp(cb, "onConnect") == 0 || !r.closes, "nwmgr:after close", "%s of peer %u after onClose", cb, p); MC_CHECK(s.iFd >= 0 && cls[p - 100].c->fd == s.iFd, "nwmgr:descriptor", "%s of peer %u has descriptor %d instead of %d", cb, p, s.iFd, cls[p - 100].c->fd); return r; }
static void onerr(const char *m) { rt::Quiet z; mgrerr++; mc::op("  error handler"); MC_CHECK(rt::self() == mainfiber, "nwmgr:wrong thread", "the error handler runs on a worker"); }
static void world(int k, int maxc) {
    rt::begin(); rt::delay_bounded(true); mc::nontrivial(); cls.clear(); recs.clear(); works.clear(); mgrerr = 0; stopping = false; foreign = 0; mainfiber = rt::self(); vk::on_misuse = [](const char *w, int fd) { mc::fail("nwmgr:descriptor misuse", "%s (%d)", w, fd); };
    rt::set_deadlock([]() { string b = rt::blocked_report(); mc::fail("nwmgr:deadlock", "an operation never completes\n%s", b.c_str()); });
    void *mem = malloc(sizeof(*mgr)); memset(mem, 0x5a, sizeof(*mgr)); mgr = new (mem) CNetWorkerMgr<Wk>; MC_CHECK(mgr->init(k, maxc) == 0, "nwmgr:init", "init fails: %s", mgr->getErrMsg()); MC_CHECK((int)works.size() == k, "nwmgr:workers", "%zu workers instead of %d", works.size(), k);
    for (int i = 0; i < k; i++) MC_CHECK(works[i]->inits == 1, "nwmgr:worker init", "init() of worker %d called %d times", i, works[i]->inits);
    srvid = mgr->createSrv("127.0.0.1", 9000, PKG_H2ST3); MC_CHECK(srvid >= 0, "nwmgr:createSrv", "createSrv fails: %s", mgr->getErrMsg()); mgr->setErrHandler(onerr);
#ifdef MC_MEM
    rt::race_detect(true);
#endif
}
static void open_client() { Cl c; c.port = 100 + cls.size(); c.c = vk::incoming(9000, 0x0a000001, c.port); c.gone = c.closes = false; mc::op("client %u connects", c.port); cls.push_back(c); }
static void send(int i, const string &q) { mc::op("client %u sends %s", cls[i].port, q.c_str()); cls[i].req.push_back(q); if (q[0] == 'c' || q[0] == 'x') cls[i].closes = true; vk::deliver(cls[i].c, enc(q)); }
static void run() { rt::set_idle([]() { mgr->stop(); return false; }); mgr->start(); rt::race_detect(false); { rt::wait_quiescent(); } MC_CHECK(rt::live_fibers() == 0, "nwmgr:workers left", "%d workers survive stop()", rt::live_fibers()); }
static void teardown() { vector<Wk *> w = works; for (size_t i = 0; i < w.size(); i++) delete w[i]; mgr->~CNetWorkerMgr<Wk>(); memset((void *)mgr, 0x5a, sizeof(*mgr)); free((void *)mgr); rt::end(); }
static void verify(size_t refused = 0) {
    rt::Quiet z; map<Wk *, int> load; int others = 0; size_t served = 0; for (size_t i = 0; i < cls.size(); i++) {
        Cl &c = cls[i]; if (!recs.count(c.port)) { MC_CHECK(c.gone || refused, "nwmgr:lost connection", "the connection of client %u reaches no worker", c.port); if (refused) refused--; continue; } served++; Rec &r = recs[c.port]; load[r.w]++;
        MC_CHECK(r.connects == 1 && !r.errors, "nwmgr:connect", "client %u: %d onConnect, %d onError", c.port, r.connects, r.errors); MC_CHECK(r.reads.size() <= c.req.size() && equal(r.reads.begin(), r.reads.end(), c.req.begin()), "nwmgr:packets", "the packets of client %u are not those it sent, in order", c.port);
        vector<string> want; size_t stop = c.req.size(); for (size_t j = 0; j < c.req.size(); j++) if (c.req[j][0] == 'c' || c.req[j][0] == 'x') { stop = j + 1; break; }
        if (!c.gone) { MC_CHECK(r.reads.size() >= stop, "nwmgr:lost packet", "client %u sent %zu packets, %zu arrived", c.port, c.req.size(), r.reads.size()); }
        MC_CHECK(r.reads.size() <= stop, "nwmgr:after close", "packets of client %u arrive after its connection was closed", c.port);
        vector<string> got; string s = c.c->sent; size_t n; while (!s.empty()) { int rc = ns::ref_frame(ns::F_SHORT, s, n); MC_CHECK(rc == 0, "nwmgr:answer", "client %u gets broken data %s", c.port, mc::esc(s).c_str()); got.push_back(s.substr(3, n - 4)); s.erase(0, n); }
        vector<bool> used(r.reads.size()); for (size_t k = 0; k < got.size(); k++) { size_t j = 0; for (; j < used.size(); j++) if (!used[j] && got[k] == "re:" + r.reads[j]) break; MC_CHECK(j < used.size(), "nwmgr:answer", "client %u gets %s", c.port, got[k].c_str()); used[j] = true; }
        for (size_t j = 0; j < used.size(); j++) { if (r.reads[j][0] == 'o') others++; if (!c.gone && !c.closes) MC_CHECK(used[j], "nwmgr:lost answer", "client %u gets no answer to %s", c.port, r.reads[j].c_str()); if (r.reads[j][0] == 'c' && !c.gone) MC_CHECK(used[j], "nwmgr:lost answer", "client %u gets no answer to %s", c.port, r.reads[j].c_str()); }
        bool fin = c.closes && r.reads.size() == stop; MC_CHECK((c.c->closes > 0) == (c.gone || fin), "nwmgr:closing", "the connection of client %u %s", c.port, c.c->closes ? "is closed for no reason" : "stays open"); MC_CHECK(c.c->closes <= 1, "nwmgr:closing", "closed twice"); MC_CHECK(r.closes == 0 || c.gone, "nwmgr:onClose", "onClose although the peer is there"); if (c.gone && !c.closes) MC_CHECK(r.closes == 1, "nwmgr:onClose", "no onClose for client %u", c.port); }
    MC_CHECK(foreign == others, "nwmgr:messages", "%d of %d messages to another worker arrive", foreign, others); int lo = 1 << 30, hi = 0; for (size_t i = 0; i < works.size(); i++) { int l = load[works[i]]; lo = min(lo, l); hi = max(hi, l); } MC_CHECK(hi - lo <= 1, "nwmgr:balance", "one worker has %d connections, another %d", hi, lo); mc::state(mc::hmix(served * 64 + foreign, hi)); }
static const char *KINDS[] = { "e", "c", "x", "t", "m", "o" };
static void s_work() {
#ifdef MC_MEM
    int k = 1 + mc::choose(2), dev = mc::tier(1, 2);
#else
    int k = 1 + mc::choose(3), dev = mc::tier(2, 3);
#endif
    world(k, 40); mc::set_deviations(dev); string a = KINDS[mc::choose(6)], b = KINDS[mc::choose(2)]; int leave = mc::choose(3), late = mc::choose(2);
    rt::spawn([=]() { { rt::Quiet z; open_client(); send(0, a + "0"); open_client(); if (!late) open_client(); } rt::yield(); { rt::Quiet z; send(1, b + "1"); send(0, "e2"); if (!late) send(2, "e3"); } rt::yield(); if (leave) { rt::Quiet z; cls[0].gone = true; mc::op("client 100 %s", leave == 1 ? "closes" : "resets"); if (leave == 1) vk::fin(cls[0].c); else vk::rst(cls[0].c); } rt::yield(); if (late) { rt::Quiet z; open_client(); send(2, "e3"); rt::yield(); send(2, "e4"); } }, "clients");
    run(); verify(); teardown();
}
// batches of connections, accept() failures, the limit
#ifdef MC_MEM
static const int ADEV = 0;
#else
#define ADEV mc::tier(1, 2)
#endif
static void s_accept() {
    int k = 1 + mc::choose(3), few = mc::choose(2); static const int E[] = { 0, EMFILE, ECONNABORTED, EINTR, ENOBUFS }; int f = E[mc::choose(5)], at = f ? mc::choose(4) : 0, n = 0, hits = 0; size_t limited = 0; world(k, few ? 9 + 4 * k : 40); mc::set_deviations(ADEV);
    vk::fault = [&](const char *c, int, size_t) -> long { if (f && !strcmp(c, "accept") && n++ == at) { hits++; return -f; } return 0; };
    int m = 2 + mc::choose(5), pre = mc::choose(m + 1);
    for (int i = 0; i < pre; i++) { open_client(); send(i, "e" + to_string(i)); }
    rt::spawn([=]() { for (int i = pre; i < m; i++) { rt::Quiet z; open_client(); send(i, "e" + to_string(i)); if (i % 2) rt::yield(); } }, "clients"); run();
    for (size_t i = 0; i < cls.size(); i++) if (!recs.count(cls[i].port)) { limited++; MC_CHECK((few || (f == ECONNABORTED && hits)) && cls[i].c->closes == 1, "nwmgr:lost connection", "client %u is not served", cls[i].port); }
    int want = limited + (hits && f != EINTR && f != ECONNABORTED ? 1 : 0); MC_CHECK(mgrerr == want, "nwmgr:error handler", "the error handler is called %d times instead of %d", mgrerr, want); MC_CHECK(!few || (size_t)m <= limited + 9 + 4 * k, "nwmgr:limit", "more connections than the limit"); verify(limited); teardown();
}
// stop() at any time, from any thread
static void s_stop() {
    int k = 1 + mc::choose(2), how = mc::choose(2); world(k, 40); mc::set_deviations(mc::tier(3, 4)); rt::race_detect(false);
    rt::spawn([=]() { { rt::Quiet z; open_client(); open_client(); send(0, how ? "s0" : "e0"); send(0, "e1"); send(1, "t2"); } rt::yield(); if (!how) { rt::wait_until([]() { return mgr->m_oEvent.m_bRun; }); stopping = true; mgr->stop(); } }, "clients");
    run(); teardown();
}
int main(int argc, char **argv) { vector<mc::Space> s; s.push_back({ "work", s_work, false, 0, "1-3 workers, three clients, answers at once, from timers and from messages, clients leaving, descriptors reused" }); s.push_back({ "accept", s_accept, false, 0, "batches of connections, accept failures, the connection limit" }); s.push_back({ "stop", s_stop, false, 0, "stop from a worker or another thread at any point" }); return mc::run(argc, argv, s, "schedules of the real manager and workers over the simulated kernel; non-trivial: always"); }
