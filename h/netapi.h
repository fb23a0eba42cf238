// The two networking front ends behind one interface, so that the same world
// (netsim.h) and the same scenarios drive both.
#ifndef VERIF_NETAPI_H
#define VERIF_NETAPI_H
#include <stdint.h>
#include <string.h>
#include <map>
#include <unordered_map>
#include <arpa/inet.h>
#ifdef USE_NW
#include "CNetWorkerMgr.h"
#else
#include "CCommMgr.h"
#endif
#include "netsim.h"
using namespace std;
using namespace lce;
ns::World *ns::W;
using ns::World; using ns::Sess;

static uint32_t sip(const StSession &s) { return ntohl(s.stClientAddr.sin_addr.s_addr); }
static uint16_t sport(const StSession &s) { return ntohs(s.stClientAddr.sin_port); }
static map<uint16_t, StSession> saved;
static int g_servers;

struct Handlers { function<void(StSession &, Sess &)> rd, cl; function<void(StSession &, Sess &, bool)> co; function<void(StSession &, Sess *, int)> er; function<void(int, void *)> tm, ms; function<void(int)> sg; };
static Handlers *proc;
// ddwBeginTime: a moment since the connection began
#if defined(SPACES_IN) || defined(SPACES_OUT) || defined(SPACES_SIG)
static void begun(const StSession &, const char *) {} // asked in C03, C05, C42
#else
static void begun(const StSession &s, const char *cb) { uint64_t t0 = 1700000000000000ULL; for (auto &c : ns::W->clients) if (c.port == sport(s)) t0 = c.t0; MC_CHECK(s.ddwBeginTime >= t0 / 1000 && s.ddwBeginTime <= rt::now_us / 1000, "session:begin time", "%s with ddwBeginTime %llu at %llu ms", cb, (unsigned long long)s.ddwBeginTime, (unsigned long long)(rt::now_us / 1000)); }
#endif
static void cb_read(StSession &s, const char *d, int n) { begun(s, "onRead"); saved[sport(s)] = s; Sess &x = ns::W->on_read(sip(s), sport(s), s.iFd, s.iSvrId, d, n); if (proc->rd) proc->rd(s, x); }
static void cb_close(StSession &s) { begun(s, "onClose"); Sess &x = ns::W->on_close(sip(s), sport(s), s.iFd, s.iSvrId); if (proc->cl) proc->cl(s, x); }
static void cb_connect(StSession &s, bool ok, void *p) { begun(s, "onConnect"); saved[sport(s)] = s; Sess &x = ns::W->on_connect(sip(s), sport(s), s.iFd, s.iSvrId, ok, p); if (proc->co) proc->co(s, x, ok); }
static void cb_error(StSession &s, const char *m, int e) { begun(s, "onError"); Sess *x = ns::W->on_error(sip(s), sport(s), s.iFd, s.iSvrId, e); if (proc->er) proc->er(s, x, e); }

struct Ext : CPackageFilter {
    int isWholePkg(const char *d, const int n, int &real, int &len) { if (n <= 0) return -1; unsigned k = (unsigned char)d[0]; if (k == 0xff) return -2; if (n < (int)k + 1) return -1; real = k; len = k + 1; return 0; }
    const char *getRealPkgData(const char *d, const int n) { return d + 1; }
};
static int pkgtype(ns::Framing f) { switch (f) { case ns::F_SHORT: return PKG_H2ST3; case ns::F_LONG: return PKG_H2LT3; case ns::F_HTTP: return PKG_HTTP; case ns::F_EXT: return PKG_EXT; default: return PKG_RAW; } }

#ifndef USE_NW
// ---------------------------------------------------------------- CCommMgr
struct Proc : CProcessor {
    void onRead(StSession &s, const char *d, const int n) { cb_read(s, d, n); }
    void onClose(StSession &s) { cb_close(s); }
    void onConnect(StSession &s, bool ok, void *p) { cb_connect(s, ok, p); }
    void onError(StSession &s, const char *m, int e) { cb_error(s, m, e); }
    void onTimer(int id, void *p) { mc::op("  onTimer %d", id); if (proc->tm) proc->tm(id, p); }
    void onMessage(int id, void *p) { mc::op("  onMessage %d", id); if (proc->ms) proc->ms(id, p); }
    void onSignal(int s) { if (proc->sg) proc->sg(s); }
};
static CCommMgr *mgr; static Proc *cproc;
static int api_init(uint32_t maxc) { mgr = new CCommMgr; cproc = new Proc; return mgr->init(maxc); }
static int api_srv(uint16_t port, ns::Framing f, uint32_t ri, uint32_t rm, uint32_t si, uint32_t sm) {
    int id = mgr->createSrv(SRV_TCP, "127.0.0.1", port, ri, rm, si, sm); if (id < 0) return id;
    MC_CHECK(mgr->setProcessor(id, cproc, pkgtype(f)) == 0, "net:setProcessor", "setProcessor fails");
    if (f == ns::F_EXT) MC_CHECK(mgr->setPkgFilter(id, new Ext) == 0, "net:setPkgFilter", "setPkgFilter fails");
    return id;
}
static int api_client(ns::Framing f, uint32_t ri, uint32_t rm, uint32_t si, uint32_t sm) {
    int id = mgr->createClient(ri, rm, si, sm); if (id < 0) return id;
    MC_CHECK(mgr->setProcessor(id, cproc, pkgtype(f)) == 0, "net:setProcessor", "setProcessor fails");
    if (f == ns::F_EXT) MC_CHECK(mgr->setPkgFilter(id, new Ext) == 0, "net:setPkgFilter", "setPkgFilter fails");
    return id;
}
static int api_write(StSession &s, const char *d, int n, bool c) { return mgr->write(s, d, n, c); }
static int api_close(StSession &s) { return mgr->close(s); }
static int api_connect(int id, const char *ip, uint16_t port, void *p) { return mgr->connect(id, ip, port, p); }
static int api_timer(int id, uint32_t ms, void *p) { return mgr->addTimer(id, ms, cproc, p); }
static int api_msg(int id, void *p) { return mgr->sendMessage(id, cproc, p); }
static void api_start() { mgr->start(); }
static void api_stop() { mgr->stop(); }
static void api_free() { delete mgr; mgr = NULL; delete cproc; cproc = NULL; }
static const char *api_err() { return mgr->getErrMsg(); }
static const bool NW = false;
#else
// ------------------------------------------- CNetWorkerMgr and its workers
#ifndef NW_WORKERS
#define NW_WORKERS 1
#endif
struct Work;
static vector<Work *> works; static map<uint16_t, Work *> owner; static int NWK = NW_WORKERS;
static function<void(Work *)> on_worker_init;
struct Work : CNetWorker {
    Work() { works.push_back(this); }
    int init() { if (on_worker_init) on_worker_init(this); return 0; }
    using CNetWorker::init;
    void own(StSession &s, const char *cb) { uint16_t p = sport(s); if (!owner.count(p)) owner[p] = this; MC_CHECK(owner[p] == this, "net:session moves between workers", "%s for peer %u on another worker than before", cb, p); }
    void onRead(StSession &s, const char *d, const int n) { own(s, "onRead"); cb_read(s, d, n); }
    void onClose(StSession &s) { own(s, "onClose"); cb_close(s); }
    void onConnect(StSession &s, bool ok, void *p) { own(s, "onConnect"); cb_connect(s, ok, p); }
    void onError(StSession &s, const char *m, int e) { own(s, "onError"); cb_error(s, m, e); }
    void onTimer(int id, void *p) { mc::op("  onTimer %d", id); if (proc->tm) proc->tm(id, p); }
    void onMessage(int id, void *p) { mc::op("  onMessage %d", id); if (proc->ms) proc->ms(id, p); }
};
static CNetWorkerMgr<Work> *mgr; static int g_mgr_errors;
static void mgr_error(const char *m) { mc::op("  manager error handler"); g_mgr_errors++; }
static int api_init(uint32_t maxc) { g_mgr_errors = 0; works.clear(); owner.clear(); mgr = new CNetWorkerMgr<Work>; int r = mgr->init(NWK, maxc); mgr->setErrHandler(mgr_error); return r; }
static int api_srv(uint16_t port, ns::Framing f, uint32_t ri, uint32_t rm, uint32_t si, uint32_t sm) {
    int id = mgr->createSrv("127.0.0.1", port, pkgtype(f), ri, rm, si, sm); if (id < 0) return id;
    if (f == ns::F_EXT) MC_CHECK(mgr->setPkgFilter(id, new Ext) == 0, "net:setPkgFilter", "setPkgFilter fails");
    return id;
}
static int api_client(ns::Framing f, uint32_t ri, uint32_t rm, uint32_t si, uint32_t sm) {
    int id = works[0]->createClient(pkgtype(f), ri, rm, si, sm); if (id < 0) return id;
    if (f == ns::F_EXT) MC_CHECK(works[0]->setPkgFilter(id, new Ext) == 0, "net:setPkgFilter", "setPkgFilter fails");
    return id;
}
static Work *of(StSession &s) { uint16_t p = sport(s); return owner.count(p) ? owner[p] : works[0]; }
static int api_write(StSession &s, const char *d, int n, bool c) { return of(s)->write(s, d, n, c); }
static int api_close(StSession &s) { return of(s)->close(s); }
static int api_connect(int id, const char *ip, uint16_t port, void *p) { return works[0]->connect(id, ip, port, p); }
static int api_timer(int id, uint32_t ms, void *p) { return works[0]->addTimer(id, ms, p); }
static int api_msg(int id, void *p) { return works[0]->sendMessage(id, p); }
static void api_start() { mgr->start(); }
static void api_stop() { mgr->stop(); }
static void api_free() { delete mgr; mgr = NULL; }
static const char *api_err() { return mgr->getErrMsg(); }
static const bool NW = true;
#endif

static int app_write(StSession &ss, const string &d, bool cl) {
    Sess &s = ns::W->sess[sport(ss)];
    Sess::W w; w.d = d; w.rc = 0; w.close = cl; s.writes.push_back(w); size_t i = s.writes.size() - 1;
    int rc; { string buf = d; buf.reserve(d.size()); char *x = new char[d.size() ? d.size() : 1]; memcpy(x, d.data(), d.size()); rc = api_write(ss, x, d.size(), cl); memset(x, '#', d.size()); delete[] x; }   // exact-size copy that goes away
    s.writes[i].rc = rc;
    mc::op("  app writes %s to peer %u%s -> %d", mc::esc(d, 40).c_str(), s.peer, cl ? " then close" : "", rc);
    if (s.c->fd < 0 && cl && rc == 0) s.dead = true;
    return rc;
}
static void app_close(StSession &ss) { ns::W->app_close(ns::W->sess[sport(ss)]); api_close(ss); }
static void act(StSession &s, Sess &x, int a, const string &d) {
    switch (a) {
    case 0: break;
    case 1: app_write(s, d, false); break;
    case 2: app_write(s, d, true); break;
    case 3: app_close(s); break;
    case 4: app_write(s, d, false); if (!x.dead) app_write(s, "second", false); break;
    case 5: app_write(s, d, false); if (!x.dead) app_write(s, "bye", true); break;
    case 6: app_write(s, d, false); if (!x.dead) app_close(s); break;
    }
}
// tears the world of one execution down
struct Env { Env(bool ordered = true) { rt::begin(); rt::ordered(ordered); saved.clear(); proc = new Handlers; } ~Env() { if (mgr) api_free(); delete proc; proc = NULL; rt::end(); } };
static void setup(World &w, uint32_t maxc = 20, uint32_t ri = 10240, uint32_t rm = 102400, uint32_t si = 102400, uint32_t sm = 1024000) {
    w.install(); w.max_recv = rm;
    MC_CHECK(api_init(maxc) == 0, "net:init", "init fails: %s", api_err());
    int id = api_srv(9000, w.framing, ri, rm, si, sm);
    MC_CHECK(id >= 0, "net:createSrv", "createSrv fails: %s", api_err());
    w.srvid = id;
}
// destroying the manager closes what belongs to it, once
static void finish() {
#ifndef USE_NW
    vk::fault = nullptr; api_free();
    for (size_t i = 0; i < vk::conns().size(); i++) { vk::Conn *c = vk::conns()[i]; MC_CHECK(c->fd < 0 && c->closes <= 1, "net:descriptor leak", "the manager is destroyed, the connection of peer %u has descriptor %d and was closed %d times", c->port, c->fd, c->closes); }
    MC_CHECK(vk::open_fds().empty(), "net:descriptor leak", "the manager is destroyed and descriptor %d is open", vk::open_fds()[0]);
#endif
    mc::done();
}
// run the loop until nothing more can happen, then check everything
static void go(World &w, const function<bool()> &more = nullptr) {
    int ticks = 0;
    rt::set_idle([&]() { if (more && more()) return true; if (w.idle()) return true; if (++ticks == 1) return false; api_stop(); return false; });
    api_start();
    w.final_check();
    finish();
}
#endif
