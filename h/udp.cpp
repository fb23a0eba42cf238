// UDP servers of CCommMgr: what arrives is handed over whole, what is sent goes out whole.
#include <stdint.h>
#include <string.h>
#include <deque>
#include <map>
#include <unordered_map>
#include <functional>
#include <arpa/inet.h>
#include "CCommMgr.h"
#include "netsim.h"
using namespace std; using namespace lce;
ns::World *ns::W;
static uint64_t g_seq;
struct X { bool read; string data; uint32_t ip; uint16_t port; int err; };   // one expected callback
struct Srv { int id; uint16_t port; ns::Framing f; size_t max; deque<X> want; bool alive; };
static vector<Srv> sv; static int reply, rmat; static CCommMgr *mgr; static vector<vk::Dgram> out; static string tcpgot; static int senderr, recverr, tcpsrv;
struct Ext : CPackageFilter { int isWholePkg(const char *d, const int n, int &real, int &len) { if (n <= 0) return -1; unsigned k = (unsigned char)d[0]; if (k == 0xff) return -2; if (n < (int)k + 1) return -1; real = k; len = k + 1; return 0; } const char *getRealPkgData(const char *d, const int n) { return d + 1; } };
static Srv *find(int id) { for (size_t i = 0; i < sv.size(); i++) if (sv[i].id == id && sv[i].alive) return &sv[i]; mc::fail("udp:callback", "a callback for server %d, which does not exist", id); }
static void sendit(Srv &v, const string &d, uint32_t ip, uint16_t port) { struct in_addr a; a.s_addr = htonl(ip); senderr = mc::choose(2); int r = mgr->writeTo(v.id, inet_ntoa(a), port, d.data(), d.size()); mc::op("  writeTo: %d", r); MC_CHECK(r == (senderr ? -1 : 0), "udp:writeTo", "writeTo returns %d", r); if (!senderr) { vk::Dgram g = { ip, port, d }; out.push_back(g); } senderr = 0; }
static void take(int id, bool read, const string &data, StSession &s, int err) {
    Srv *v = find(id); X x; if (v->want.empty()) mc::fail("udp:callback", "%s without a datagram: %s", read ? "onRead" : "onError", mc::esc(data).c_str()); x = v->want.front(); v->want.pop_front(); mc::step();
    if (x.read != read) mc::fail(x.read ? "udp:lost" : "udp:invalid data", "%s %s instead of %s %s", read ? "onRead" : "onError", mc::esc(data).c_str(), x.read ? "onRead" : "onError", mc::esc(x.data).c_str());
    if (read) { MC_CHECK(data == x.data, "udp:data", "hands over %zu bytes %s instead of %zu bytes %s", data.size(), mc::esc(data).c_str(), x.data.size(), mc::esc(x.data).c_str()); MC_CHECK(ntohl(s.stClientAddr.sin_addr.s_addr) == x.ip && ntohs(s.stClientAddr.sin_port) == x.port, "udp:address", "the sender is %x:%d instead of %x:%d", ntohl(s.stClientAddr.sin_addr.s_addr), ntohs(s.stClientAddr.sin_port), x.ip, x.port); if (reply) { string d = "re:" + data; sendit(*v, d, x.ip, x.port); } if (rmat && --rmat == 0) { v->alive = false; v->want.clear(); mc::op("  rmSrv in onRead"); MC_CHECK(mgr->rmSrv(id) == 0, "udp:rmSrv", "rmSrv fails"); } }
    else MC_CHECK(!x.err || err == x.err, "udp:error code", "error %d instead of %d", err, x.err);
}
struct P : CProcessor { void onRead(StSession &s, const char *d, const int n) { if (s.iSvrId == tcpsrv) { tcpgot.append(d, n); mc::op("  TCP onRead %d", n); return; } mc::op("  onRead %d: %s", s.iSvrId, mc::esc(string(d, n), 20).c_str()); take(s.iSvrId, true, string(d, n), s, 0); } void onClose(StSession &) {} void onConnect(StSession &, bool, void *) {} void onError(StSession &s, const char *, int e) { if (s.iSvrId == tcpsrv) mc::fail("udp:tcp", "error %d on the TCP connection", e); mc::op("  onError %d: %d", s.iSvrId, e); take(s.iSvrId, false, "", s, e); } };
static P *proc;
static void mksrv(uint16_t port, ns::Framing f, uint32_t init, uint32_t max) { int id = mgr->createSrv(SRV_UDP, "127.0.0.1", port, init, max); MC_CHECK(id >= 0, "udp:createSrv", "createSrv fails: %s", mgr->getErrMsg()); MC_CHECK(mgr->setProcessor(id, proc, f == ns::F_SHORT ? PKG_H2ST3 : f == ns::F_EXT ? PKG_EXT : f == ns::F_LONG ? PKG_H2LT3 : PKG_RAW) == 0, "udp:setProcessor", "setProcessor"); if (f == ns::F_EXT) mgr->setPkgFilter(id, new Ext); Srv v; v.id = id; v.port = port; v.f = f; v.max = max; v.alive = true; sv.push_back(v); }
static void arrive(Srv &v, int k) {
    static const int L[] = { 1, 8, 9, 31, 32, 33, 40 }; string d; int pay = L[k % 7]; bool bad = k >= 7;
    if (v.f == ns::F_RAW) { d.resize(pay); for (int i = 0; i < pay; i++) d[i] = (char)(g_seq++ * 7 + i); if (bad) d = d.substr(0, 0) + "raw" + d; }
    else { int body = v.f == ns::F_SHORT ? pay - 4 : v.f == ns::F_LONG ? pay - 6 : pay - 1; if (body < 0) body = 0; string b(body, 0); for (int i = 0; i < body; i++) b[i] = (char)(g_seq++ * 5 + i); d = ns::mk(v.f, b); if (bad) { if (k % 2) d.resize(d.size() - 1); else d[0] = (char)0xff; if (d.empty()) d = "\xff"; } }
    size_t len = 0; X x; x.ip = 0x0a000000 + k; x.port = 5000 + k; x.read = d.size() <= v.max && ns::ref_frame(v.f, d, len) == 0; x.err = d.size() > v.max ? ERR_NO_BUFFER : ERR_INVALID_PACKAGE; x.data = x.read ? d.substr(0, len) : d; v.want.push_back(x); mc::op("%zu bytes to %d: %s", d.size(), v.port, mc::esc(d, 20).c_str()); MC_CHECK(vk::udp_deliver(v.port, x.ip, x.port, d), "udp:not bound", "port %d is not bound", v.port);
}
static void s_udp() {
    rt::begin(); rt::ordered(true); mc::nontrivial(); sv.clear(); out.clear(); tcpgot = ""; g_seq = 0; senderr = recverr = 0; tcpsrv = -1; vk::on_misuse = [](const char *w, int fd) { mc::fail("udp:descriptor misuse", "%s (%d)", w, fd); };
    vk::fault = [](const char *c, int, size_t) -> long { if (senderr && !strcmp(c, "sendto")) return -ENOBUFS; if (recverr && !strcmp(c, "recvfrom")) { recverr = 0; return -ECONNREFUSED; } return 0; };
    mgr = new CCommMgr; proc = new P; int small = mc::choose(2); MC_CHECK(mgr->init(small ? 12 : 20) == 0, "udp:init", "init"); static const ns::Framing F[] = { ns::F_RAW, ns::F_SHORT, ns::F_LONG, ns::F_EXT }; ns::Framing f = F[mc::choose(4)];
    bool hi = small; vector<int> pad; if (hi) for (int i = 0; i < 12; i++) pad.push_back(socket(AF_INET, SOCK_DGRAM, 0)); else mc::choose(1);
    { int id = -1; if (hi) { id = mgr->createSrv(SRV_UDP, "127.0.0.1", 7000, 8, 32); if (id < 0) { mc::op("createSrv is refused"); mc::done(); } mgr->setProcessor(id, proc, PKG_RAW); Srv v; v.id = id; v.port = 7000; v.f = ns::F_RAW; v.max = 32; v.alive = true; sv.push_back(v); } else mksrv(7000, f, 8, 32); }
    if (!hi) mksrv(7001, ns::F_RAW, 32, 32); reply = mc::choose(2); rmat = mc::choose(2) * 2; int steps = mc::tier(3, 4); vk::Conn *tc = 0; string tcpwant; int made = 0;
    rt::set_idle([&]() {
        for (size_t i = 0; i < sv.size(); i++) if (sv[i].alive && sv[i].want.size()) mc::fail("udp:lost", "a datagram causes no callback");
        MC_CHECK(tcpgot == tcpwant, "udp:tcp", "the TCP connection got %zu of %zu bytes", tcpgot.size(), tcpwant.size()); mc::state(mc::hmix(sv.size() * 8 + made, out.size() * 64 + vk::open_count("udp")));
        if (steps-- <= 0) { mgr->stop(); return false; }
        int o = mc::choose(9);
        if (o < 6) { static const int K[] = { 0, 2, 4, 5, 7, 8 }; o = K[o]; Srv &v = sv[0].alive ? sv[0] : sv.back(); if (!v.alive) return true; arrive(v, o); if (sv.size() > 1 && sv[1].alive && &v != &sv[1] && mc::choose(2)) arrive(sv[1], 4); else if (mc::choose(2)) arrive(v, 2); }
        else if (o == 6) { if (sv[0].alive && mc::choose(2)) { sv[0].alive = false; mc::op("rmSrv"); MC_CHECK(mgr->rmSrv(sv[0].id) == 0, "udp:rmSrv", "rmSrv fails"); MC_CHECK(mgr->rmSrv(sv[0].id) == -1, "udp:rmSrv", "rmSrv twice succeeds"); MC_CHECK(mgr->writeTo(sv[0].id, "10.0.0.1", 1, "x", 1) == -1, "udp:writeTo", "writeTo of a removed server succeeds"); MC_CHECK(!vk::udp_deliver(7000, 1, 1, "x"), "udp:rmSrv", "the port of a removed server is open"); } if (!sv[0].alive && !made) { made = 1 + mc::choose(2); if (made == 1) { mc::op("createSrv again"); mksrv(7002, ns::F_SHORT, 4, 64); } else { mc::op("a TCP connection"); tcpsrv = mgr->createSrv(SRV_TCP, "127.0.0.1", 8000, 64, 128); mgr->setProcessor(tcpsrv, proc, PKG_H2ST3); tc = vk::incoming(8000, 0x0b000001, 77); } } }
        else if (o == 7) { if (sv[0].alive) sendit(sv[0], mc::choose(2) ? "hello" : string(900, 'z'), 0x0c000001, 9); if (tc) { string b = ns::mk(ns::F_SHORT, string(100, 't')); vk::deliver(tc, b); tcpwant += b; } }
        else if (sv[0].alive) { recverr = 1; X x; x.read = false; x.err = ERR_SOCKET; sv[0].want.push_back(x); mc::op("a failing recvfrom"); arrive(sv[0], 1); }
        return true; });
    mgr->start(); MC_CHECK(vk::udp_sent.size() == out.size(), "udp:sent", "%zu datagrams sent instead of %zu", vk::udp_sent.size(), out.size()); for (size_t i = 0; i < out.size(); i++) MC_CHECK(vk::udp_sent[i].data == out[i].data && vk::udp_sent[i].ip == out[i].ip && vk::udp_sent[i].port == out[i].port, "udp:sent", "datagram %zu: %zu bytes to %x:%d instead of %zu to %x:%d", i, vk::udp_sent[i].data.size(), vk::udp_sent[i].ip, vk::udp_sent[i].port, out[i].data.size(), out[i].ip, out[i].port);
    for (size_t i = 0; i < pad.size(); i++) close(pad[i]); delete mgr; delete proc; MC_CHECK(vk::open_count("udp") == 0, "udp:descriptors", "%d sockets left", vk::open_count("udp")); mc::done();
}
static void s_bad() { // creation that fails leaves nothing
    rt::begin(); rt::ordered(true); mc::nontrivial(); vk::on_misuse = [](const char *w, int fd) { mc::fail("udp:descriptor misuse", "%s (%d)", w, fd); }; mgr = new CCommMgr; proc = new P; mgr->init(10); int k = mc::choose(5); static const char *N[] = { "socket", "bind", "epoll_ctl", "none", "type" }; int fail = 1; vk::fault = [&](const char *c, int, size_t) -> long { if (fail && !strcmp(c, N[k])) { fail = 0; return -ENOMEM; } return 0; };
    int id = mgr->createSrv(k == 4 ? 99 : SRV_UDP, "127.0.0.1", 7000); fail = 0; mc::op("createSrv with failing %s: %d", N[k], id); MC_CHECK((id >= 0) == (k == 3), "udp:createSrv", "createSrv with failing %s: %d", N[k], id); MC_CHECK(vk::open_count("udp") == (k == 3), "udp:descriptors", "%d sockets after a failing %s", vk::open_count("udp"), N[k]); if (k != 3) { id = mgr->createSrv(SRV_UDP, "127.0.0.1", 7000); MC_CHECK(id >= 0, "udp:createSrv", "createSrv fails afterwards: %s", mgr->getErrMsg()); } MC_CHECK(mgr->createSrv(SRV_UDP, "127.0.0.1", 7000) < 0, "udp:createSrv", "createSrv of a used port succeeds"); MC_CHECK(mgr->setProcessor(id + 1, proc) < 0 && mgr->setProcessor(-1, proc) < 0 && mgr->setProcessor(id, NULL) < 0, "udp:setProcessor", "setProcessor accepts nonsense"); MC_CHECK(mgr->writeTo(id + 1, "1.2.3.4", 1, "x", 1) < 0 && mgr->writeTo(-1, "1.2.3.4", 1, "x", 1) < 0, "udp:writeTo", "writeTo accepts nonsense"); delete mgr; delete proc; MC_CHECK(vk::open_count("udp") == 0, "udp:descriptors", "%d sockets left", vk::open_count("udp")); mc::step(); mc::done(); }
int main(int argc, char **argv) { vector<mc::Space> s; s.push_back({ "datagrams", s_udp, false, 0, "datagrams of every kind, replies, removal and re-creation of servers" }); s.push_back({ "creation", s_bad, false, 0, "failing creation" }); return mc::run(argc, argv, s, "sequences of datagrams and calls on the real event loop over the simulated kernel; non-trivial: always"); }
