// CTcpConnector and CUdpConnector against scripted peers in virtual time.
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <functional>
#include <string>
#include <vector>
#include "CTcpConnector.h"
#include "CUdpConnector.h"
#include "mcrt.h"
#include "mc.h"
using namespace std;
static uint64_t now() { return rt::now_us / 1000; }
#ifdef SP_UDP
static const uint32_t SRV = 0x0a000001;
static void s_udp() {
    rt::begin(); rt::ordered(true); mc::nontrivial(); vk::ifaces.clear(); vk::on_misuse = [](const char *w, int fd) { mc::fail("udp:descriptor misuse", "%s (%d)", w, fd); }; bool senderr = false; vk::fault = [&](const char *c, int, size_t) -> long { return senderr && !strcmp(c, "sendto") ? -ENOBUFS : 0; };
    int taken = socket(AF_INET, SOCK_DGRAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(7001); bind(taken, (struct sockaddr *)&a, sizeof a);
    static const uint32_t IF[][3] = { { 0x7f000001, 0, 0 }, { 0x7f000001, 0xc0a80105, 0x0a000009 }, { 0, 0x08080808, 0 }, { 0x08080404, 0xac100203, 0 } }; int k = mc::choose(4); for (int i = 0; i < 3; i++) vk::ifaces.push_back(IF[k][i]); uint32_t pick = k == 1 ? 0xc0a80105 : k == 3 ? 0xac100203 : 0;
    lce::CUdpConnector *u = new lce::CUdpConnector; bool open = false; uint16_t port = 0, srv = 0; vector<string> q; size_t sent = 0; int n = mc::tier(5, 6), dg = 0;
    for (int i = 0; i < n; i++) {
        int o = mc::choose(10); uint64_t t0 = now(); vk::udp_sent.resize(sent);
        if (o < 3) { // connect: fixed address and port, chosen address, port in use
            uint16_t lp = o == 0 ? 7000 : o == 2 ? 7001 : 0; srv = 9000 + i; bool r = u->connect("10.0.0.1", srv, o == 1 ? "" : "127.0.0.1", lp); mc::op("connect(%d): %d", lp, r); MC_CHECK(r == (o != 2), "udp:connect", "connect to local port %d: %d", lp, r); open = r; q.clear(); if (r) { port = lp; if (!lp) { port = 0; for (int p = 40000; p < 40600; p++) if (vk::udp_deliver(p, SRV, 1, "probe")) port = p; MC_CHECK(port, "udp:not bound", "no bound socket"); q.push_back("probe"); } uint32_t want = o == 1 ? pick : 0x7f000001; MC_CHECK(vk::udp_addr(port) == want, "udp:address", "bound to %x instead of %x", vk::udp_addr(port), want); } }
        else if (o == 3 || o == 4) { senderr = o == 4; string d = mc::strf("d%d", dg++); d.resize(mc::choose(2) ? 2 : 700, 'x'); int r = u->write(d.data(), d.size()); senderr = false; mc::op("write(%zu)%s: %d", d.size(), o == 4 ? " failing" : "", r); int want = open && o == 3 ? (int)d.size() : -1; MC_CHECK(r == want, "udp:write", "write returns %d instead of %d", r, want); if (want > 0) { MC_CHECK(vk::udp_sent.size() == sent + 1, "udp:sent", "%zu datagrams sent", vk::udp_sent.size() - sent); vk::Dgram &g = vk::udp_sent.back(); MC_CHECK(g.data == d && g.ip == SRV && g.port == srv, "udp:sent", "a datagram of %zu bytes goes to %x:%d", g.data.size(), g.ip, g.port); sent++; } else MC_CHECK(vk::udp_sent.size() == sent, "udp:sent", "a datagram is sent although write fails"); }
        else if (o == 5) { string d = mc::strf("r%d", dg++); if (mc::choose(2)) d.resize(65000, 'y'); if (open) { vk::udp_deliver(port, SRV, srv, d); q.push_back(d); } mc::op("%zu bytes arrive", d.size()); }
        else if (o == 6 || o == 7) { size_t cap = o == 6 ? 3 : 65535; char *b = new char[cap]; int r = u->read(b, cap, 250); mc::op("read(%zu): %d", cap, r); string want; bool got = open && q.size(); if (got) { want = q.front().substr(0, cap); q.erase(q.begin()); } MC_CHECK(r == (got ? (int)want.size() : -1) && (r < 0 || !memcmp(b, want.data(), r)), "udp:read", "read returns %d instead of %d", r, got ? (int)want.size() : -1); delete[] b; MC_CHECK(now() - t0 == (uint64_t)(open && !got ? 250 : 0), "udp:time", "read takes %d ms", (int)(now() - t0)); }
        else if (o == 8) { string b = "old"; int r = u->read(b, 250); mc::op("read(string): %d", r); bool got = open && q.size(); string want; if (got) { want = q.front(); q.erase(q.begin()); } MC_CHECK(r == (got ? (int)want.size() : -1) && b == want, "udp:read", "read returns %d (%zu bytes) instead of %d", r, b.size(), got ? (int)want.size() : -1); MC_CHECK(now() - t0 == (uint64_t)(open && !got ? 250 : 0), "udp:time", "read takes %d ms", (int)(now() - t0)); }
        else { u->close(); open = false; q.clear(); mc::op("close"); }
        mc::step(); MC_CHECK(vk::open_count("udp") == 1 + open, "udp:descriptors", "%d sockets instead of %d", vk::open_count("udp") - 1, open); mc::state(mc::hmix(mc::hmix(q.size(), open), port));
    }
    delete u; MC_CHECK(vk::open_count("udp") == 1, "udp:descriptors", "%d sockets after destruction", vk::open_count("udp") - 1); close(taken);
}
int main(int argc, char **argv) { vector<mc::Space> s; s.push_back({ "udp", s_udp, false, 0, "sequences of connect, write, read, close and arriving datagrams" }); return mc::run(argc, argv, s, "operation sequences on the real connector against a scripted peer in virtual time; non-trivial: always"); }
#else
struct Ev { int at; const char *d; };   // d: bytes, "F" fin, "R" rst, "G" closed for good (writes fail)
static const vector<Ev> SC[] = { { { 20, "abcde" } }, { { 20, "ab" }, { 70, "cde" } }, { { 20, "abc" }, { 40, "F" } }, { { 40, "R" } }, { { 150, "ab" } }, { { 20, "abc" }, { 40, "R" } }, { }, { { 30, "G" } } };
struct A { int mode, sc; uint64_t t; vk::Conn *c; long wnd; }; static vector<A> att; static int sockfail;
enum { NOW_OK, LATER_OK, LATE_OK, LATER_ERR, NEVER, NOW_ERR, NMODE };
static lce::CTcpConnector *t;
struct M { bool open; vk::Conn *c; string in, sent; bool eof, rst, gone; long wnd; vector<Ev> ev; uint64_t base; size_t evi; } m;
static uint64_t mt;  // the model's clock
static void apply(uint64_t to) { while (m.evi < m.ev.size() && m.base + m.ev[m.evi].at <= to) { Ev &e = m.ev[m.evi++]; if (m.base + e.at == to && to != mt) { } switch (e.d[0]) { case 'F': m.eof = true; break; case 'R': m.rst = true; m.in.clear(); m.gone = true; break; case 'G': m.eof = m.gone = true; break; default: m.in += e.d; } } mt = to; }
static uint64_t next() { return m.evi < m.ev.size() ? m.base + m.ev[m.evi].at : ~0ULL; }
static bool mconnect(int timeout, size_t before) { // the model of one attempt that started at mt
    m = M(); if (sockfail > 0) { sockfail--; MC_CHECK(att.size() == before, "tcp:connect", "connects without a socket"); return false; }
    MC_CHECK(att.size() == before + 1, "tcp:attempts", "%zu connection attempts", att.size() - before); A &a = att.back(); int d = a.mode == NOW_OK || a.mode == NOW_ERR ? 0 : a.mode == LATER_OK || a.mode == LATER_ERR ? 30 : a.mode == LATE_OK ? 170 : 1 << 30; if (d > timeout) { mt += timeout; return false; } mt += d; if (a.mode == NOW_ERR || a.mode == LATER_ERR) return false;
    m.open = true; m.c = a.c; m.wnd = a.wnd; m.ev = SC[a.sc]; m.base = mt; m.evi = 0; return true; }
// one recv with a timeout: bytes, 0 or -1
static int mrecv(size_t n, int timeout, string &out) { out.clear(); apply(mt); uint64_t end = mt + timeout; for (;;) { if (m.rst) { m.rst = false; m.eof = true; return -1; } if (!m.in.empty()) { out = m.in.substr(0, n); m.in.erase(0, out.size()); return out.size(); } if (m.eof) return 0; uint64_t x = next(); if (x == end) mc::prune(); if (x > end) { mt = end; return -1; } apply(x); } }
static void check(const char *what) { MC_CHECK(now() == mt, "tcp:time", "%s ends at %d ms instead of %d", what, (int)(now() - 0), (int)mt); MC_CHECK(vk::open_count("tcp") == m.open, "tcp:descriptors", "%d sockets after %s", vk::open_count("tcp"), what); if (m.open) MC_CHECK(m.c->sent == m.sent, "tcp:sent", "sent %s instead of %s", mc::esc(m.c->sent).c_str(), mc::esc(m.sent).c_str()); MC_CHECK(!vk::sigpipes, "tcp:SIGPIPE", "writing raises SIGPIPE"); mc::step(); mc::state(mc::hmix(mc::hash(m.in), m.open * 8 + m.eof * 4 + m.rst * 2 + m.gone)); }
static void s_tcp() {
    rt::begin(); rt::ordered(true); mc::nontrivial(); att.clear(); m = M(); vk::sigpipes = 0; vk::on_misuse = [](const char *w, int fd) { mc::fail("tcp:descriptor misuse", "%s (%d)", w, fd); };
    sockfail = mc::choose(2); int failnow = sockfail; vk::fault = [&](const char *c, int, size_t) -> long { if (!strcmp(c, "socket") && failnow > 0) { failnow--; return -EMFILE; } return 0; };
    vk::on_connect = [](vk::Conn *c) -> int { if (c->ip != 0x0a000001) return ENETUNREACH; A a; a.mode = mc::choose(att.size() < 2 ? (int)NMODE : 2); a.sc = a.mode <= LATER_OK ? mc::choose(att.empty() ? 8 : 3) : 0; a.t = now(); a.c = c; a.wnd = a.sc == 6 ? 2 : 1 << 20; att.push_back(a); MC_CHECK(c->port == 80, "tcp:port", "connects to port %d", c->port); vk::set_wnd(c, a.wnd); static const char *N[] = { "connects at once", "connects after 30 ms", "connects after 170 ms", "is refused after 30 ms", "never answers", "is refused" }; mc::op("  the peer %s, script %d", N[a.mode], a.sc); if (a.mode == NOW_ERR) return ECONNREFUSED;
        rt::spawn([a]() { if (a.mode != NOW_OK) { if (a.mode == NEVER) return; usleep(a.mode == LATE_OK ? 170000 : 30000); if (a.c->closes) return; vk::complete(a.c, a.mode == LATER_ERR ? ECONNREFUSED : 0); if (a.mode == LATER_ERR) return; } int at = 0; for (size_t i = 0; i < SC[a.sc].size(); i++) { usleep((SC[a.sc][i].at - at) * 1000); at = SC[a.sc][i].at; if (a.c->closes) return; const char *d = SC[a.sc][i].d; if (*d == 'F') vk::fin(a.c); else if (*d == 'R') vk::rst(a.c); else if (*d == 'G') { vk::fin(a.c); a.c->peer_gone = true; } else vk::deliver(a.c, d); } }, "peer"); return a.mode == NOW_OK ? 0 : EINPROGRESS; };
    t = new lce::CTcpConnector; bool known = false; int ctimeout = 100; mt = now(); int n = mc::tier(4, 5);
    for (int i = 0; i < n; i++) {
        int o = i == 0 && mc::choose(2) ? 0 : mc::choose(8); size_t before = att.size(); string out; mt = now(); if (m.open) apply(mt);
        if (o == 0) { ctimeout = i ? 200 : 100; bool r = t->connect("10.0.0.1", 80, ctimeout); known = true; bool w = mconnect(ctimeout, before); mc::op("connect: %d", r); MC_CHECK(r == w, "tcp:connect", "connect returns %d", r); check("connect"); }
        else if (o == 1) { string d = mc::strf("w%d.", i); int r = t->write(d.data(), d.size(), 100); mc::op("write: %d", r); bool have = m.open; if (!have) { if (!known) { sockfail = 0; MC_CHECK(r == -1, "tcp:write", "write without a connection returns %d", r); check("write"); continue; } have = mconnect(ctimeout, before); } if (!have) MC_CHECK(r == -1, "tcp:write", "write returns %d without a connection", r); else { if (m.rst || m.gone) { MC_CHECK(r == -1, "tcp:write", "write to a broken connection returns %d", r); m = M(); } else { if (m.wnd == 0) { mt += 100; while (next() < mt) apply(next()); MC_CHECK(r == -1, "tcp:write", "write without room returns %d", r); m = M(); } else { int k = min(m.wnd, (long)d.size()); MC_CHECK(r >= 1 && r <= k, "tcp:write", "write of %zu bytes returns %d", d.size(), r); m.sent += d.substr(0, r); m.wnd -= r; } } } check("write"); }
        else if (o == 2 || o == 3) { size_t cap = o == 2 ? 2 : 100; char b[100]; int r = t->read(b, cap, o == 2 ? 100 : 60); mc::op("read(%zu): %d", cap, r); int w = m.open ? mrecv(cap, o == 2 ? 100 : 60, out) : -1; MC_CHECK(r == w && (r <= 0 || string(b, r) == out), "tcp:read", "read returns %d instead of %d", r, w); if (m.open && w == 0) m = M(); check("read"); }
        else if (o == 4) { string b = "old"; int r = t->read(b, 100); mc::op("read(string): %d %s", r, mc::esc(b).c_str()); bool have = m.open; int w = m.open ? mrecv(65535, 100, out) : -1; MC_CHECK(r == w && (!have || b == out), "tcp:read", "read returns %d %s instead of %d", r, mc::esc(b).c_str(), w); if (m.open && w == 0) m = M(); check("read(string)"); }
        else if (o == 5) { char b[4]; int r = t->readn(b, 4, 100); mc::op("readn(4): %d", r); int w = -1; string all; if (m.open) { w = 0; while (w < 4) { int k = mrecv(4 - w, 100, out); if (k < 0) { w = -1; break; } if (k == 0) { m = M(); break; } all += out; w += k; } } MC_CHECK(r == w && (r <= 0 || string(b, r) == all), "tcp:readn", "readn returns %d instead of %d", r, w); check("readn"); }
        else if (o == 6) { t->close(); mc::op("close"); m = M(); check("close"); }
        else { usleep(33000); mc::op("33 ms pass"); }
    }
    delete t; m = M(); mt = now(); check("destruction"); for (size_t i = 0; i < att.size(); i++) MC_CHECK(att[i].c->closes == 1, "tcp:descriptors", "connection %zu is closed %d times", i, att[i].c->closes);
}
// descriptors beyond those of select()
static void s_many() {
    mc::nontrivial(); struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = rl.rlim_max < 1200 ? rl.rlim_max : 1200; setrlimit(RLIMIT_NOFILE, &rl); int l = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t al = sizeof a; if (bind(l, (struct sockaddr *)&a, al) || listen(l, 4) || getsockname(l, (struct sockaddr *)&a, &al)) mc::done(); static const int N[] = { 0, 900, 1020, 1023, 1030, 1100 }; int want = N[mc::choose(6)]; if (want >= (int)rl.rlim_cur) mc::done(); int fd; while ((fd = dup(0)) >= 0 && fd < want - 1) ; if (fd < 0) mc::done();
    lce::CTcpConnector c; bool r = c.connect("127.0.0.1", ntohs(a.sin_port), 2000); mc::op("connect above descriptor %d: %d", fd, r); MC_CHECK(r, "tcp:connect", "connect fails with %d descriptors in use: %s", fd, c.getErrMsg()); int p = accept(l, 0, 0); MC_CHECK(write(p, "hello", 5) == 5, "tcp:harness", "write"); char b[5]; MC_CHECK(c.readn(b, 5, 2000) == 5 && !memcmp(b, "hello", 5), "tcp:readn", "readn fails"); mc::step(); mc::done();
}
int main(int argc, char **argv) { vector<mc::Space> s; s.push_back({ "tcp", s_tcp, false, 0, "sequences of connect, write, read, readn, close against peers that answer, delay, refuse, close and reset" }); s.push_back({ "many-descriptors", s_many, true, 0, "real sockets with descriptors around 1024" }); return mc::run(argc, argv, s, "operation sequences on the real connector against a scripted peer in virtual time; non-trivial: always"); }
#endif
